"""Run scenarios of every check twice, in other orders, processes and hash seeds, and compare what was recorded."""
import os
import sys

from . import pool, registry


def sweep(jobs, n, hashseed):
    os.environ.update(SOEPYSIM_HASHSEED=hashseed, SOEPYSIM_TRAIL="1")
    p = pool.Pool(n=n)
    try:
        return {k: {x: y for x, y in r.items() if x not in ("id", "wall")} for k, r in p.run(jobs)}
    finally:
        p.close()


def main(argv):
    per = int(argv[0]) if argv else 8
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = []
    for cid in argv[1:] or registry.ids():
        scns = registry.scenarios(cid, seed, "quick")
        step = max(1, len(scns) // per)
        jobs += [((cid, i), scns[i]) for i in range(0, len(scns), step)][:per]
    a = sweep(jobs, 8, "0")
    b = sweep(list(reversed(jobs)), 5, "4711")
    bad = [k for k in a if a[k] != b.get(k)]
    for k in bad[:10]:
        print("differs:", k, {x: (a[k].get(x), b[k].get(x)) for x in a[k] if a[k][x] != b[k].get(x)})
    print(f"{len(a)} scenarios run twice, {len(bad)} differ")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
