"""python -m soepysim.check <property> [quick|thorough]: decide one property by simulation."""
import collections
import hashlib
import json
import os
import sys
import time

from . import pool, registry

HERE = pool.HERE
RETRY = 3


def load_known():
    with open(os.path.join(HERE, "known_findings.json")) as fh:
        return json.load(fh)["known"]


def classify(r):
    """Violations of one result, lost runs included."""
    if r.get("hang"):
        return [{"oracle": "liveness", "msg": "no result within the time any other scenario takes, twice"}]
    return r.get("viol") or []


def judged(r, known):
    v = list(classify(r))
    for k in r.get("known") or []:
        if k["id"] not in known:
            v.append({"oracle": f"finding-{k['id']}", "msg": k["msg"]})
    return v


def minimise(p, check, scn, oracle, known, budget):
    end = time.time() + budget
    steps = 0
    if oracle == "liveness":
        return scn, steps
    while time.time() < end:
        cand = []
        for c in check.shrink(scn):
            cand.append(c)
            if len(cand) >= 64:
                break
        if not cand:
            break
        best, tried = None, 0
        for at in range(0, len(cand), p.n):
            if time.time() > end:
                break
            part = list(enumerate(cand[at: at + p.n]))
            got = dict(p.run(part))
            tried += len(got)
            steps += len(got)
            hits = [i for i in sorted(got) if any(v["oracle"] == oracle for v in judged(got[i], known))]
            if hits:
                best = part[hits[0]][1]
                break
        if best is None:
            break
        scn = best
    return scn, steps


def replays(scn, oracle, known, times=1):
    """Does the scenario violate in a fresh process? Returns the violation or None."""
    for _ in range(times):
        q = pool.Pool(n=1, hang=getattr(registry.get(scn["check"]), "hang", 240.0))
        try:
            (_, r), = list(q.run([(0, scn)]))
        finally:
            q.close()
        for v in judged(r, known):
            if v["oracle"] == oracle:
                return v
    return None


def sample_of(scn, r):
    s = {k: v for k, v in scn.items() if k != "world"}
    s["world"] = scn.get("world") or scn.get("worlds")
    return {"scenario": s, "simulations": r.get("sims"), "agent_years": r.get("agent_years"), "faults": r.get("faults"), "reached": r.get("reach")}


def main(argv):
    cid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    print(f"property {cid} tier {tier} seed {seed} code {os.environ.get('SOEPYSIM_REPO', '/repo')}", flush=True)
    check = registry.get(cid)
    known = {k["id"]: k for k in load_known() if k["property"] == cid}
    t0 = time.time()
    cap = float(os.environ.get("SOEPYSIM_CAP", "330" if tier == "quick" else "5400"))
    scns = registry.scenarios(cid, seed, tier)
    p = pool.Pool(hang=getattr(check, "hang", 240.0))
    tot = collections.Counter()
    faults, reach, sigs, found, errors, samples = collections.Counter(), collections.Counter(), set(), {}, [], []
    nontrivial = set()
    notes = collections.Counter()
    bad = []
    try:
        for i, r in p.run(list(enumerate(scns)), deadline=t0 + cap, stop=lambda: bool(bad)):
            if r.get("error") or r.get("died") or r.get("infra"):
                errors.append((i, r))
                continue
            tot["runs"] += 1
            tot["sims"] += r.get("sims", 0)
            tot["agent_years"] += r.get("agent_years", 0)
            faults.update(r.get("faults") or {})
            reach.update(r.get("reach") or {})
            sigs.update(r.get("sigs") or [])
            if r.get("note"):
                notes[r["note"]] += 1
            if r.get("sigs"):
                nontrivial.add(hashlib.md5(json.dumps(scns[i], sort_keys=True).encode()).hexdigest())
                if len(samples) < 2:
                    samples.append(sample_of(scns[i], r))
            for k in r.get("known") or []:
                if k["id"] in known:
                    found.setdefault(k["id"], k["msg"])
            v = judged(r, known)
            if v:
                if r.get("pin"):
                    scns[i] = r["pin"]
                bad.append((i, v))
        wall_explore = time.time() - t0
        rc, n_viol = 0, 0
        # One report per oracle, the first scenario of each; unreproducible ones are noted, not reported.
        seen = {}
        for i, v in sorted(bad):
            for x in v:
                seen.setdefault(x["oracle"], (i, x))
        report = None
        t1 = time.time()
        for oracle, (i, x) in sorted(seen.items(), key=lambda kv: kv[1][0]):
            if report:
                n_viol += 1
                continue
            scn, steps = minimise(p, check, scns[i], oracle, known, 75 if tier == "quick" else 300)
            again = replays(scn, oracle, known) or None
            if again is None:
                scn = scns[i]
                again = replays(scn, oracle, known, RETRY)
            if again is None:
                notes[f"not reproduced: {oracle} in scenario {i}: {x['msg'][:200]}"] += 1
                continue
            n_viol += 1
            d = os.path.join(HERE, "replays")
            os.makedirs(d, exist_ok=True)
            name = f"{cid}-{hashlib.md5(json.dumps(scn, sort_keys=True).encode()).hexdigest()[:10]}.json"
            path = os.path.join(d, name)
            with open(path, "w") as fh:
                json.dump({"property": cid, "seed": seed, "tier": tier, "scenario_index": i, "oracle": oracle, "message": again["msg"],
                           "minimising_runs": steps, "scenario": scn,
                           "replay": f"cd /verif && ./replay {path}"}, fh, indent=1)
            print(f"violated oracle {oracle}: {again['msg']}")
            print(f"scenario (minimised in {steps} runs, {time.time() - t1:.0f} s): {json.dumps(scn)[:1500]}")
            print(f"VIOLATION property={cid} replay={path}", flush=True)
            report = path
        for kid in sorted(found):
            print(f"KNOWN-FINDING: property={cid} {kid}: {found[kid][:300]}")
        if report:
            rc = 1
        elif errors:
            i, r = errors[0]
            print(f"harness error in scenario {i}: {json.dumps({k: v for k, v in r.items() if k != 'trace'})[:600]}\n{r.get('trace', '')}")
            rc = 2
        if not report and tot["runs"] == 0:
            print("nothing explored")
            rc = 2
    finally:
        p.close()
    wall = time.time() - t0
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(nontrivial),
        "rule": check.rule,
        "samples": samples,
        "scenarios_planned": len(scns),
        "simulate_calls": tot["sims"],
        "simulated_agent_years": tot["agent_years"],
        "runs_per_hour": round(3600 * tot["runs"] / max(wall_explore, 1e-9)),
        "seeds_per_hour": round(3600 * len(scns) / max(wall_explore, 1e-9)) if tot["runs"] == len(scns) else round(3600 * tot["runs"] / max(wall_explore, 1e-9)),
        "faults_injected": dict(sorted(faults.items())),
        "reached": dict(sorted(reach.items())),
        "distinct_states": {"count": len(sigs), "measure": getattr(check, "measure", "distinct agent histories (education, type, child ages, partner states and choices by period)")},
        "real_code": getattr(check, "real", "all of soepy (reading, processing, solving, simulating), JAX, NumPy, pandas and the files on disk"),
        "stubs": getattr(check, "stubs", "outcomes of NumPy draws in scripted natures"),
        "notes": dict(notes),
        "known_findings_met": sorted(found),
        "harness_errors": len(errors),
        "workers": p.n,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{cid}.json"), "w") as fh:
        json.dump({"property": cid, "tier": tier, "seed": seed, "level": getattr(check, "level", "exploration"), "coverage": cov,
                   "assumptions": getattr(check, "assumptions", []), "wall_s": round(wall, 1), "violations": n_viol}, fh, indent=1)
    print(f"{cid}: {tot['runs']} of {len(scns)} scenarios, {tot['sims']} simulations, {tot['agent_years']} agent-years, "
          f"{sum(faults.values())} faults, {len(sigs)} distinct histories, {wall:.0f} s, {n_viol} violations")
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
