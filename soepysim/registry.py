"""Which module decides which property."""
import importlib

WHERE = {
    "checks_history": ["C06", "C07", "C08", "C09", "C10", "C15", "C17", "C18"],
    "checks_pairs": ["C11", "C12", "C13", "C14", "C16", "C21"],
    "checks_inputs": ["C19", "C20"],
    "checks_process": ["C01", "C02", "C03", "C04", "C05"],
    "checks_resources": ["C22"],
}


def ids():
    return sorted(i for v in WHERE.values() for i in v)


def get(cid):
    for mod, v in WHERE.items():
        if cid in v:
            return importlib.import_module(f"soepysim.{mod}").CHECKS[cid]
    raise SystemExit(f"unknown property {cid}")


# Checks whose comparisons are exact whatever the precision; some of their hosts leave JAX at 32 bits, its default.
EXACT = {"C01", "C02", "C03", "C04", "C05", "C06", "C12", "C13", "C14", "C18", "C19", "C20", "C21"}


def scenarios(cid, seed, tier):
    out = get(cid).scenarios(seed, tier)
    if cid in EXACT:
        for k in range(4, len(out), 9):
            out[k] = {**out[k], "bits": 32}
    return out
