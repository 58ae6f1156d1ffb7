"""python -m soepysim.replay FILE: run a recorded scenario again in a fresh process."""
import json
import sys

from . import check


def main(path):
    with open(path) as fh:
        rec = json.load(fh)
    known = {k["id"]: k for k in check.load_known() if k["property"] == rec["property"]}
    v = check.replays(rec["scenario"], rec["oracle"], known)
    if v is None:
        print(f"property {rec['property']}: the scenario no longer violates {rec['oracle']}")
        return 0
    same = "identically" if v["msg"] == rec["message"] else f"with another message than recorded ({rec['message']})"
    print(f"property {rec['property']}: violates {rec['oracle']} {same}: {v['msg']}")
    return 1


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
