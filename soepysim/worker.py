"""A long-lived process that simulates scenarios it is handed, one JSON line each."""
import gc
import json
import os
import sys
import time
import traceback


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # prints of the code under test do not disturb the protocol
    from . import env

    env.setup(os.environ.get("SOEPYSIM_CACHE") or None)
    from . import registry
    from .checks_history import InfraError

    out.write(json.dumps({"ready": os.getpid()}) + "\n")
    out.flush()
    for k, line in enumerate(sys.stdin):
        job = json.loads(line)
        t = time.time()
        try:
            env.bits(job["scn"].get("bits", 64))
            r = registry.get(job["scn"]["check"]).run(job["scn"]).as_dict()
        except InfraError as e:
            r = {"infra": str(e)[:400]}
        except BaseException as e:  # noqa: BLE001
            r = {"error": f"{type(e).__name__}: {e}"[:300], "trace": traceback.format_exc()[-3000:]}
        r["id"], r["wall"] = job["id"], time.time() - t
        out.write(json.dumps(r, default=str) + "\n")
        out.flush()
        if k % 10 == 9:
            gc.collect()
            env.trim_memory()


if __name__ == "__main__":
    main()
