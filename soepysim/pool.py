"""Eight worker processes; a worker that hangs or dies is replaced and its scenario retried."""
import json
import os
import queue
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def environment(cache, scratch):
    e = dict(os.environ)
    e.update(JAX_PLATFORMS="cpu", PYTHONHASHSEED=os.environ.get("SOEPYSIM_HASHSEED", "0"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             XLA_FLAGS="--xla_backend_optimization_level=0 --xla_cpu_multi_thread_eigen=false",
             SOEPYSIM_CACHE=cache, TMPDIR=scratch, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE, TF_CPP_MIN_LOG_LEVEL="3",
             PYTHONWARNINGS="ignore", TZ="UTC")
    e.pop("PYTHONSTARTUP", None)
    return e


class Worker:
    def __init__(self, env, log):
        self.p = subprocess.Popen([sys.executable, "-m", "soepysim.worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=log, env=env, cwd=HERE, text=True, bufsize=1)
        self.q = queue.Queue()
        threading.Thread(target=self._read, daemon=True).start()
        self.ready = False

    def _read(self):
        for line in self.p.stdout:
            self.q.put(line)
        self.q.put(None)

    def get(self, timeout):
        line = self.q.get(timeout=timeout)
        return None if line is None else json.loads(line)

    def kill(self):
        try:
            self.p.kill()
            self.p.wait(10)
        except Exception:  # noqa: BLE001
            pass


class Pool:
    """run(jobs) yields (index, result) in completion order; result of a lost job has 'hang' or 'died'."""

    def __init__(self, n=None, hang=240.0, scratch=None):
        self.n = n or int(os.environ.get("SOEPYSIM_WORKERS", "8"))
        self.hang = hang
        self.dir = scratch or tempfile.mkdtemp(prefix="soepysim-pool-")
        self.cache = os.path.join(self.dir, "jax-cache")
        os.makedirs(self.cache, exist_ok=True)
        self.env = environment(self.cache, self.dir)
        self.log = open(os.path.join(self.dir, "stderr.log"), "ab")
        self.workers = [None] * self.n

    def _one(self, i, job):
        for attempt in (1, 2, 3):
            w = self.workers[i]
            try:
                if w is None:
                    w = self.workers[i] = Worker(self.env, self.log)
                if not w.ready:
                    if w.get(180) is None:
                        raise EOFError
                    w.ready = True
                w.p.stdin.write(json.dumps({"id": 0, "scn": job}) + "\n")
                w.p.stdin.flush()
                r = w.get(self.hang)
                if r is None:
                    raise EOFError
                if r.get("infra"):
                    w.kill()
                    self.workers[i] = None
                    res = r
                    time.sleep(1.0)
                    continue
                return r
            except queue.Empty:
                res = {"hang": True}
            except (EOFError, OSError):
                res = {"died": True, "rc": w.p.poll() if w else None}
            if w is not None:
                w.kill()
            self.workers[i] = None
            if res.get("hang") and attempt == 2:
                return res
        return res

    def run(self, jobs, deadline=None, stop=None):
        """jobs: list of (key, scenario)."""
        todo, out, lock = list(reversed(jobs)), queue.Queue(), threading.Lock()

        def loop(i):
            while True:
                with lock:
                    if not todo or (deadline and time.time() > deadline) or (stop and stop()):
                        break
                    key, scn = todo.pop()
                out.put((key, self._one(i, scn)))
            out.put(None)

        n = min(self.n, len(jobs)) or 1
        ths = [threading.Thread(target=loop, args=(i,), daemon=True) for i in range(n)]
        for t in ths:
            t.start()
        left = n
        while left:
            x = out.get()
            if x is None:
                left -= 1
            else:
                yield x

    def close(self):
        for w in self.workers:
            if w is not None:
                w.kill()
        self.log.close()
        import shutil

        shutil.rmtree(self.dir, ignore_errors=True)
