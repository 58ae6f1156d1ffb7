"""What a process that keeps calling the library has left of its memory, descriptors and threads (C22)."""
import copy
import gc
import os
import threading
import time
import tracemalloc
import weakref

from . import core, env, sched, worlds
from .checks_history import core_infra
from .checks_process import ProcCheck, proc_world, rewrite, sig
from .core import rnd

# Largest growth per call that is put down to the interpreter and to JAX (dead weak references, resized tables).
ALLOW = {"objects": 0.5, "bytes": 1500.0, "arrays": 0.2, "programs": 0.2, "descriptors": 0.1, "threads": 0.1}
FLOOR = {"objects": 8, "bytes": 20000, "arrays": 3, "programs": 3, "descriptors": 2, "threads": 2}
UNIT = {"objects": "Python objects", "bytes": "bytes", "arrays": "device arrays", "programs": "compiled programs", "descriptors": "file descriptors", "threads": "threads"}


def measure():
    for _ in range(3):
        gc.collect()
    jax = env._state["jax"]
    return {
        "objects": sum(1 for o in gc.get_objects() if not isinstance(o, weakref.ref)),
        "bytes": tracemalloc.get_traced_memory()[0],
        "arrays": len(jax.live_arrays()),
        "programs": len(jax.devices()[0].client.live_executables()),
        "descriptors": len(os.listdir("/proc/self/fd")),
        "threads": threading.active_count(),
    }


def growing(marks, calls):
    """Measures that grew by more than the allowance over every window."""
    out = []
    for k in ALLOW:
        steps = [b[k] - a[k] for a, b in zip(marks, marks[1:])]
        if all(s > max(ALLOW[k] * calls, FLOOR[k]) for s in steps):
            out.append((k, min(steps)))
    return out



class Session:
    """A host program and its calls; nothing they return is kept."""

    def __init__(self, code, D, w, r, res):
        self.code, self.D, self.w, self.r, self.res = code, D, w, r, res
        self.put = D.put(w, "kept")
        self.other = D.put(w, "changing")
        self.f = self.new()
        self.sizes = sorted({w["n"], 3, 5, 1})
        self.count, self.last, self.events = 0, None, None

    def new(self):
        return self.code.get_simulate_func(self.put.pp, self.put.sp, biased_exp=self.w["biased"], data_sparse=self.w["sparse"])

    def slow(self, limit):
        """Does a plain call take longer than that? (Then fewer calls must do.)"""
        t = time.perf_counter()
        self.f(self.put.pp, self.put.sp)
        return time.perf_counter() - t > limit

    def work(self):
        """Lines of the package one call with the first arguments executes."""
        with sched.Profile() as p:
            self.f(self.put.pp, self.put.sp)
        self.events = len(p.events)
        return self.events

    def frame(self):
        p = worlds.params_of(self.w)
        name = self.r.choice(sorted(p))
        fr = self.put.frame()
        at = fr.index.get_level_values(1) == name
        fr.loc[at, "value"] = p[name] * (1 + 1e-5 * self.r.random())
        return fr

    def spec(self, **sim):
        s = copy.deepcopy(self.put.spec)
        s["SIMULATION"].update(sim)
        return s

    def call(self, kind, arg=None):
        self.count += 1
        self.last = kind
        res, r = self.res, self.r
        if kind not in ("fail", "crash"):
            res.sims += 1
            res.agent_years += self.w["n"] * self.w["T"]
        if kind == "warm":
            self.f(self.put.pp, self.spec(num_agents_sim=arg))
        elif kind == "same":
            self.f(self.put.pp, self.put.sp)
        elif kind == "params":
            self.f(self.frame(), self.put.sp)
        elif kind == "seed":
            self.f(self.put.pp, self.spec(seed_sim=r.randrange(2**31)))
        elif kind == "size":
            self.f(self.put.pp, self.spec(num_agents_sim=r.choice(self.sizes)))
        elif kind == "mem":
            self.f(self.put.frame(), copy.deepcopy(self.put.spec))
        elif kind == "files":
            self.other = rewrite(self.other, {**self.w, "pseed": r.randrange(2**31)})
            self.f(self.other.pp, self.other.sp)
            res.fault("replaced_files")
        elif kind == "thread":
            out = []
            t = threading.Thread(target=lambda: out.append(self.f(self.frame(), self.put.sp) is not None))
            t.start()
            t.join()
            if not out:
                raise RuntimeError("the call raised in a thread of its own")
            res.fault("call_in_new_thread")
        elif kind == "simulate":
            self.code.simulate(self.frame(), self.put.sp, biased_exp=self.w["biased"], data_sparse=self.w["sparse"])
        elif kind == "build":
            f = self.new()
            f(self.frame(), self.put.sp)
        elif kind == "fail":
            self.fail(r.choice(FAIL))
        elif kind == "crash":
            if self.events is None:
                self.work()
            c = sched.Crash(r.randrange(self.events), r.choice(sorted(sched.EXC)))
            try:
                with c:
                    self.f(self.frame(), self.put.sp)
            except BaseException as e:  # noqa: BLE001
                if e is not c.exc and not same_chain(e, c.exc):
                    raise
            finally:
                c.exc = None
            res.fault("crash")

    def fail(self, kind):
        """A call that cannot succeed."""
        pp, sp = self.put.pp, self.put.sp
        if kind == "no_file":
            pp += ".gone"
        elif kind == "dropped_row":
            fr = self.put.frame()
            # (not the tastes for children: those are missed while JAX traces, and JAX keeps what it traced)
            rows = [x for x in sorted(fr.index) if x[0] != "shares" and not str(x[1]).startswith("child_")]
            pp = fr.drop(index=self.r.choice(rows))
        elif kind == "not_a_number":
            pp = self.put.frame()
            pp["value"] = pp["value"].astype(object)
            pp.iloc[self.r.randrange(len(pp)), pp.columns.get_loc("value")] = "x"
        elif kind == "spec_cut":
            sp = self.spec()
            del sp["SIMULATION"]
        elif kind == "spec_missing":
            sp += ".gone"
        elif kind == "table_missing":
            sp = self.spec()
            g, key = worlds.FILE_KEYS[self.r.choice(sorted(worlds.FILE_KEYS))]
            sp[g][key] += ".gone"
        elif kind == "wrong_type":
            pp = [1]
        elif kind == "bad_method":
            sp = self.spec(num_agents_sim="many")
        try:
            self.f(pp, sp)
        except Exception as e:  # noqa: BLE001
            core_infra(e)
            self.res.fault("failing_call")


def same_chain(e, exc):
    seen = 0
    while e is not None and seen < 20:
        if e is exc or "injected" in str(e):
            return True
        e, seen = e.__cause__ or e.__context__, seen + 1
    return False


TRAFFIC = ["same", "params", "seed", "size", "mem", "fail", "crash", "thread", "files", "simulate", "build"]
FAIL = ["no_file", "dropped_row", "not_a_number", "spec_cut", "spec_missing", "table_missing", "wrong_type", "bad_method"]


class C22(ProcCheck):
    id = "C22"
    quick, thorough = 40, 700
    window = 12
    hang = 300.0
    measure = "distinct sessions (kinds of calls, failures, crash points) whose resources were followed"
    rule = ("a scenario is one session of at least 60 calls of one kind or mixed (the same arguments, other parameters, seeds, numbers of "
            "agents, objects or files, failing and interrupted calls, calls from threads that end, replaced tables, simulate() and new "
            "functions); after warming up, objects, bytes, device arrays, compiled programs, descriptors and threads are counted after "
            "each window of 12 calls, and a session that grows in every window is prolonged by 400 calls before it is reported; "
            "non-trivial if the last call still returned the panel of the first")
    real = "all of soepy, JAX, NumPy, pandas, files on disk"
    stubs = "none (exceptions injected at line events)"

    def gen(self, r, i):
        w = proc_world(r, r.choice([0, 1, 2, 2]))
        w["n"] = r.choice([3, 4, 5])
        w["rows"] = "plain"
        main = TRAFFIC[i % len(TRAFFIC)] if i % 4 else "mixed"
        return {"check": "C22", "world": w, "main": main, "tseed": r.randrange(2**31), "share": r.choice([1.0, 0.7]), "windows": 3}

    def go(self, scn, res):
        r = rnd("C22", scn["tseed"])
        w = scn["world"]
        code = env.Code()
        with core.Dir() as D:
            ses = Session(code, D, w, r, res)
            try:
                first = ses.f(ses.put.pp, ses.put.sp)
                core.hist_sigs(first, res, cap=20)
                want = core.digest(first)
                del first
            except Exception as e:  # noqa: BLE001
                core_infra(e)
                return res.bad("raises", f"the first call: {type(e).__name__}: {str(e)[:300]}")
            started = not tracemalloc.is_tracing()
            if started:
                tracemalloc.start(1)
            try:
                for n in ses.sizes:
                    ses.call("warm", n)
                kinds = TRAFFIC if scn["main"] == "mixed" else [scn["main"]] + [k for k in TRAFFIC if k not in ("simulate", "build")]
                for k in kinds:
                    ses.call(k)
                for k in FAIL:
                    ses.fail(k)
                for _ in range(5):
                    ses.call(self.pick(scn, r))
                marks, lines = [measure()], ses.work()
                for _ in range(scn["windows"]):
                    for _ in range(self.window):
                        ses.call(self.pick(scn, r))
                    marks.append(measure())
                bad = growing(marks, self.window)
                if bad:  # a bounded store may still be filling
                    end = time.perf_counter() + (20 if ses.slow(1.0) else 60)
                    for _ in range(400):
                        ses.call(self.pick(scn, r))
                        if time.perf_counter() > end:
                            break
                    late = [measure()]
                    for _ in range(2):
                        for _ in range(self.window):
                            ses.call(self.pick(scn, r))
                        late.append(measure())
                    for k, _ in growing(late, self.window):
                        if k in [x for x, _ in bad]:
                            res.bad("grows", f"{UNIT[k]} held by the process grow with every {self.window} calls, without end (calls: {scn['main']})")
                            res.note = f"{k} after {ses.count} calls: {[m[k] for m in marks + late]}"
                end = ses.work()
                if end > 1.02 * lines + 40:
                    res.bad("slows", f"a call executes {end} lines of the package at the end of a session, {lines} at its beginning")
                res.hit("windows_measured", len(marks) - 1)
                res.hit("calls_counted", ses.count)
                got = ses.f(ses.put.pp, ses.put.sp)
                if core.digest(got) != want:
                    res.bad("answer", f"after {ses.count} calls the first call, repeated, returns another panel")
                res.hit("panels_compared")
                ses.res.sims += 2
            except Exception as e:  # noqa: BLE001
                core_infra(e)
                return res.bad("raises", f"call {ses.count + 1} of a session ({ses.last}): {type(e).__name__}: {str(e)[:300]}")
            finally:
                if started:
                    tracemalloc.stop()
        sig(res, scn["main"], scn["tseed"])

    def pick(self, scn, r):
        if scn["main"] == "mixed":
            return r.choice(TRAFFIC[:-2] * 4 + TRAFFIC[-2:])
        return scn["main"] if r.random() < scn["share"] else r.choice([k for k in TRAFFIC if k not in ("simulate", "build")])

    def shrink(self, scn):
        if scn["main"] == "mixed":
            for k in TRAFFIC[:8]:
                yield {**scn, "main": k, "share": 1.0}
        elif scn["share"] < 1.0:
            yield {**scn, "share": 1.0}


CHECKS = {"C22": C22()}
