"""Checks of the library as a guest in a process: histories, threads, crashes, disk faults (C01-C05)."""
import atexit
import builtins
import contextlib
import copy
import datetime
import decimal
import gc
import hashlib
import json
import logging
import os
import random
import resource
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import types
import warnings
import weakref

import numpy as np
import pandas as pd

from . import core, disk, env, probe, sched, worlds
from .checks_history import InfraError, core_infra
from .core import Res, rnd

SHAPES = [  # few shapes, so that simulations are cheap and many histories fit
    dict(T=2, n=4, educ_years=[0, 1], types=1, child_age_max=1, child_age_init_max=0, init_exp_max=1, grid=[0.0, 0.4, 1.0]),
    dict(T=3, n=5, educ_years=[0, 1], types=2, child_age_max=1, child_age_init_max=0, init_exp_max=1, grid=[0.0, 0.4, 1.0]),
    dict(T=3, n=4, educ_years=[0], types=2, child_age_max=2, child_age_init_max=1, init_exp_max=0, grid=[0.0, 0.5, 1.0]),
    dict(T=3, n=6, educ_years=[0, 0, 1], types=1, child_age_max=3, child_age_init_max=1, init_exp_max=2, grid=[0.0, 0.2, 0.6, 1.0]),
]


def proc_world(r, shape=None):
    sh = SHAPES[shape if shape is not None else r.randrange(len(SHAPES))]
    w = worlds.gen_world(r, "tiny", **copy.deepcopy(sh))
    w["tables"] = {k: r.choice(["interior", "interior", "mixed"]) for k in w["tables"]}
    w["init"] = {k: "interior" for k in w["init"]}
    w["sigma"] = r.choice([0.2, 0.5, 0.2, 0.5, 0.0])
    w["delta"] = r.choice([0.8, 0.95])
    w["last_cb"] = r.choice([0, w["T"] - 1, w["T"]])
    w["prefs"] = r.choice(["mixed", "ft", "pt"])
    w["extra_periods"] = 0
    return w


def variant(w, r):
    """Same model, other parameters / simulation seed / number of agents."""
    v = dict(w)
    k = r.randrange(7) + 1
    if k & 1:
        v["pseed"] = r.randrange(2**31)
    if k & 2:
        v["seed_sim"] = r.choice([r.randrange(10**6), r.randrange(10**6), r.randrange(10**6), 0, 2**32 - 1])
    if k & 4:
        v["n"] = r.choice([1, 3, 4, 5, 7, 30, 300])
    if r.random() < 0.45:  # one parameter moved, often by very little, as a numerical derivative does
        v = dict(w)
        p = worlds.params_of(w)
        name = r.choice(sorted(p))
        step = r.choice([1e-10, 1e-8, 1e-6, 1e-4, 1e-2])
        v["params_over"] = {**w["params_over"], name: p[name] * (1 + step) if abs(p[name]) > 0.01 else p[name] + step}
    return v


VARIED = ("pseed", "seed_sim", "n", "params_over")


class Truth:
    """Panels as pristine, freshly imported code computes them from files of their own."""

    def __init__(self, res):
        self.res, self.memo = res, {}

    def __call__(self, w, biased=None, sparse=None):
        key = json.dumps([w, biased, sparse], sort_keys=True)
        if key not in self.memo:
            keep = (np.random.get_state(), random.getstate())
            with core.Dir() as D:
                put = D.put(w)
                code = env.Code()
                df = core.run(code, put, w, self.res, biased=biased, sparse=sparse)
            np.random.set_state(keep[0])
            random.setstate(keep[1])
            self.memo[key] = df
        return self.memo[key]


def expect(res, oracle, got, want, what):
    """Bit-identical?"""
    if core.digest(got) == core.digest(want):
        return True
    res.bad(oracle, f"{what}: {core.differ(got, want)}")
    return False


def sig(res, *parts):
    res.sigs.add(hashlib.md5(json.dumps(parts, sort_keys=True, default=str).encode()).hexdigest()[:12])


def legal_failure(res, e, what):
    core_infra(e)
    res.bad("raises", f"{what}: {type(e).__name__}: {str(e)[:300]}")


class ProcCheck:
    quick, thorough = 60, 1200
    measure = "distinct sequences of operations, faults and points at which they struck"

    def scenarios(self, seed, tier):
        n = self.quick if tier == "quick" else self.thorough
        return list(self.dedicated(seed, tier)) + [self.gen(rnd(self.id, seed, i), i) for i in range(n)]

    def dedicated(self, seed, tier):
        return []

    def run(self, scn):
        res = Res()
        home, environ = os.getcwd(), dict(os.environ)
        keep = (np.random.get_state(), random.getstate())
        try:
            self.go(scn, res)
        finally:
            os.chdir(home)
            for k in list(os.environ):
                if k not in environ:
                    del os.environ[k]
            os.environ.update(environ)
            np.random.set_state(keep[0])
            random.setstate(keep[1])
        return res


# ------------------------------------------------------------------------- C01


class Clock:
    """Clocks the process reads, moved by the simulator."""

    NAMES = ["time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "process_time"]

    def __init__(self, offset):
        self.offset = offset
        self.saved = {k: getattr(time, k) for k in self.NAMES}

    def __enter__(self):
        for k, f in self.saved.items():
            scale = 10**9 if k.endswith("_ns") else 1
            setattr(time, k, lambda f=f, s=scale: f() + self.offset * s)
        return self

    def __exit__(self, *a):
        for k, f in self.saved.items():
            setattr(time, k, f)


class C01(ProcCheck):
    id = "C01"
    quick, thorough = 72, 1500
    rule = ("a scenario is a seeded sequence of 4-9 operations of a host program (simulations and builds of two models in all input "
            "forms, calls through kept functions, edits of files, failing calls, moved clocks and directories, reseeded global "
            "generators); every panel must be bit-identical to that of pristine code; non-trivial with at least two compared panels")
    real = "all of soepy, JAX, NumPy, pandas, files on disk; in cross-process scenarios whole interpreters"
    stubs = "clocks (shifted)"

    def dedicated(self, seed, tier):
        out = []
        for i in range(5 if tier == "quick" else 40):
            r = rnd("C01x", seed, i)
            out.append({"check": "C01", "kind": "process", "worlds": [proc_world(r, i % len(SHAPES))], "hashseed": r.randrange(1, 2**31),
                        "TZ": r.choice(["UTC", "Pacific/Auckland", "America/New_York"]), "optimize": i % 2 == 1, "shift": r.choice([0, 1])})
        for i in range(1 if tier == "quick" else 12):
            out += self.sweeps(rnd("C01s", seed, i))
        for i in range(2 if tier == "quick" else 16):
            out.append({"check": "C01", "kind": "long", "worlds": [proc_world(rnd("C01l", seed, i, j), j) for j in (0, 1, 1, 3)],
                        "lseed": seed * 1000 + i, "calls": 40})
        return out

    def sweeps(self, r):
        """Every single input changed by itself, right after a call without the change."""
        w = proc_world(r, 1)
        w.update(types=3, sigma=0.4, n=6, elasticity=1.1, first_share="exact", extra_periods=2, last_cb=2, child_age_max=1, rows=r.choice(["plain", "shuffled"]))
        names = sorted(worlds.params_of(w))
        r.shuffle(names)
        items = []
        for nm in names:
            x = worlds.params_of(w)[nm]
            step = r.choice([1e-7, 1e-3, 0.04])
            items.append({"params_over": {nm: x * (1 - step) if abs(x) > 0.01 else x + step}})
        out = [{"check": "C01", "kind": "sweep", "through": "call", "worlds": [w], "items": items[k: k + 8], "form": r.choice(["file", "mem"])}
               for k in range(0, len(items), 8)]
        w = {**w, "n": 12, "regime": r.choice(["elterngeld", "erziehungsgeld"])}
        spec = worlds.build(w)["spec"]
        items = []
        for g in ("TAXES_TRANSFERS", "EXOG_PROC"):
            for k, v in spec[g].items():
                if isinstance(v, float) or (isinstance(v, int) and not isinstance(v, bool) and k not in ("tax_year", "child_age_max", "last_child_bearing_period")):
                    items.append({"spec_over": {f"{g}.{k}": v * r.choice([0.9, 1.1, 0.98])}})
        cc = spec["TAXES_TRANSFERS"]["child_care_costs"]
        for k in cc:
            for j in (0, 1):
                new = copy.deepcopy(cc)
                new[k][j] = round(new[k][j] * 1.07 + 1, 3)
                items.append({"spec_over": {"TAXES_TRANSFERS.child_care_costs": new}})
        items += [{"regime": "erziehungsgeld" if w["regime"] == "elterngeld" else "elterngeld"}, {"splitting": not w["splitting"]},
                  {"biased": not w["biased"]}, {"sparse": not w["sparse"]}, {"T": w["T"] + 1}, {"n": w["n"] + 1}, {"n": 1}, {"seed_sim": w["seed_sim"] + 1},
                  {"seed_emax": w["seed_emax"] + 1, "integ": "monte_carlo"}, {"draws": w["draws"] + 1}, {"elasticity": 1.2}, {"elasticity": None},
                  {"educ_years": [1, 1]}, {"educ_years": [0, 0]}, {"child_age_max": 2}, {"last_cb": 1}, {"last_cb": -1}, {"grid": [0.0, 0.45, 1.0]},
                  {"grid": [0.0, 0.2, 0.4, 1.0]}, {"integ": "monte_carlo" if w["integ"] == "quadrature" else "quadrature"}]
        r.shuffle(items)
        out += [{"check": "C01", "kind": "sweep", "through": "simulate", "worlds": [w], "items": items[k: k + 7], "form": r.choice(["file", "file", "mem"])}
                for k in range(0, len(items), 7)]
        w = {**w, "n": 40}
        t = worlds.build(w)["tables"]
        items = [{"cells": {"educ": [[0, 0.25], [1, 0.75]]}}, {"cells": {"educ": [[0, 0.75], [1, 0.25]]}}]
        for k in ("child", "arr", "sep", "partner"):
            for row in r.sample(range(len(t[k])), 2):
                items.append({"cells": {k: [[row, round(1 - float(t[k].iloc[row, 0]), 6)]]}})
        for k, size in (("child_age", w["child_age_init_max"] + 2), ("pt", w["init_exp_max"] + 1), ("ft", w["init_exp_max"] + 1)):
            for e in range(2):
                row = e * size + r.randrange(1, size)
                items.append({"cells": {k: [[row, round(float(t[k].iloc[row, 0]) * 0.1, 9)]]}})
        r.shuffle(items)
        out += [{"check": "C01", "kind": "sweep", "through": "simulate", "worlds": [w], "items": items[k: k + 8], "form": "file"}
                for k in range(0, len(items), 8)]
        return out

    def sweep(self, scn, res):
        w, truth, code = scn["worlds"][0], Truth(res), env.Code()
        with core.Dir() as D:
            fn = None
            for item in scn["items"]:
                for x in (w, {**copy.deepcopy(w), **copy.deepcopy(item)}):
                    put = D.put(x, "same")
                    try:
                        if scn["through"] == "call":
                            if fn is None:
                                fn = code.get_simulate_func(put.pp, put.sp, biased_exp=w["biased"], data_sparse=w["sparse"])
                            df = fn(*core.forms(put, scn["form"]))
                            res.sims += 1
                            res.agent_years += len(df)
                        else:
                            df = core.run(code, put, x, res, form=scn["form"])
                    except Exception as e:  # noqa: BLE001
                        return legal_failure(res, e, f"with {item}")
                    res.hit("panels_compared")
                    res.fault("single_input_changed", x is not w)
                    if not expect(res, "stale-input", df, truth(x), f"{'call' if scn['through'] == 'call' else 'simulate()'} {'before changing' if x is w else 'with only'} {json.dumps(item)[:150]}"):
                        res.pin = {**scn, "items": [item]}
                        return
                sig(res, "sweep", sorted(item), json.dumps(item)[:60])

    def many(self, scn, res):
        """A session of many calls through several functions; the last ones, and the first ones repeated, are judged."""
        r, truth, code = rnd("C01m", scn["lseed"]), Truth(res), env.Code()
        with core.Dir() as D:
            fns, seen = [], []
            try:
                for w in scn["worlds"]:
                    put = D.put(w)
                    fns.append(code.get_simulate_func(put.pp, put.sp, biased_exp=w["biased"], data_sparse=w["sparse"]))
                for k in range(scn["calls"]):
                    h = r.randrange(len(fns))
                    v = {**scn["worlds"][h], **{x: y for x, y in variant(scn["worlds"][h], r).items() if x in VARIED}}
                    put = D.put(v, "session")
                    df = fns[h](*core.forms(put, r.choice(["file", "mem"])))
                    seen.append((h, v, df))
                    res.sims += 1
                    res.agent_years += len(df)
                res.fault("long_session")
                again = [seen[k] for k in (0, 1, len(seen) // 2)] + [seen[0]]
                for k in (len(seen) - 1, len(seen) - 2):
                    h, v, df = seen[k]
                    res.hit("panels_compared")
                    if not expect(res, "long-session", df, truth(v), f"call {k + 1} of a session"):
                        return
                for h, v, df in again:
                    put = D.put(v, "session")
                    got = fns[h](*core.forms(put, "file"))
                    res.sims += 1
                    res.hit("panels_compared")
                    if not expect(res, "long-session", got, truth(v), f"a call repeated after {len(seen)} others"):
                        return
            except Exception as e:  # noqa: BLE001
                return legal_failure(res, e, "in a long session")
        sig(res, "long", scn["lseed"])

    def gen(self, r, i):
        a = proc_world(r)
        kind = r.choice(["twin", "single", "other", "tables"])
        if kind == "other":
            b = proc_world(r)
        else:  # the same shapes and names, other numbers: what a wrong cache key would confuse
            b = copy.deepcopy(a)
            if kind == "single":  # one setting apart
                others = [proc_world(r) for _ in range(6)]
                keys = ["mu", "delta", "sigma", "regime", "splitting", "elasticity", "biased", "seed_emax", "policy", "male", "last_cb",
                        "integ", "sparse", "draws", "seed_sim", "prefs", "tables", "init", "child_age_init_max", "grid", "n"]
                diff = [(k, o[k]) for o in others for k in keys if o[k] != a[k]]
                k, v = r.choice(diff)
                b[k] = v
                b["child_age_init_max"] = min(b["child_age_init_max"], b["child_age_max"])
            elif kind == "twin":
                b["seed"] = r.randrange(2**31)
                for k in r.sample(["mu", "delta", "sigma", "regime", "splitting", "elasticity", "biased", "seed_emax", "policy", "male",
                                   "last_cb", "integ", "sparse"], 5):
                    b[k] = proc_world(r)[k]
            else:
                b["seed"] = r.randrange(2**31)
                b["pseed"] = a["seed"]
        ops = []
        handles = []
        for _ in range(r.randint(4, 7)):
            k = r.random()
            w = r.randrange(2)
            form = r.choice(["file", "mem", "mixed", "mixed2"])
            if k < 0.35:
                ops.append(["sim", w, form])
            elif k < 0.5 or not handles:
                handles.append(w)
                ops.append(["build", w, form])
            elif k < 0.8:
                h = r.randrange(len(handles))
                v = variant([a, b][handles[h]], r)
                if r.random() < 0.5:  # right after the call it differs from
                    ops.append(["call", h, {}, r.choice([form, "inplace"])])
                form = r.choice([form, "inplace"])
                ops.append(["call", h, {x: v[x] for x in VARIED if x in v}, form])
            elif k < 0.9:
                ops.append(["edit", w, r.randrange(2**31)])
            else:
                ops.append(["fail", w, r.choice(["params_type", "no_delta", "no_file", "bad_integration", "empty_params", "call_no_delta"])])
            if r.random() < 0.5:
                ops.append([r.choice(["rng", "chdir", "clock", "gc", "environ", "rng"]), r.randrange(10**6)])
        if not any(o[0] == "sim" for o in ops[-3:]):
            ops.append(["sim", r.randrange(2), "file"])
        for h in range(len(handles)):
            if r.random() < 0.5:
                ops.append(["call", h, {}, "mem"])
        return {"check": "C01", "kind": "history", "worlds": [a, b], "ops": ops}

    def go(self, scn, res):
        if scn["kind"] == "process":
            return self.cross(scn, res)
        if scn["kind"] == "sweep":
            return self.sweep(scn, res)
        if scn["kind"] == "long":
            return self.many(scn, res)
        truth = Truth(res)
        self.kept = {}
        ws = [copy.deepcopy(w) for w in scn["worlds"]]
        clock = None
        compared = 0
        with core.Dir() as D, core.Dir() as elsewhere:
            puts = [D.put(w) for w in ws]
            code = env.Code()
            handles = []
            for op in scn["ops"]:
                kind = op[0]
                if kind in ("rng", "chdir", "clock", "gc", "environ"):
                    res.fault(kind)
                if kind == "rng":
                    np.random.seed(op[1])
                    np.random.rand(op[1] % 50)
                    np.random.randn()
                    random.seed(op[1])
                elif kind == "chdir":
                    os.chdir(elsewhere.path if op[1] % 2 else D.path)
                elif kind == "clock":
                    if clock:
                        clock.__exit__()
                    clock = Clock([-3e8, 3e9, 0.5, 86400 * 400][op[1] % 4])
                    clock.__enter__()
                elif kind == "gc":
                    gc.collect()
                    if op[1] % 3 == 0:
                        env._state["jax"].clear_caches()
                elif kind == "environ":
                    os.environ["TZ"] = ["UTC", "Asia/Tokyo"][op[1] % 2]
                    os.environ["SOEPY_SEED"] = str(op[1])
                    os.environ["LC_ALL"] = ["C", "C.UTF-8"][op[1] % 2]
                elif kind == "edit":
                    ws[op[1]] = {**ws[op[1]], "pseed": ws[op[1]].get("pseed", ws[op[1]]["seed"]), "seed": op[2]}
                    puts[op[1]] = rewrite(puts[op[1]], ws[op[1]])
                    res.fault("replaced_files")
                elif kind == "fail":
                    try:
                        self.failing(code, puts[op[1]], handles, op[2])
                    except InfraError:
                        raise
                    except Exception as e:  # noqa: BLE001
                        core_infra(e)
                        res.fault("failing_call")
                else:
                    try:
                        ok = self.judge(code, truth, puts, ws, handles, op, D, res)
                    except Exception as e:  # noqa: BLE001
                        legal_failure(res, e, f"operation {op} of {scn['ops']}")
                        ok = False
                    compared += ok is True
                    if ok is False:
                        break
            if clock:
                clock.__exit__()
        res.hit("panels_compared", compared)
        if compared >= 2 or res.viol:
            sig(res, [o[:1] + o[-1:] for o in scn["ops"]], [w["seed"] for w in scn["worlds"]])

    def failing(self, code, put, handles, kind):
        p, spec = put.frame(), copy.deepcopy(put.spec)
        if kind == "params_type":
            code.simulate([1], put.sp)
        elif kind == "no_delta":
            code.simulate(p.drop(index=("discount", "delta")), put.sp)
        elif kind == "no_file":
            code.simulate(put.pp + ".gone", put.sp)
        elif kind == "empty_params":
            code.simulate(p.iloc[:0], spec)
        elif kind == "bad_integration":
            spec["SOLUTION"]["integration_method"] = "none"
            code.simulate(p, spec)
        elif handles:
            handles[0][0](p.drop(index=("discount", "delta")), put.sp)

    def judge(self, code, truth, puts, ws, handles, op, D, res):
        kind = op[0]
        if kind == "sim":
            w = ws[op[1]]
            df = core.run(code, puts[op[1]], w, res, form=op[2])
            return expect(res, "history", df, truth(w), f"simulate() as operation {op}")
        if kind == "build":
            w = ws[op[1]]
            pp, sp = core.forms(puts[op[1]], op[2])
            handles.append((code.get_simulate_func(pp, sp, biased_exp=w["biased"], data_sparse=w["sparse"]), copy.deepcopy(w)))
            return None
        if op[1] >= len(handles):
            return None
        fn, w0 = handles[op[1]]
        w = {**w0, **op[2]}
        put = D.put(w)
        if op[3] == "inplace":  # the caller edits and passes the same objects again and again
            kept = self.kept.setdefault(op[1], core.forms(put, "mem"))
            kept[0].loc[:, "value"] = [worlds.params_of(w)[name] for name in kept[0].index.get_level_values(1)]
            for g in put.spec:
                if isinstance(kept[1][g], dict):
                    kept[1][g].update(copy.deepcopy(put.spec[g]))
            pp, sp = kept
        else:
            pp, sp = core.forms(put, op[3])
        df = fn(pp, sp)
        res.sims += 1
        res.agent_years += len(df)
        return expect(res, "reused-function", df, truth(w), f"call through a kept function, operation {op}")

    def cross(self, scn, res):
        w = scn["worlds"][0]
        truth = Truth(res)
        want = truth(w)
        with core.Dir() as D, core.Dir() as other:
            put = D.put(w)
            out = os.path.join(D.path, "out.pkl")
            prog = (
                "import sys,os; sys.dont_write_bytecode=True; sys.path.insert(0, sys.argv[1])\n"
                "import jax; jax.config.update('jax_enable_x64', sys.argv[8]=='64')\n"
                "import random, numpy as np; random.random(); np.random.seed(int(sys.argv[6]))\n"
                "from soepy.simulate.simulate_python import simulate\n"
                "df = simulate(sys.argv[2], sys.argv[3], biased_exp=sys.argv[4]=='True', data_sparse=sys.argv[5]=='True')\n"
                "df.to_pickle(sys.argv[7])\n"
            )
            e = dict(os.environ)
            e.update(PYTHONHASHSEED=str(scn["hashseed"] % 2**32), TZ=scn["TZ"], TMPDIR=other.path)
            if e.get("SOEPYSIM_CACHE"):
                e.update(JAX_COMPILATION_CACHE_DIR=e["SOEPYSIM_CACHE"], JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0",
                         JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="0", JAX_PERSISTENT_CACHE_ENABLE_XLA_CACHES="none")
            cmd = [sys.executable] + (["-O"] if scn["optimize"] else []) + [
                "-c", prog, env.REPO, put.pp, put.sp, str(w["biased"]), str(w["sparse"]), str(scn["hashseed"] % 2**31), out, str(scn.get("bits", 64))]
            p = subprocess.run(cmd, cwd=other.path, env=e, capture_output=True, text=True, timeout=200)
            if p.returncode < 0:
                raise InfraError(f"interpreter killed by signal {-p.returncode}")
            if p.returncode:
                if "MemoryError" in p.stderr or "No space left" in p.stderr:
                    raise InfraError(p.stderr[-200:])
                res.bad("raises", f"in another process: {p.stderr[-300:]}")
                return
            df = pd.read_pickle(out)
            res.sims += 1
            res.agent_years += len(df)
        res.fault("other_process")
        res.hit("panels_compared")
        sig(res, scn["hashseed"], w["seed"])
        expect(res, "environment", df, want, f"another process (hash seed {scn['hashseed']}, {scn['TZ']}, other directory{', -O' if scn['optimize'] else ''})")

    def shrink(self, scn):
        if scn["kind"] == "sweep":
            for k in scn["items"]:
                if len(scn["items"]) > 1:
                    yield {**scn, "items": [k]}
        if scn["kind"] == "long":
            for k in (3, 5, 10, 20, 30):
                if k < scn["calls"]:
                    yield {**scn, "calls": k}
        if scn["kind"] != "history":
            return
        ops = scn["ops"]
        nb = lambda k: sum(o[0] == "build" for o in ops[:k])
        for k in range(len(ops)):
            if ops[k][0] == "build":
                h = nb(k)
                rest = []
                for j, o in enumerate(ops):
                    if j == k or (o[0] == "call" and o[1] == h):
                        continue
                    rest.append([o[0], o[1] - 1] + o[2:] if o[0] == "call" and o[1] > h else o)
                yield {**scn, "ops": rest}
            else:
                yield {**scn, "ops": ops[:k] + ops[k + 1:]}
        for k, o in enumerate(ops):
            if o[0] == "call":
                for x in list(o[2]):
                    yield {**scn, "ops": ops[:k] + [[o[0], o[1], {a: b for a, b in o[2].items() if a != x}, o[3]]] + ops[k + 1:]}
            if o[-1] in ("mem", "mixed", "mixed2", "inplace"):
                yield {**scn, "ops": ops[:k] + [o[:-1] + ["file"]] + ops[k + 1:]}


def rewrite(put, w):
    """Other contents under the same names; same sizes and modification times."""
    stat = {f: os.stat(os.path.join(put.dir, f)) for f in os.listdir(put.dir)}
    built = worlds.build(w)
    pp, sp, spec = worlds.write(built, put.dir)
    for f, st in stat.items():
        os.utime(os.path.join(put.dir, f), ns=(st.st_atime_ns, st.st_mtime_ns))
    return core.Put(built, put.dir, pp, sp, spec)


# ------------------------------------------------------------------------- C02


def pick_event(r, events, outside=None):
    """An event index: by function first, so that short functions are met as often as long loops."""
    if not events:
        return 0
    if r.random() < 0.35:
        return r.randrange(len(events))
    names = sorted({f for f, _ in events})
    f = r.choice(names)
    return r.choice([k for k, e in enumerate(events) if e[0] == f])


class C02(ProcCheck):
    id = "C02"
    quick, thorough = 56, 1200
    SCHEDULES = 3
    SWEEP = 9
    rule = ("a scenario is a set of 2-3 simulated caller threads (simulations of two models, calls through one shared function, a host "
            "thread drawing from NumPy's global generator) run under three seeded schedules of 1-6 forced switches at source-line "
            "granularity, or, in sweeps, two threads of which one is held at nine lines in turn - first those at which a rehearsal saw state "
            "of the package or the process change - while the other runs to its end; non-trivial when a switch was taken while another "
            "call was unfinished; distinct by the switch points taken")
    measure = "distinct interleavings (sequence of thread, function and line at each switch)"
    real = "all of soepy, JAX, NumPy, pandas and files; threads are real, parked and released one at a time"
    stubs = "the thread scheduler; threading.Lock/RLock created by soepy"

    def gen(self, r, i):
        kind = ["two", "sweep_shared", "host", "shared", "three", "build", "sweep_two", "shared"][i % 8]
        a = proc_world(r)
        if r.random() < (0.2 if kind == "sweep_two" else 0.5):
            b = proc_world(r)
        else:
            b = {**copy.deepcopy(a), "seed": r.randrange(2**31), "seed_sim": r.randrange(10**6)}
        vs = [variant(a, r), variant(a, r)]
        if kind == "sweep_shared" and r.random() < 0.7:  # of one size, other numbers
            vs = [{**a, "pseed": r.randrange(2**31), "seed_sim": r.randrange(10**6)} for _ in range(2)]
        if r.random() < (0.4 if kind.startswith("sweep") else 0.15):  # panels large enough for code of their own, of one size
            n = r.choice([300, 300, 1200])
            start = r.random() < 0.6  # all of them in the panel from the start
            big = lambda w: {**w, "n": n, "educ_years": [0] * len(w["educ_years"]) if start else w["educ_years"]}
            a, b, vs = big(a), big(b), [big(v) for v in vs]
        return {"check": "C02", "kind": kind, "worlds": [a, b], "variants": vs, "sseed": r.randrange(10**9), "schedules": self.SCHEDULES}

    def go(self, scn, res):
        truth = Truth(res)
        a, b = scn["worlds"]
        v1, v2 = scn["variants"]
        r = rnd("C02s", scn["sseed"])
        kind = scn["kind"]
        with core.Dir() as D:
            put_a, put_b = D.put(a), D.put(b)
            var = [(v, D.put(v)) for v in (v1, v2)]
            if kind.startswith("sweep"):
                return self.sweep(scn, res, truth, D, (a, put_a), (b, put_b), var, r)
            # how long the calls are, and which functions they pass through
            code = env.Code()
            try:
                if kind in ("shared",):
                    fn = code.get_simulate_func(put_a.pp, put_a.sp, biased_exp=a["biased"], data_sparse=a["sparse"])
                    _, events = sched.profile(lambda: fn(var[0][1].pp, var[0][1].sp))
                else:
                    _, events = sched.profile(lambda: code.simulate(put_a.pp, put_a.sp, biased_exp=a["biased"], data_sparse=a["sparse"]))
                res.sims += 1
            except Exception as e:  # noqa: BLE001
                return legal_failure(res, e, "alone")
            given = scn.get("given")
            for k in range(1 if given else scn["schedules"]):
                schedule = given
                if schedule is None:
                    pts = sorted({pick_event(r, events) for _ in range(r.choice([1, 1, 2, 3, 6]))})
                    schedule, last = [], 0
                    for p in pts:
                        schedule.append([max(1, p + 1 - last), r.randrange(3)])
                        last = p + 1
                        if r.random() < 0.7:  # let the other one run to some point of its own, then come back
                            schedule.append([pick_event(r, events) + 1, r.randrange(3)])
                if not self.one(scn, res, truth, D, kind, (a, put_a), (b, put_b), var, schedule):
                    res.pin = {**scn, "given": schedule}
                    break

    def sweep(self, scn, res, truth, D, A, B, var, r):
        """One thread is held at a line, the other runs to its end, the first goes on; many lines in turn in one process."""
        (a, put_a), kind = A, scn["kind"][6:]
        code = env.Code()
        try:
            fn = None
            call = lambda: code.simulate(put_a.pp, put_a.sp, biased_exp=a["biased"], data_sparse=a["sparse"])
            if kind == "shared":
                fn = code.get_simulate_func(put_a.pp, put_a.sp, biased_exp=a["biased"], data_sparse=a["sparse"])
                call = lambda: fn(var[0][1].pp, var[0][1].sp)
            call()
            pkg = probe.Package(fn)
            events, marks = probe.rehearse(call, lambda: (pkg(), probe.host()))
            res.sims += 2
        except Exception as e:  # noqa: BLE001
            return legal_failure(res, e, "alone")
        given = scn.get("given")
        points = given
        if given is None:
            points = probe.distinct(r, events, marks)[: self.SWEEP - 3]
            points += [pick_event(r, events) for _ in range(self.SWEEP - len(points))]
        res.hit("state_changes_seen", bool(marks))
        for j, k in enumerate(points):
            if not self.one(scn, res, truth, D, kind, A, B, var, [[k + 1, 0]], code=code, fn=fn):
                res.pin = {**scn, "given": points[: j + 1]}
                return

    def one(self, scn, res, truth, D, kind, A, B, var, schedule, code=None, fn=None):
        fresh = code is None
        code = code or env.Code()
        (a, put_a), (b, put_b) = A, B
        call = lambda w, put: (lambda: code.simulate(put.pp, put.sp, biased_exp=w["biased"], data_sparse=w["sparse"]))
        fns, want = [], []
        if kind in ("shared", "three"):
            fn = fn or code.get_simulate_func(put_a.pp, put_a.sp, biased_exp=a["biased"], data_sparse=a["sparse"])
            for v, put in var:
                fns.append(lambda put=put: fn(put.pp, put.sp))
                want.append(v)
            if kind == "three":
                fns.append(call(b, put_b))
                want.append(b)
        elif kind == "two":
            fns, want = [call(a, put_a), call(b, put_b)], [a, b]
        elif kind == "build":
            def build_call():
                f = code.get_simulate_func(put_b.pp, put_b.sp, biased_exp=b["biased"], data_sparse=b["sparse"])
                return f(put_b.pp, put_b.sp)

            fns, want = [call(a, put_a), build_call], [a, b]
        else:
            fns, want = [call(a, put_a)], [a]
        wants = [truth(w) for w in want]
        drawn = []
        if not fresh:
            sched.watch_only(code.codes)
        S = sched.Scheduler(fns, schedule)
        if kind == "host":
            def host():
                for _ in range(12):
                    drawn.append((np.random.random_sample(), np.random.normal(), random.random()))
                    S.host_point()

            np.random.seed(scn["sseed"] % 2**32)
            random.seed(scn["sseed"])
            S.fns.append(host)
            S.grow()
        try:
            out = S.run()
        finally:
            gc.collect(0)
        res.sims += len(want)
        res.fault("thread_switch", S.switches)
        if S.switches:
            sig(res, [t[:3] for t in S.trace])
        where = f"threads {kind}, switches {[(t[0], t[1], t[2]) for t in S.trace[:6]]}"
        if S.dead:
            res.bad("liveness", f"{S.dead}: {where}")
            return False
        for i, w in enumerate(wants):
            st, val = out[i]
            if st != "ok":
                if isinstance(val, Exception):
                    core_infra(val)
                res.bad("concurrent-raise", f"thread {i} of {where}: {type(val).__name__}: {str(val)[:200]}")
                return False
            res.agent_years += len(val)
            if not expect(res, "concurrent-panel", val, w, f"thread {i} of {where}"):
                return False
            res.hit("panels_compared")
        if kind == "host":
            g, h = np.random.RandomState(scn["sseed"] % 2**32), random.Random(scn["sseed"])
            exp = [(g.random_sample(), g.normal(), h.random()) for _ in range(12)]
            if drawn != exp:
                k = next((k for k in range(len(drawn)) if drawn[k] != exp[k]), len(drawn))
                res.bad("host-stream", f"the host's draw {k} is {drawn[k] if k < len(drawn) else 'missing'}, alone {exp[k]}: {where}")
                return False
            res.hit("host_draws", len(drawn))
        return True

    def shrink(self, scn):
        sch = scn.get("given")
        if sch is None:
            return
        if scn["kind"].startswith("sweep"):
            for k in range(len(sch)):
                if len(sch) > 1:
                    yield {**scn, "given": sch[:k] + sch[k + 1:]}
            return
        for k in range(len(sch)):
            if len(sch) > 1:
                yield {**scn, "given": sch[:k] + sch[k + 1:]}
        for k in range(len(sch)):
            if sch[k][1]:
                yield {**scn, "given": sch[:k] + [[sch[k][0], 0]] + sch[k + 1:]}
        if scn["kind"] == "three":
            yield {**scn, "kind": "shared", "given": sch}


# ------------------------------------------------------------------------- C03

WRITE_EVENTS = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink", "os.chmod", "os.chown",
                "shutil.rmtree", "shutil.move", "shutil.copyfile", "os.utime", "os.putenv", "os.unsetenv", "os.chdir", "os.system",
                "subprocess.Popen", "os.fork", "os.exec", "os.posix_spawn", "socket.connect", "socket.bind", "signal.pthread_kill", "os.kill"}
_audit = {"on": False, "log": []}


def _hook(event, args):
    if not _audit["on"]:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
            _audit["log"].append(("open", str(path), mode))
    elif event in WRITE_EVENTS:
        _audit["log"].append((event, str(args)[:200], ""))


def watch():
    if not _audit.get("installed"):
        sys.addaudithook(_hook)
        _audit["installed"] = True


def ignorable(ev):
    p = ev[1]
    cache = os.environ.get("SOEPYSIM_CACHE") or "\0"
    return cache in p or "/dev/null" in p or "__pycache__" in p or "jax" in p.lower()


def host_state():
    import locale

    jax = env._state["jax"]
    s = np.random.get_state()
    cfg = {k: v for k, v in jax.config.values.items()} if hasattr(jax.config, "values") else {}
    fds = []
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{f}")
        except OSError:
            continue
        if t.startswith("/") and not ignorable(("", t)):
            fds.append(t)
    um = os.umask(0)
    os.umask(um)
    return {
        "numpy.random state": (s[0], s[1].tobytes(), s[2:]),
        "random state": random.getstate(),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "warning filters": [str(f) for f in warnings.filters],
        "numpy error settings": np.geterr(),
        "numpy print options": str(np.get_printoptions()),
        "jax configuration": {k: str(v) for k, v in cfg.items()},
        "pandas options": {k: pd.get_option(k) for k in ("mode.chained_assignment", "display.max_rows", "mode.copy_on_write")},
        "open files": sorted(fds),
        "recursion limit": sys.getrecursionlimit(),
        "sys.path": list(sys.path),
        "umask": um,
        "locale": locale.setlocale(locale.LC_ALL),
        "SIGINT handler": signal.getsignal(signal.SIGINT),
        "threads": sorted(t.name for t in threading.enumerate()),
        "streams": (sys.stdout, sys.stderr),
        "exception hook": sys.excepthook,
        "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)),
        "signal handlers": {str(k): str(signal.getsignal(k)) for k in signal.valid_signals()},
        "timers": tuple(signal.getitimer(t) for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)),
        "logging": log_state(),
        "decimal context": str(decimal.getcontext()),
        "switch interval": sys.getswitchinterval(),
        "hooks": tuple(map(id, (sys.gettrace(), sys.getprofile(), threading.excepthook, sys.unraisablehook, sys.displayhook, sys.breakpointhook))),
        "numpy error callback": id(np.geterrcall()),
        "pandas settings": pandas_settings(),
        "exit handlers": atexit._ncallbacks() if hasattr(atexit, "_ncallbacks") else 0,
        "resource limits": {k: resource.getrlimit(getattr(resource, k)) for k in LIMITS},
        "int digits limit": sys.get_int_max_str_digits(),
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "affinity": sorted(os.sched_getaffinity(0)),
        "socket timeout": socket.getdefaulttimeout(),
        "time zone": time.tzname,
        "import hooks": (len(sys.meta_path), len(sys.path_hooks), id(builtins.__import__)),
        "foreign attributes": foreign(),
    }


@contextlib.contextmanager
def peculiar(r):
    """A host with settings of its own, so that a value put back to the usual default is seen too."""
    jobs = []

    def setting(put, get, *values):
        if r.random() < 0.4:
            old = get()
            jobs.append(lambda: put(old))
            put(r.choice(values))

    root = logging.getLogger()
    log = logging.getLogger("host.program")
    setting(root.setLevel, lambda: root.level, logging.ERROR, logging.INFO, logging.CRITICAL)
    setting(log.setLevel, lambda: log.level, logging.ERROR, 7)
    setting(lambda v: setattr(log, "disabled", v), lambda: log.disabled, False)
    setting(logging.disable, lambda: logging.root.manager.disable, 5)
    setting(sys.setswitchinterval, sys.getswitchinterval, 0.004, 0.02)
    setting(sys.setrecursionlimit, sys.getrecursionlimit, 1500, 4321)
    setting(decimal.setcontext, decimal.getcontext, decimal.Context(prec=9), decimal.Context(prec=50, rounding=decimal.ROUND_UP))
    setting(np.seterrcall, np.geterrcall, len)
    setting(lambda v: np.set_printoptions(**v), np.get_printoptions, {"precision": 3}, {"suppress": True, "linewidth": 133})
    setting(lambda v: pd.set_option("display.max_rows", v), lambda: pd.get_option("display.max_rows"), 11, 7)
    setting(lambda v: pd.set_option("display.precision", v), lambda: pd.get_option("display.precision"), 3)
    setting(lambda v: gc.set_threshold(*v), gc.get_threshold, (900, 11, 9))
    setting(socket.setdefaulttimeout, socket.getdefaulttimeout, 77.0)
    setting(os.umask, lambda: (os.umask(0o022), os.umask(0o022))[0], 0o027)
    setting(lambda v: signal.signal(signal.SIGUSR2, v), lambda: signal.getsignal(signal.SIGUSR2), signal.SIG_IGN, lambda *a: None)
    setting(lambda v: os.environ.__setitem__("OMP_NUM_THREADS", v), lambda: os.environ.get("OMP_NUM_THREADS", "1"), "3")
    handler = logging.NullHandler()
    root.addHandler(handler)
    jobs.append(lambda: root.removeHandler(handler))
    try:
        yield
    finally:
        for j in reversed(jobs):
            j()


LIMITS = [k for k in dir(resource) if k.startswith("RLIMIT_")]
FOREIGN = ("numpy", "numpy.random", "numpy.linalg", "pandas", "pandas.core.frame", "pandas.core.series", "scipy", "scipy.stats", "builtins",
           "os", "sys", "random", "math", "json", "pathlib", "yaml", "jax", "jax.numpy", "jax.random", "functools", "warnings", "pickle", "time", "locale")
PLAIN = (types.FunctionType, types.BuiltinFunctionType, type, int, float, str, tuple, bool, bytes, type(None))


def foreign():
    """Attributes of other people's modules and classes, so that replaced ones are seen (new ones are lazy imports)."""
    out = {}
    for m in FOREIGN:
        mod = sys.modules.get(m)
        if mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if isinstance(v, PLAIN) and k not in ("last_type", "last_value", "last_traceback", "last_exc") and not k.startswith("__warning"):
                out[m + "." + k] = id(v)
    for c in (pd.DataFrame, pd.Series, pd.Index, np.random.RandomState, np.random.Generator):
        for k, v in list(vars(c).items()):
            out[c.__name__ + "." + k] = id(v)
    return out


def log_state():
    r = logging.getLogger()
    out = {"root": (r.level, r.disabled, tuple(map(str, r.handlers)), len(r.filters)), "disable": logging.root.manager.disable,
           "raise": logging.raiseExceptions, "class": id(logging.getLoggerClass()), "factory": id(logging.getLogRecordFactory())}
    for name, x in list(logging.root.manager.loggerDict.items()):
        if isinstance(x, logging.Logger) and not name.startswith("soepy"):
            out[name] = (x.level, x.disabled, x.propagate, tuple(map(str, x.handlers)), len(x.filters))
    return out


def pandas_settings():
    out = {}

    def walk(x, path):
        for k, v in x.items():
            if isinstance(v, dict):
                walk(v, path + k + ".")
            else:
                out[path + k] = str(v)

    walk(pd._config.config._global_config, "")
    return out


def tree(d):
    out = {}
    for root, ds, fs in os.walk(d):
        for f in fs + ds:
            p = os.path.join(root, f)
            st = os.stat(p)
            out[p] = (st.st_size, st.st_mtime_ns, st.st_mode, open(p, "rb").read() if os.path.isfile(p) else None)
    return out


def shape_of(x):
    """Cheap digest of an input object, for rehearsals."""
    if isinstance(x, pd.DataFrame):
        return (id(x._mgr), x.shape, hash(x["value"].to_numpy().tobytes()) if "value" in x else 0, tuple(x.columns), x.index[0] if len(x) else 0)
    if isinstance(x, dict):
        return repr(x)
    return 0


class C03(ProcCheck):
    id = "C03"
    STRIKES = 9
    quick, thorough = 130, 2400
    rule = ("a scenario is one to three calls (construction, simulation, call of a kept function, soepy.test() with pytest's entry point "
            "replaced), some struck by injected exceptions at nine lines in turn (first those at which a rehearsal saw state of the host, "
            "the package or the inputs differ) or by bad input, in a host whose global state is randomised first; all host "
            "state is compared before and after each; then inputs and results are edited and later results compared; non-trivial when "
            "at least one call ran")
    measure = "distinct (operation, input form, outcome, edit, crash function) sequences"
    stubs = "pytest.main inside soepy.test()"

    def gen(self, r, i):
        w = proc_world(r)
        if r.random() < 0.45:
            w = worlds.gen_world(r, r.choice(["tiny", "edge"]))
            w["T"] = min(w["T"], 4)
        kind = ["ok", "ok", "crash", "bad", "alias", "alias", "test", "ok", "crash", "alias"][i % 10]
        scn = {"check": "C03", "kind": kind, "worlds": [w], "form": r.choice(["file", "mem", "mem", "mixed", "mixed2"]), "hseed": r.randrange(2**31)}
        if kind == "crash":
            scn["exc"] = r.choice(sorted(sched.EXC))
            scn["u"] = r.random()
            scn["target"] = r.choice(["simulate", "build", "call"])
        if kind == "bad":
            scn["bad"] = r.choice(["params_type", "no_delta", "no_file", "bad_integration", "empty_params"])
        if kind == "alias":
            scn["edits"] = r.sample(["panel", "params", "spec", "files", "panel_values"], r.randint(1, 3))
            scn["variant"] = variant(w, r)
        if kind == "test":
            scn["pytest"] = r.choice(["ok", "fail", "KeyboardInterrupt", "SystemExit", "RuntimeError", "chdir"])
        return scn

    def guarded(self, fn, res, what, allow=()):
        """Run fn; compare the host before and after. Returns (status, value)."""
        watch()
        gc.collect()
        before = host_state()
        loaded = len(sys.modules)
        _audit["log"] = []
        _audit["on"] = True
        try:
            out = ("ok", fn())
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, Exception) and not isinstance(e, (MemoryError, OSError)):
                core_infra(e)
            out = ("raised", e)
        finally:
            _audit["on"] = False
        if out[0] == "raised":
            out[1].__traceback__ = None
        gc.collect()
        after = host_state()
        if len(sys.modules) != loaded:  # modules imported on first use bring their own
            for k in ("exit handlers", "import hooks"):
                before[k] = after[k]
        for k in before:
            x, y = before[k], after[k]
            if k in ("logging", "foreign attributes"):  # new ones come with modules imported on first use
                y = {q: v for q, v in y.items() if q in x}
            if x != y:
                if isinstance(x, dict):
                    d = {q: (x.get(q), y.get(q)) for q in set(x) | set(y) if x.get(q) != y.get(q)}
                    res.bad("host-state", f"{what} changed the host's {k}: {str(d)[:300]}")
                elif isinstance(x, list):
                    res.bad("host-state", f"{what} changed the host's {k}: {[q for q in y if q not in x][:3]} added, {[q for q in x if q not in y][:3]} gone")
                else:
                    res.bad("host-state", f"{what} changed the host's {k}" + ("" if "state" in k else f": {str(x)[:100]} -> {str(y)[:100]}"))
        for ev in _audit["log"]:
            if not ignorable(ev) and ev[0] not in allow:
                res.bad("file-system", f"{what} did {ev[0]} {ev[1]} {ev[2]}")
                break
        return out

    def go(self, scn, res):
        w = scn["worlds"][0]
        r = rnd("C03h", scn["hseed"])
        truth = Truth(res)
        np.random.seed(scn["hseed"] % 2**32)
        np.random.randn(r.randrange(9))
        random.seed(scn["hseed"])
        with core.Dir() as D:
            if r.random() < 0.5:
                os.chdir(D.path)
            warn = r.choice([None, "error::DeprecationWarning:nosuchmodule", "ignore"])
            with warnings.catch_warnings(), np.errstate(**({"under": "warn"} if r.random() < 0.3 else {})), peculiar(r):
                if warn == "ignore":
                    warnings.simplefilter("ignore")
                put = D.put(w)
                code = env.Code()
                getattr(self, "do_" + scn["kind"])(scn, res, w, put, code, truth, D)
        sig(res, scn["kind"], scn["form"], scn.get("exc"), scn.get("bad"), scn.get("edits"), scn.get("pytest"), res.note, scn.get("target"))

    def inputs(self, put, form):
        pp, sp = core.forms(put, form)
        return pp, sp, frozen(pp), frozen(sp)

    def unchanged(self, res, pp, sp, f1, f2, what):
        if frozen(pp) != f1:
            res.bad("input-edited", f"{what} changed the parameter table passed in")
        if frozen(sp) != f2:
            res.bad("input-edited", f"{what} changed the specification passed in: {diff_spec(f2, frozen(sp))}")

    def do_ok(self, scn, res, w, put, code, truth, D):
        pp, sp, f1, f2 = self.inputs(put, scn["form"])
        before = tree(D.path)
        st, df = self.guarded(lambda: code.simulate(pp, sp, biased_exp=w["biased"], data_sparse=w["sparse"]), res, "simulate()")
        if st != "ok":
            return legal_failure(res, df, "simulate()")
        res.sims += 1
        res.agent_years += len(df)
        self.unchanged(res, pp, sp, f1, f2, "simulate()")
        st, fn = self.guarded(lambda: code.get_simulate_func(pp, sp, biased_exp=w["biased"], data_sparse=w["sparse"]), res, "get_simulate_func()")
        if st != "ok":
            return legal_failure(res, fn, "get_simulate_func()")
        self.unchanged(res, pp, sp, f1, f2, "get_simulate_func()")
        st, df2 = self.guarded(lambda: fn(pp, sp), res, "the simulate function")
        if st != "ok":
            return legal_failure(res, df2, "the simulate function")
        res.sims += 1
        self.unchanged(res, pp, sp, f1, f2, "the simulate function")
        expect(res, "result", df2, df, "call after simulate()")
        if tree(D.path) != before:
            res.bad("file-system", "input files were changed")
        res.hit("guarded_calls", 3)

    def do_bad(self, scn, res, w, put, code, truth, D):
        C = CHECKS["C01"]
        st, e = self.guarded(lambda: C.failing(code, put, [], scn["bad"]), res, f"failing call ({scn['bad']})")
        res.fault("failing_call", st == "raised")
        res.hit("guarded_calls")

    def do_crash(self, scn, res, w, put, code, truth, D):
        pp, sp, f1, f2 = self.inputs(put, scn["form"])
        fn, what = target(code, scn["target"], w, pp, sp)
        r = rnd("C03k", scn["u"])
        points = scn.get("given")
        if points is None:
            fn()
            pkg = probe.Package(fn)
            events, marks = probe.rehearse(fn, lambda: (pkg(), probe.host(), shape_of(pp), shape_of(sp)))
            points = probe.distinct(r, events, marks)[: self.STRIKES - 3]
            points += [pick_event(r, events) for _ in range(self.STRIKES - len(points))]
            res.hit("state_changes_seen", bool(marks))
        for k in points:
            exc = scn["exc"] if scn.get("given") else r.choice(sorted(sched.EXC))
            crash = sched.Crash(k, exc)

            def hit():
                with crash:
                    return fn()

            st, e = self.guarded(hit, res, f"{what} struck by {exc} at event {k}")
            res.note = None
            if crash.at:
                res.fault("crash_" + exc)
            self.unchanged(res, pp, sp, f1, f2, f"{what} struck by {exc} at {crash.at}")
            for v in res.viol:
                v["msg"] += f" [at {crash.at}]"
            res.hit("guarded_calls")
            sig(res, "crash", exc, crash.at)
            if res.viol:
                res.pin = {**scn, "exc": exc, "given": [k]}
                return

    def do_alias(self, scn, res, w, put, code, truth, D):
        pp, sp = put.frame(), copy.deepcopy(put.spec)
        if scn["form"] == "file":
            sp = put.sp
        fn = code.get_simulate_func(pp, sp, biased_exp=w["biased"], data_sparse=w["sparse"])
        v = {**w, **{k: scn["variant"][k] for k in VARIED if k in scn["variant"]}}
        put_v = D.put(v)
        res.sims += 1
        if "panel" in scn["edits"] or "panel_values" in scn["edits"]:
            df = fn(put.frame(), copy.deepcopy(put.spec))
            if "panel_values" in scn["edits"]:
                for c in df.columns:
                    a = df[c].to_numpy()
                    try:
                        a.flags.writeable = True
                    except ValueError:
                        continue
                    a[...] = -7
            else:
                df.loc[:, :] = -7
                df["more"] = 1
            res.fault("edited_panel")
        if "params" in scn["edits"]:
            a = pp["value"].to_numpy()
            try:
                a.flags.writeable = True
                a[...] = 0.123
            except ValueError:
                pass
            pp.loc[:, "value"] = 0.321
            res.fault("edited_params")
        if "spec" in scn["edits"] and isinstance(sp, dict):
            scramble(sp)
            res.fault("edited_spec")
        if "files" in scn["edits"]:
            rewrite(put, {**w, "seed": w["seed"] + 1})
            res.fault("edited_files")
        try:
            got = fn(put_v.frame(), copy.deepcopy(put_v.spec))
        except Exception as e:  # noqa: BLE001
            return legal_failure(res, e, f"after editing {scn['edits']}")
        res.sims += 1
        res.agent_years += len(got)
        expect(res, "aliasing", got, truth(v), f"after editing {scn['edits']}")
        if "panel" in scn["edits"] or "panel_values" in scn["edits"]:
            again = code.simulate(put_v.pp, put_v.sp, biased_exp=w["biased"], data_sparse=w["sparse"])
            res.sims += 1
            expect(res, "aliasing", again, truth(v), f"simulate() after editing {scn['edits']}")
        res.hit("guarded_calls")

    def do_test(self, scn, res, w, put, code, truth, D):
        import pytest

        real = pytest.main
        seen = []

        def main(*a, **k):
            seen.append(os.getcwd())
            x = scn["pytest"]
            if x == "chdir":
                os.chdir(D.path)
                return 1
            if x in ("ok", "fail"):
                return x == "fail"
            raise {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "RuntimeError": RuntimeError}[x]("injected")

        pytest.main = main
        try:
            self.guarded(lambda: code.root.test(), res, f"soepy.test() whose run ended with {scn['pytest']}", allow=("os.chdir",))
        finally:
            pytest.main = real
        res.fault("test_run_" + scn["pytest"])
        res.hit("guarded_calls")

    def shrink(self, scn):
        if len(scn.get("edits") or []) > 1:
            for e in scn["edits"]:
                yield {**scn, "edits": [e]}
        if scn["form"] != "mem":
            yield {**scn, "form": "mem"}


def target(code, kind, w, pp, sp):
    if kind == "build":
        return (lambda: code.get_simulate_func(pp, sp, biased_exp=w["biased"], data_sparse=w["sparse"])), "get_simulate_func()"
    if kind == "call":
        f = code.get_simulate_func(pp, sp, biased_exp=w["biased"], data_sparse=w["sparse"])
        return (lambda: f(pp, sp)), "the simulate function"
    return (lambda: code.simulate(pp, sp, biased_exp=w["biased"], data_sparse=w["sparse"])), "simulate()"


def frozen(x):
    if isinstance(x, pd.DataFrame):
        return ("df", x.to_json(double_precision=15), str(x.dtypes.to_dict()), str(x.index.names), x.index.tolist().__repr__(), x.to_numpy().tobytes(), str(x.attrs))
    if isinstance(x, dict):
        return ("dict", repr(x))
    return ("other", repr(x))


def diff_spec(a, b):
    a, b = a[1], b[1]
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), 0)
    return f"...{a[max(0, i - 60): i + 40]} -> {b[max(0, i - 60): i + 40]}"


def scramble(x):
    """Edit a nested specification in place, every leaf."""
    items = x.items() if isinstance(x, dict) else enumerate(x)
    for k, v in list(items):
        if isinstance(v, (dict, list)):
            scramble(v)
        elif isinstance(v, bool):
            x[k] = not v
        elif isinstance(v, (int, float)):
            x[k] = v * 2 + 1
        elif isinstance(v, str):
            x[k] = v + "-gone"


# ------------------------------------------------------------------------- C04


class C04(ProcCheck):
    id = "C04"
    quick, thorough = 64, 1400
    level = "fault_enumeration"
    rule = ("a scenario interrupts simulate(), get_simulate_func() or a call of a kept function at two or three source lines chosen over all "
            "executed lines by function and position, with one of four exceptions each, then makes two to four further calls which must be "
            "bit-identical to those of pristine code; or strikes calls for two sets of parameters in turn at eight lines, first those at "
            "which a rehearsal saw state of the package change, repeating each interrupted call at once; non-trivial when an exception was delivered; distinct by exception and line struck")
    measure = "distinct (exception, function, line, operation) crash points struck"
    stubs = "the exception source"

    def gen(self, r, i):
        a = proc_world(r)
        b = proc_world(r) if r.random() < 0.4 else {**copy.deepcopy(a), "seed": r.randrange(2**31)}
        kind = ["simulate", "retry_call", "call", "build", "retry_call", "retry_simulate"][i % 6]
        if kind.startswith("retry"):
            v = {**a, "pseed": r.randrange(2**31)} if r.random() < 0.5 else variant(a, r)
            return {"check": "C04", "kind": kind, "worlds": [a, b], "form": r.choice(["file", "mem"]), "variant": v, "rseed": r.randrange(10**9)}
        return {"check": "C04", "kind": kind, "worlds": [a, b], "form": r.choice(["file", "mem"]),
                "crashes": [[r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "OSError", "RuntimeError"]), r.randrange(10**9)]
                            for _ in range(r.choice([2, 3, 3]))],
                "variant": variant(a, r), "after": r.sample(["call", "call_variant", "simulate", "other", "rebuild"], r.choice([2, 3]))}

    STRIKES = 8

    def retry(self, scn, res):
        """Calls for two sets of inputs alternate; each is struck once and then repeated."""
        a, b = scn["worlds"]
        truth, r = Truth(res), rnd("C04r", scn["rseed"])
        call = scn["kind"] == "retry_call"
        v = {**a, **{k: scn["variant"][k] for k in VARIED if k in scn["variant"]}} if call else b
        with core.Dir() as D:
            puts = [D.put(a), D.put(v)]
            inputs = [core.forms(p, scn["form"]) for p in puts]
            ws = [a, v]
            wants = [truth(w) for w in ws]
            code = env.Code()
            kept = None
            try:
                if call:
                    kept = code.get_simulate_func(puts[0].pp, puts[0].sp, biased_exp=a["biased"], data_sparse=a["sparse"])
                fns = [(lambda j=j: kept(*inputs[j])) if call else
                       (lambda j=j: code.simulate(*inputs[j], biased_exp=ws[j]["biased"], data_sparse=ws[j]["sparse"])) for j in (0, 1)]
                fns[0]()
                strikes = scn.get("given")
                if strikes is None:
                    pkg = probe.Package(kept)
                    events, marks = probe.rehearse(fns[1], pkg)
                    res.hit("state_changes_seen", bool(marks))
                    ks = probe.distinct(r, events, marks)[: self.STRIKES - 3]
                    ks += [pick_event(r, events) for _ in range(self.STRIKES - len(ks))]
                    r.shuffle(ks)
                    strikes = [[r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "OSError", "RuntimeError"]), k, j % 2]
                               for j, k in enumerate(ks)]
                else:
                    fns[1]()
            except Exception as e:  # noqa: BLE001
                return legal_failure(res, e, "undisturbed")
            res.sims += 2
            for n, (exc, k, j) in enumerate(strikes):
                res.pin = {**scn, "given": strikes[: n + 1]}
                crash = sched.Crash(k, exc)
                try:
                    with crash:
                        fns[j]()
                    out = None
                except BaseException as e:  # noqa: BLE001
                    out = type(e).__name__
                if crash.at is None:
                    continue
                res.fault("crash_" + exc)
                sig(res, scn["kind"], exc, crash.at)
                if out is None or (exc == "KeyboardInterrupt" and out != exc):
                    return res.bad("swallowed", f"{exc} raised at {crash.at} reached the caller of {scn['kind'][6:]} as {out or 'a result'}")
                try:
                    got = fns[j]()
                except (Exception, sched.Deadlock) as e:  # noqa: BLE001
                    if isinstance(e, Exception):
                        core_infra(e)
                    return res.bad("after-crash", f"repeating the {scn['kind'][6:]} raised {type(e).__name__}: {str(e)[:200]} after {exc} at {crash.at}")
                res.sims += 1
                res.agent_years += len(got)
                res.hit("panels_compared")
                if not expect(res, "after-crash", got, wants[j], f"repeating the {scn['kind'][6:]} after {exc} at {crash.at}"):
                    return
            res.pin = None

    def go(self, scn, res):
        if scn["kind"].startswith("retry"):
            return self.retry(scn, res)
        a, b = scn["worlds"]
        truth = Truth(res)
        v = {**a, **{k: scn["variant"][k] for k in VARIED if k in scn["variant"]}}
        with core.Dir() as D:
            put_a, put_b, put_v = D.put(a), D.put(b), D.put(v)
            pp, sp = core.forms(put_a, scn["form"])
            code = env.Code()
            try:
                fn0, _ = target(env.Code(), scn["kind"], a, pp, sp)
                _, events = sched.profile(fn0)
                code = env.Code()
                kept = code.get_simulate_func(put_a.pp, put_a.sp, biased_exp=a["biased"], data_sparse=a["sparse"])
            except Exception as e:  # noqa: BLE001
                return legal_failure(res, e, "undisturbed")
            res.sims += 1
            struck, exact = [], []
            for kind, u in scn["crashes"]:
                k = u if isinstance(u, int) and scn.get("exact") else pick_event(rnd("C04k", u), events)
                if scn["kind"] == "call":
                    p2, s2 = core.forms(put_v, scn["form"])
                    fn = lambda: kept(p2, s2)
                else:
                    fn, _ = target(code, scn["kind"], a, pp, sp)
                crash = sched.Crash(k, kind)
                try:
                    with crash:
                        val = fn()
                    out = ("ok", val)
                except BaseException as e:  # noqa: BLE001
                    out = ("raised", e)
                if crash.at is None:
                    continue
                res.fault("crash_" + kind)
                struck.append(f"{kind} at {crash.at}")
                exact.append([kind, k])
                res.pin = {**scn, "exact": True, "crashes": list(exact)}
                sig(res, scn["kind"], kind, crash.at)
                if out[0] == "ok":
                    res.bad("swallowed", f"{kind} raised at {crash.at} did not reach the caller of {scn['kind']}")
                    return
                if kind == "KeyboardInterrupt" and not isinstance(out[1], KeyboardInterrupt):
                    res.bad("swallowed", f"{kind} raised at {crash.at} reached the caller as {type(out[1]).__name__}")
                    return
                out = None
            if not struck:
                return
            what = "; ".join(struck)
            for op in scn["after"]:
                try:
                    if op == "call":
                        got, want = kept(put_a.pp, put_a.sp), a
                    elif op == "call_variant":
                        got, want = kept(put_v.frame(), put_v.sp), v
                    elif op == "simulate":
                        got, want = core.run(code, put_a, a, res), a
                    elif op == "other":
                        got, want = core.run(code, put_b, b, res), b
                    else:
                        f = code.get_simulate_func(pp, sp, biased_exp=a["biased"], data_sparse=a["sparse"])
                        got, want = f(put_v.pp, put_v.sp), v
                except (Exception, sched.Deadlock) as e:  # noqa: BLE001
                    if isinstance(e, Exception):
                        core_infra(e)
                    res.bad("after-crash", f"{op} raised {type(e).__name__}: {str(e)[:200]} after {what} in {scn['kind']}")
                    return
                res.sims += 1
                res.agent_years += len(got)
                res.hit("panels_compared")
                if not expect(res, "after-crash", got, truth(want), f"{op} after {what} in {scn['kind']}"):
                    return

    def shrink(self, scn):
        for key in ("crashes", "after", "given"):
            if len(scn.get(key) or []) > 1:
                for k in range(len(scn[key])):
                    yield {**scn, key: scn[key][:k] + scn[key][k + 1:]}
        if scn["form"] != "file":
            yield {**scn, "form": "file"}


# ------------------------------------------------------------------------- C05

TABLES = ["educ", "child_age", "partner", "ft", "pt", "child", "arr", "sep"]
FILES = [t + ".pkl" for t in TABLES] + ["params.pkl", "spec.yml"]
SEAM = ["enoent", "eacces", "eio_open", "emfile", "eio_read", "short", "torn", "transient", "transient_read"]


class C05(ProcCheck):
    id = "C05"
    quick, thorough = 90, 1800
    rule = ("a scenario applies two to four faults in a row to input files (missing, unreadable, I/O error at open or after some bytes, "
            "short reads, torn contents, out of descriptors, lasting or hitting the first open only; on the real disk also deletion, "
            "truncation, a directory in its place, replacement with equal size and time, replacement by another process at some line of the running call) before simulate(), construction or a call of a "
            "kept function, each followed by fault-free calls; non-trivial when a fault actually struck a read")
    measure = "distinct (operation, file, fault, byte position) strikes"
    stubs = "open() for the scenario's input files in seam faults; real files otherwise"
    level = "exploration"

    def gen(self, r, i):
        w = proc_world(r)
        steps = []
        for _ in range(r.choice([2, 3, 4])):
            op = r.choice(["simulate", "simulate", "call", "build"])
            f = r.choice(FILES)
            if op == "call" and r.random() < 0.6:
                f = r.choice(["params.pkl", "spec.yml"])
            kind = r.choice(SEAM + ["writer", "writer", "writer", "delete", "truncate", "directory", "replace", "replace", "swap", "empty"])
            steps.append({"op": op, "file": f, "kind": kind, "u": round(r.random(), 6), "w": r.randrange(2**31)})
        return {"check": "C05", "kind": "faults", "worlds": [w], "steps": steps}

    def go(self, scn, res):
        w = copy.deepcopy(scn["worlds"][0])
        truth = Truth(res)
        with core.Dir() as D:
            put = D.put(w)
            code = env.Code()
            try:
                kept = code.get_simulate_func(put.pp, put.sp, biased_exp=w["biased"], data_sparse=w["sparse"])
            except Exception as e:  # noqa: BLE001
                return legal_failure(res, e, "undisturbed")
            kept_w = copy.deepcopy(w)
            for st in scn["steps"]:
                out = self.step(st, w, put, kept, kept_w, code, truth, res)
                if out is None or res.viol:
                    return
                w, put = out
        return

    def ops(self, code, put, w, kept, kept_w):
        sim = lambda: code.simulate(put.pp, put.sp, biased_exp=w["biased"], data_sparse=w["sparse"])
        build = lambda: code.get_simulate_func(put.pp, put.sp, biased_exp=w["biased"], data_sparse=w["sparse"])(put.pp, put.sp)
        # exogenous processes stay as built; parameters and simulation settings are read again
        call_w = {**kept_w, "pseed": w.get("pseed", w["seed"]), "seed_sim": w["seed_sim"], "n": w["n"]}
        return {"simulate": (sim, w), "build": (build, w), "call": (lambda: kept(put.pp, put.sp), call_w)}

    def step(self, st, w, put, kept, kept_w, code, truth, res):
        path = os.path.join(put.dir, st["file"])
        size = os.path.getsize(path)
        kind, u = st["kind"], st["u"]
        fn, want = self.ops(code, put, w, kept, kept_w)[st["op"]]
        what = f"{st['op']} with {kind} on {st['file']}"
        if kind == "writer":
            if not self.writer(st, w, put, fn, want, code, truth, res):
                return None
            what = f"another process's write of {st['file']}"
        elif kind in ("replace", "swap"):
            if kind == "swap":  # another inode
                for f in FILES:
                    p = os.path.join(put.dir, f)
                    os.rename(p, p + ".old")
                    with open(p + ".old", "rb") as x, open(p, "wb") as y:
                        y.write(x.read())
                    os.utime(p, ns=(os.stat(p + ".old").st_atime_ns, os.stat(p + ".old").st_mtime_ns))
                    os.unlink(p + ".old")
            w = {**w, "tseed": st["w"], "pseed": st["w"] // 2, "seed_sim": w["seed_sim"] + (st["w"] % 7)}
            put = rewrite(put, w)
            res.fault(kind)
            fn, want = self.ops(code, put, w, kept, kept_w)[st["op"]]
            sig(res, st["op"], kind)
            return (w, put) if self.exact(fn, want, truth, res, what) else None
        elif kind in ("delete", "truncate", "directory", "empty"):
            with open(path, "rb") as fh:
                data = fh.read()
            stt = os.stat(path)
            os.unlink(path)
            cut = 0
            if kind == "directory":
                os.mkdir(path)
            elif kind in ("truncate", "empty"):
                cut = 0 if kind == "empty" else int(u * size)
                with open(path, "wb") as fh:
                    fh.write(data[:cut])
                os.utime(path, ns=(stt.st_atime_ns, stt.st_mtime_ns))
            needed = st["op"] != "call" or st["file"] in ("params.pkl", "spec.yml")
            yml = st["file"] == "spec.yml" and kind in ("truncate", "empty")
            ok = self.faulty(fn, want, truth, res, what + (f" at byte {cut} of {size}" if cut else ""), must_raise=needed and not yml,
                             must_be_exact=not needed, yml=(data[:cut], put, w, code, st["op"], kept) if yml else None)
            res.fault(kind, needed)
            if needed:
                sig(res, st["op"], st["file"], kind, cut)
            if os.path.isdir(path):
                os.rmdir(path)
            with open(path, "wb") as fh:
                fh.write(data)
            os.utime(path, ns=(stt.st_atime_ns, stt.st_mtime_ns))
            if not ok:
                return None
        else:
            arg = int(u * size)
            fault = {"file": st["file"], "kind": kind, "arg": arg, "count": -1}
            if kind == "short":
                fault["arg"] = 1 + int(u * 40)
            if kind.startswith("transient"):
                fault.update(kind="eio_open" if kind == "transient" else "eio_read", count=1)
            d = disk.Disk(put.dir, [fault])
            torn_yaml = kind == "torn" and st["file"] == "spec.yml"
            with open(path, "rb") as fh:
                data = fh.read()
            with d:
                ok = self.faulty(fn, want, truth, res, what + f" (byte {arg} of {size})", d=d,
                                 must_raise=kind in ("enoent", "eacces", "eio_open", "emfile", "eio_read") or (kind == "torn" and not torn_yaml),
                                 must_be_exact=kind == "short", yml=(data[:arg], put, w, code, st["op"], kept) if torn_yaml else None)
            res.faults_from(d.fired)
            if d.fired:
                sig(res, st["op"], st["file"], kind, arg)
            if not ok:
                return None
        # afterwards everything is as if nothing had happened
        for op in ("call", st["op"]):
            fn, want = self.ops(code, put, w, kept, kept_w)[op]
            if not self.exact(fn, want, truth, res, f"{op} after {what}", "after-fault"):
                return None
        return w, put

    def writer(self, st, w, put, fn, want, code, truth, res):
        """Another process replaces one file by another valid one, at once, at some line of the running call."""
        name, path = st["file"], os.path.join(put.dir, st["file"])
        r = rnd("C05w", st["w"])
        watch = disk.Disk(put.dir)
        try:
            with watch:
                fn()
        except Exception as e:  # noqa: BLE001
            legal_failure(res, e, f"{st['op']} undisturbed")
            return False
        often = sorted(f for f, m in watch.opened.items() if m > 1 and f in FILES)
        rare = [f for f in often if f not in ("params.pkl", "spec.yml")]
        if rare or (often and r.random() < 0.5):  # files that are read in more than one go
            name = r.choice(rare or often)
            path = os.path.join(put.dir, name)
        scan = watch.opened.get(name, 0) if watch.opened.get(name, 0) > 1 else 0
        new = {**w, "tseed": st["w"], "pseed": st["w"] // 2, "seed_sim": w["seed_sim"] + 1 + st["w"] % 5}
        with open(path, "rb") as fh:
            old = fh.read()
        with core.Dir() as E:
            other = E.put({**new, "rows": w["rows"]})
            if name == "spec.yml":
                spec = copy.deepcopy(put.spec)
                spec["SIMULATION"]["seed_sim"] = new["seed_sim"]
                with open(other.sp, "w") as fh:
                    worlds.yaml.dump(spec, fh)
            with open(os.path.join(other.dir, name), "rb") as fh:
                data = fh.read()
            sched.watch_only(code.codes)
            try:
                got, events = sched.profile(fn)
            except Exception as e:  # noqa: BLE001
                legal_failure(res, e, f"{st['op']} undisturbed")
                return False
            if not expect(res, "contents", got, truth(want), f"{st['op']} undisturbed"):
                return False
            between = None
            if scan and r.random() < 0.75:
                between = 1 + r.randrange(scan - 1)
            cut = [e for e in events if "solve" not in e[0]]  # (mostly while files are read)
            k = pick_event(r, events[: max(1, events.index(cut[-1]))] if cut and r.random() < 0.5 else events)
            # what the new contents mean
            if st["op"] == "call" and name not in ("params.pkl", "spec.yml"):
                after = want
            elif name == "params.pkl":
                after = {**want, "pseed": new["pseed"]}
            elif name == "spec.yml":
                after = {**want, "seed_sim": new["seed_sim"]}
            else:
                after = None
            if after is None:
                put_bytes(path, data)
                keep = (np.random.get_state(), random.getstate())
                b = core.digest(core.run(env.Code(), put, w, res))
                np.random.set_state(keep[0])
                random.setstate(keep[1])
                put_bytes(path, old)
            else:
                b = core.digest(truth(after))
            before = core.digest(truth(want))
            sched.watch_only(code.codes)
            hit = []

            def line(co, no, at=[0]):
                if at[0] == k:
                    put_bytes(path, data)
                    hit.append(f"{co.co_qualname}:{no}")
                at[0] += 1

            try:
                if between:  # right before the file is opened again
                    d = disk.Disk(put.dir)
                    real = d._open

                    def opened(file, *a, **kw):
                        if os.path.basename(str(file)) == name and d.opened.get(name, 0) == between and not hit:
                            put_bytes(path, data)
                            hit.append(f"open number {between + 1}")
                        return real(file, *a, **kw)

                    d._open = opened
                    with d:
                        got = fn()
                else:
                    with sched.LineEvents(line):
                        got = fn()
            except Exception as e:  # noqa: BLE001
                legal_failure(res, e, f"{st['op']} while {name} is replaced by another valid file at {hit}")
                return False
            finally:
                put_bytes(path, old)
            res.sims += 3
            if hit:
                res.fault("replaced_while_running")
                sig(res, st["op"], name, hit[0])
            res.hit("panels_compared")
            if core.digest(got) not in (before, b):
                res.bad("mixture", f"{st['op']} while {name} is replaced at {hit} returns neither the panel of the old contents nor that of the new: {core.differ(got, truth(want))}")
                return False
        return True

    def exact(self, fn, want, truth, res, what, oracle="contents"):
        try:
            got = fn()
        except Exception as e:  # noqa: BLE001
            legal_failure(res, e, what)
            return False
        res.sims += 1
        res.agent_years += len(got)
        res.hit("panels_compared")
        return expect(res, oracle, got, truth(want), what)

    def faulty(self, fn, want, truth, res, what, d=None, must_raise=False, must_be_exact=False, yml=None):
        wanted = truth(want) if d is None else None
        if d is not None:
            with_out = d
            d.__exit__()
            wanted = truth(want)
            d.__enter__()
        fds0 = open_fds()
        try:
            got, err = fn(), None
            res.sims += 1
        except Exception as e:  # noqa: BLE001
            if "injected" not in str(e) and not isinstance(e, OSError):
                core_infra(e)
            got, err = None, f"{type(e).__name__}: {str(e)[:150]}"
            e.__traceback__ = None
        gc.collect()
        fired = d is None or bool(d.fired)
        left = open_fds() - fds0
        if left or (d is not None and d.leaked()):
            res.bad("leaked-file", f"{what}: left open {sorted(left)[:2] or 'a file'}")
            return False
        if not fired:  # the file was not read, so the fault changed nothing
            if err:
                res.bad("raises", f"{what}, although no fault struck: {err}")
                return False
            return expect(res, "contents", got, wanted, what)
        if yml is not None:
            return self.yaml_cut(yml, got, err, res, what, d)
        if err is None:
            res.hit("panels_under_fault")
            if must_raise:
                res.bad("fault-hidden", f"{what}: a panel was returned although the file could not be read")
                return False
            return expect(res, "contents", got, wanted, what)
        res.hit("errors_under_fault")
        if must_be_exact:
            res.bad("raises", f"{what}: {err}")
            return False
        return True

    def yaml_cut(self, yml, got, err, res, what, d):
        """A cut specification must mean what the cut text means, or raise."""
        import yaml

        text, put, w, code, op, kept = yml
        if d is not None:
            d.__exit__()
        try:
            try:
                spec = yaml.safe_load(text.decode("utf-8", "strict"))
            except Exception:  # noqa: BLE001
                spec = None
            want = None
            if isinstance(spec, dict):
                try:
                    c2 = env.Code()
                    if op == "call":
                        want = kept(put.pp, spec)
                    else:
                        want = c2.simulate(put.pp, spec, biased_exp=w["biased"], data_sparse=w["sparse"])
                except Exception:  # noqa: BLE001
                    want = None
        finally:
            if d is not None:
                d.__enter__()
        if want is None:
            if err is None:
                res.bad("fault-hidden", f"{what}: a panel was returned for a specification that is cut short")
                return False
            res.hit("errors_under_fault")
            return True
        if err is not None:
            res.hit("errors_under_fault")  # the cut text parses, but an error is always allowed
            return True
        return expect(res, "contents", got, want, what + " against the same contents in memory")

    def shrink(self, scn):
        s = scn["steps"]
        if len(s) > 1:
            for k in range(len(s)):
                yield {**scn, "steps": s[:k] + s[k + 1:]}
        for k, x in enumerate(s):
            if x["op"] != "simulate":
                yield {**scn, "steps": s[:k] + [{**x, "op": "simulate"}] + s[k + 1:]}


def put_bytes(path, data):
    """Replace a file at once, with the times of the old one."""
    st = os.stat(path)
    with open(path + ".new", "wb") as fh:
        fh.write(data)
    os.utime(path + ".new", ns=(st.st_atime_ns, st.st_mtime_ns))
    os.replace(path + ".new", path)


def open_fds():
    out = set()
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{f}")
        except OSError:
            continue
        if t.startswith("/") and t.endswith((".pkl", ".yml")):
            out.add(t)
    return out


CHECKS = {c.id: c() for c in (C01, C02, C03, C04, C05)}
