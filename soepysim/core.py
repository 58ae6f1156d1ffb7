"""Running worlds, and digesting what came back."""
import copy
import hashlib
import os
import random
import shutil
import tempfile

import numpy as np
import pandas as pd

from . import env, rng, worlds

STATE = ["Education_Level", "Lagged_Choice", "Type", "Age_Youngest_Child", "Partner_Indicator"]
ABC = ["N", "P", "F"]


class Violation(Exception):
    def __init__(self, oracle, msg):
        super().__init__(f"{oracle}: {msg}")
        self.oracle, self.msg = oracle, msg


class Res:
    """What one scenario produced."""

    def __init__(self):
        self.viol, self.known, self.faults, self.reach = [], [], {}, {}
        self.sims = 0
        self.agent_years = 0
        self.sigs = set()
        self.note = None
        self.trail = hashlib.md5()
        self.pin = None  # the scenario with what it drew while running made explicit

    def bad(self, oracle, msg):
        self.viol.append({"oracle": oracle, "msg": str(msg)[:600]})

    def hit(self, k, m=1):
        if m:
            self.reach[k] = self.reach.get(k, 0) + int(m)

    def fault(self, k, m=1):
        if m:
            self.faults[k] = self.faults.get(k, 0) + int(m)

    def faults_from(self, d):
        for k, v in d.items():
            self.fault(k, v)

    def known_hit(self, kid, msg):
        if all(k["id"] != kid for k in self.known):
            self.known.append({"id": kid, "msg": msg})

    def as_dict(self):
        return dict(viol=self.viol, known=self.known, faults=self.faults, reach=self.reach, sims=self.sims,
                    agent_years=self.agent_years, sigs=sorted(self.sigs), note=self.note, trail=self.trail.hexdigest(), pin=self.pin if self.viol else None)


class Dir:
    """A scratch directory with one or more worlds written to it."""

    def __init__(self):
        self.path = tempfile.mkdtemp(dir=env.scratch())
        self.k = 0

    def put(self, w, name=None):
        built = worlds.build(w) if "seed" in w else w
        self.k += 1
        d = os.path.join(self.path, name or f"w{self.k}")
        pp, sp, spec = worlds.write(built, d)
        return Put(built, d, pp, sp, spec)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)
        return False


class Put:
    def __init__(self, built, d, pp, sp, spec):
        self.built, self.dir, self.pp, self.sp, self.spec = built, d, pp, sp, spec

    def frame(self):
        return worlds.params_frame(self.built["params"])


def run(code, put, w, res, seam=None, sparse=None, biased=None, form="file"):
    """One simulate() of a world; the panel with its index. Exceptions propagate."""
    pp, sp = forms(put, form)
    kw = dict(biased_exp=w["biased"] if biased is None else biased, data_sparse=w["sparse"] if sparse is None else sparse)
    if seam is None:
        df = code.simulate(pp, sp, **kw)
    else:
        with seam:
            df = code.simulate(pp, sp, **kw)
        res.faults_from(seam.fired)
    res.sims += 1
    res.agent_years += len(df)
    if "SOEPYSIM_TRAIL" in os.environ:
        res.trail.update(digest(df).encode())
    return df


def forms(put, form):
    if form == "file":
        return put.pp, put.sp
    if form == "mem":
        return put.frame(), copy.deepcopy(put.spec)
    if form == "mixed":
        return put.frame(), put.sp
    return put.pp, copy.deepcopy(put.spec)


def digest(df):
    h = hashlib.sha256()
    h.update(repr((list(df.columns), [str(t) for t in df.dtypes], list(df.index.names), len(df))).encode())
    for lev in range(df.index.nlevels):
        h.update(np.ascontiguousarray(df.index.get_level_values(lev).to_numpy().astype(np.int64)).tobytes())
    for i in range(df.shape[1]):
        a = df.iloc[:, i].to_numpy()
        if a.dtype == object:
            h.update(repr(a.tolist()).encode())
        else:
            if a.dtype.kind == "f":
                a = np.where(np.isnan(a), np.nan, a)
            h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()[:24]


def differ(a, b):
    """First difference of two panels, for messages."""
    if list(a.columns) != list(b.columns):
        return f"columns {list(a.columns)} vs {list(b.columns)}"
    if len(a) != len(b) or not a.index.equals(b.index):
        return f"rows differ ({len(a)} vs {len(b)})"
    for c in a.columns:
        x, y = a[c].to_numpy(), b[c].to_numpy()
        if str(x.dtype) != str(y.dtype):
            return f"dtype of {c}: {x.dtype} vs {y.dtype}"
        ne = ~((x == y) | (pd.isna(x) & pd.isna(y)))
        if ne.any():
            i = int(np.argmax(ne))
            return f"{c} at {a.index[i]}: {x[i]!r} vs {y[i]!r} ({int(ne.sum())} cells of the column)"
    return "identical values, different representation"


def flat(df):
    d = df.reset_index()
    return d


def hist_sigs(df, res, cap=400):
    """Distinct simulated histories (by states and choices) reached."""
    if len(df) == 0:
        return
    d = df.reset_index()
    cols = [c for c in ["Education_Level", "Type", "Age_Youngest_Child", "Partner_Indicator", "Choice"] if c in d]
    key = d[cols].astype(int).astype(str).agg("".join, axis=1)
    g = key.groupby(d["Identifier"]).agg("|".join)
    for i, s in enumerate(g.unique()):
        if i >= cap:
            break
        res.sigs.add(hashlib.md5(s.encode()).hexdigest()[:10])


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    with np.errstate(invalid="ignore"):
        return (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))) | (np.isnan(a) & np.isnan(b)) | (a == b)


def rnd(*parts):
    return random.Random("|".join(str(p) for p in parts))


def seam_for(spec, seed, w):
    """Seam from a scenario's 'nature' entry."""
    kind = (spec or {}).get("kind", "record")
    if kind == "record":
        return rng.Seam("record")
    return rng.Seam("adversary", seed=seed, policy=spec, spare=w["seed_emax"])
