"""Checks that relate two or more simulated executions (C11-C14, C16)."""
import copy

import numpy as np

from . import core, env, oracles, ref, rng, worlds
from .checks_history import core_infra, gen_nature, solve_once
from .core import Res, close, rnd

EXOG = ["Education_Level", "Type", "Age_Youngest_Child", "Partner_Indicator"]


class PairCheck:
    quick, thorough = 120, 2000
    profiles = ["small", "tiny", "small", "edge", "long"]
    rule = ("a scenario is one seeded world executed two to four times under related seeds, parameters, natures or options; "
            "non-trivial when the executions share at least one row the property compares; distinct by the histories reached")

    def scenarios(self, seed, tier):
        n = self.quick if tier == "quick" else self.thorough
        out = [self.gen(rnd(self.id, seed, i), i) for i in range(n)]
        for i in range(13, n, 24):  # now and then a large panel
            w = out[i]["world"]
            w["n"], w["types"] = [700, 3000, 1600][i // 24 % 3], min(w["types"], 3)
            if w["T"] > 4 and not any(k in out[i] for k in ("cut", "at", "longer")):
                w["T"] = 4
        return list(self.dedicated()) + out

    def dedicated(self):
        return []

    def run(self, scn):
        res = Res()
        try:
            with core.Dir() as D:
                self.go(scn, D, env.Code(), res)
        except Raised as e:
            res.bad("raises", str(e))
        return res

    def shrink(self, scn):
        for w in worlds.shrink_world(scn["world"]):
            yield {**scn, "world": w}
        if scn.get("nature", {}).get("kind") == "adversary":
            yield {**scn, "nature": {"kind": "record"}}
        for k in list(scn.get("change") or {}):
            if len(scn["change"]) > 1:
                yield {**scn, "change": {a: b for a, b in scn["change"].items() if a != k}}


class Raised(Exception):
    pass


def sim(code, D, w, res, nature=None, seam=None, sigs=True, **kw):
    put = D.put(w)
    if seam is None:
        seam = core.seam_for(nature, (nature or {}).get("seed", 0), w)
    try:
        df = core.run(code, put, w, res, seam, **kw)
    except Exception as e:
        core_infra(e)
        raise Raised(f"{type(e).__name__}: {e} for a valid model") from e
    if sigs:
        core.hist_sigs(df, res)
    return oracles.Panel(df, ref.Model(put.built), seam)


def same_columns(res, oracle, a, b, cols, rows=None, rtol=0.0, what=""):
    """Columns of two panels (DataFrames on one index) agree in the given rows."""
    if rows is not None:
        a, b = a[rows], b[rows]
    if len(a) != len(b) or not a.index.equals(b.index):
        only = sorted(set(a.index.tolist()) ^ set(b.index.tolist()))[:3]
        res.bad(oracle, f"{what}: rows differ ({len(a)} vs {len(b)}; e.g. {only})")
        return False
    for c in cols:
        if c not in a.columns or c not in b.columns:
            res.bad(oracle, f"{what}: column {c} missing")
            return False
        x, y = a[c].to_numpy().astype(float), b[c].to_numpy().astype(float)
        ok = close(x, y, rtol, rtol * (1e-3 if c == "Experience_Stock" else 0.0)) if rtol else (x == y) | (np.isnan(x) & np.isnan(y))
        if not ok.all():
            i = int(np.argmax(~ok))
            res.bad(oracle, f"{what}: {c} at {a.index[i]}: {x[i]!r} vs {y[i]!r} ({int((~ok).sum())} rows)")
            return False
    return True


# ------------------------------------------------------------------------- C11

DECISIONS = ["pseed", "policy", "male", "biased", "sparse", "grid", "integ", "draws", "seed_emax", "elasticity", "regime",
             "splitting", "delta", "sigma", "prefs", "inc", "mu"]


class C11(PairCheck):
    id = "C11"

    def gen(self, r, i):
        w = worlds.gen_world(r, self.profiles[i % 5])
        if i % 3 == 2:  # another simulation seed
            w["tables"] = {k: "interior" for k in w["tables"]}
            w["prefs"], w["sigma"], w["inc"] = "ft", 0.4, "normal"
            w["n"] = max(w["n"], 8)
            w["sparse"] = False
            return {"check": "C11", "kind": "seed", "world": w, "change": {"seed_sim": (w["seed_sim"] + r.choice([1, r.randint(2, 1000), 10**r.randint(1, 8), 2**r.randint(1, 31), 2**r.choice([8, 16, 20, 24, 31])])) % 2**32}}
        o = worlds.gen_world(r, "small")
        if r.random() < 0.5:
            keys = DECISIONS
        elif r.random() < 0.4:
            keys = ["seed_emax", "draws"]
            w["integ"] = "monte_carlo"
        else:
            keys = r.sample(DECISIONS, r.randint(1, 4))
        ch = {k: (r.randrange(1, 2**31) if k == "pseed" else o[k]) for k in keys}
        if keys == ["seed_emax", "draws"]:
            ch["draws"] = r.choice([1, 2, 4, 7])
        return {"check": "C11", "kind": "decisions", "world": w, "change": ch}

    def go(self, scn, D, code, res):
        w = scn["world"]
        w2 = {**copy.deepcopy(w), **scn["change"]}
        if scn["kind"] == "decisions":
            shares = {k: v for k, v in worlds.params_of(w).items() if k.startswith("share")}
            w2["params_over"] = {**w["params_over"], **shares}
        a = sim(code, D, w, res)
        b = sim(code, D, w2, res, sigs=False)
        if scn["kind"] == "seed":
            return self.other_seed(a, b, res, w, w2)
        cols = [c for c in EXOG + ["Experience_Part_Time", "Experience_Full_Time"] if c in a.d and c in b.d]
        ok = same_columns(res, "exogenous-draws", a.df, b.df, [c for c in cols if not c.startswith("Exp")], what=f"changed {sorted(scn['change'])}")
        if not ok:
            return
        fa, fb = a.df.iloc[a.first], b.df.iloc[b.first]
        same_columns(res, "initial-draws", fa, fb, cols, what=f"changed {sorted(scn['change'])}")
        za, zb = zshock(a), zshock(b)
        both = np.isfinite(za) & np.isfinite(zb)
        res.hit("shocks_compared", both.sum())
        res.hit("rows_compared", a.N)
        bad = both & ~(np.abs(za - zb) <= 1e-6 * np.maximum(1, np.abs(za)))
        if bad.any():
            k = int(np.argmax(bad))
            res.bad("common-shocks", f"changed {sorted(scn['change'])}: standardised shock {za[k]!r} vs {zb[k]!r} at {a.row(k)} ({int(bad.sum())} rows)")

    def other_seed(self, a, b, res, w, w2):
        if w["T"] >= 1 and a.N and b.N:
            za, zb = zshock(a), zshock(b)
            pool = set(np.round(za[np.isfinite(za)], 9))
            pb = np.round(zb[np.isfinite(zb)], 9)
            if len(pool) > 3 and len(pb) > 3:
                res.hit("seed_pairs")
                common = sum(x in pool for x in pb)
                if common:
                    res.bad("seed-ignored", f"{common} of {len(pb)} shocks are the same with simulation seeds {w['seed_sim']} and {w2['seed_sim']}")
            cols = EXOG + ["Experience_Part_Time", "Experience_Full_Time"]
            fa, fb = a.df.iloc[a.first], b.df.iloc[b.first]
            if w["n"] >= 20 and a.m.E > 1 and (np.asarray(a.m.educ_shares) > 0).sum() > 1 and len(fa) == len(fb):
                if (fa[cols].to_numpy() == fb[cols].to_numpy()).all():
                    res.bad("seed-ignored", "all initial conditions are the same with another simulation seed")
        equal_states(a, b, res, "solution-seed", "other simulation seed")


def zshock(p):
    if p.m.sigma == 0 or not p.N:
        return np.full(p.N, np.nan)
    z = oracles.shocks(p) / p.m.sigma
    return np.where(p.ch > 0, z, np.nan)


def equal_states(a, b, res, oracle, what, rtol=1e-9, cols=("Continuation_Value", "Non_Consumption_Utility")):
    """Rows of two panels in the same state (period, states, stock) agree in the given columns."""
    def states(p):
        return list(zip(p.t.tolist(), p.e.tolist(), p.lag.tolist(), p.ty.tolist(), p.age.tolist(), p.par.tolist(), np.round(p.stock, 12).tolist()))

    ix = {}
    for k, s in enumerate(states(a)):
        ix.setdefault(s, k)
    pairs = [(ix[s], k) for k, s in enumerate(states(b)) if s in ix]
    res.hit("equal_states", len(pairs))
    if not pairs:
        return
    i, j = np.array(pairs).T
    for c in cols:
        x, y = a.mat(c)[i], b.mat(c)[j]
        bad = ~close(x, y, rtol, 0.0).all(1)
        if bad.any():
            k = int(np.argmax(bad))
            res.bad(oracle, f"{what}: {c} {x[k].tolist()} vs {y[k].tolist()} in the same state, {a.row(i[k])} ({int(bad.sum())} states)")


# ------------------------------------------------------------------------- C12


class C12(PairCheck):
    id = "C12"

    def dedicated(self):
        b = {**worlds.base_world(), "types": 12, "n": 60, "T": 2, "educ_years": [0, 0], "child_age_max": 2}
        return [{"check": "C12", "kind": "type", "world": {**b, "rows": rows}, "target": t, "pseed": 17 * t, "nature": {"kind": "record"}}
                for t, rows in [(2, "plain"), (10, "shuffled")]]

    def gen(self, r, i):
        w = worlds.gen_world(r, self.profiles[i % 5], sparse=False)
        E = r.choice([2, 3, 3])
        if len(w["educ_years"]) < E:
            w["educ_years"] = sorted(r.randint(0, max(0, min(3, w["T"] - 1))) for _ in range(E))
        w["init"]["educ"] = r.choice(["interior", "interior", "holes"])
        w["n"] = max(w["n"], 6)
        E = len(w["educ_years"])
        kind = r.choice(["educ", "educ", "type", "tables"])
        if kind == "type":
            w["types"] = max(w["types"], 2)
            w["init"]["types"] = "interior"
            return {"check": "C12", "kind": kind, "world": w, "target": r.randrange(1, w["types"]), "pseed": r.randrange(2**31), "nature": gen_nature(r, w)}
        return {"check": "C12", "kind": kind, "world": w, "target": r.randrange(3), "pseed": r.randrange(2**31), "nature": gen_nature(r, w)}

    def go(self, scn, D, code, res):
        w, t = scn["world"], scn["target"]
        nature = scn["nature"] if scn["kind"] != "tables" else {"kind": "record"}
        a = sim(code, D, w, res, nature=nature)
        r = rnd("C12", scn["pseed"])
        w2 = copy.deepcopy(w)
        if scn["kind"] == "tables":
            cell = lambda: round(r.uniform(0.05, 0.95), 4)
            w2["table_over"] = {k: {f"{p},{t}": cell() for p in range(w["T"])} for k in ("child", "arr", "sep")}
            b = sim(code, D, w2, res, nature=nature, sigs=False)
            drop = lambda p: oracles.Panel(p.df[p.df["Education_Level"] != t], p.m, p.seam)
            a2, b2 = drop(a), drop(b)
            if a2.N and b2.N:
                equal_states(a2, b2, res, "foreign-transitions", f"changed transition probabilities of education {t}")
            return
        base = worlds.params_of(w)
        other = worlds.params_of({**w, "pseed": scn["pseed"]})
        if scn["kind"] == "type":
            keys = [f"theta_p{t}", f"theta_f{t}"]
            col, what = "Type", f"tastes of type {t}"
        else:
            e = worlds.EDUC[t]
            keys = [k for k in base if k.endswith(f"_{e}") and not k.startswith("share")]
            col, what = "Education_Level", f"parameters of education {t}"
        w2["params_over"] = {**w["params_over"], **{k: other[k] + 0.01 for k in keys}}
        b = sim(code, D, w2, res, nature=nature, sigs=False)
        keep = a.df[col].to_numpy().astype(int) != t
        kb = b.df[col].to_numpy().astype(int) != t
        res.hit("rows_compared", keep.sum())
        res.hit("rows_of_changed_group", (~keep).sum())
        same_columns(res, "foreign-parameters", a.df[keep], b.df[kb], list(a.df.columns), rtol=1e-10, what=f"changed {what}")


# ------------------------------------------------------------------------- C13


class Tape(rng.Seam):
    """Scripted events from one policy until the m-th draw of events, from another one after it."""

    def __init__(self, w, seed, rate, at=None, alt=None, normals=None):
        super().__init__("adversary", seed=seed, policy={"binomial": rate, "normal": normals}, spare=w["seed_emax"])
        self.at, self.alt, self.calls = at, alt, 0
        self.init_calls = len(w["educ_years"])
        self.zpol = np.random.Generator(np.random.PCG64(seed + 1))

    def binomial(self, real, n, p):
        k, self.calls = self.calls, self.calls + 1
        if k < self.init_calls:  # initial partners stay as drawn
            return real
        # every draw has its own generator: as many events, whatever happened before
        s = self.alt if self.at is not None and k - self.init_calls >= self.at else 0
        self.pol = np.random.Generator(np.random.PCG64([abs(hash_int(self.policy["binomial"])), k, s or 0]))
        return super().binomial(real, n, p)

    def normal(self, real, loc, scale, seed):
        return real


def hash_int(x):
    return int(round(100 * (sum(x) if isinstance(x, list) else x))) + 17


class C13(PairCheck):
    id = "C13"

    def gen(self, r, i):
        kind = ["shocks", "events", "horizon", "events"][i % 4]
        w = worlds.gen_world(r, self.profiles[i % 5], sparse=False)
        w["T"] = max(w["T"], 2)
        if kind == "shocks":
            w["sigma"] = r.choice([0.4, 1.0])
            w["prefs"] = r.choice(["mixed", "mixed", "extreme"])
            return {"check": "C13", "kind": kind, "world": w, "cut": r.randrange(w["T"]), "pseed": r.randrange(10**6)}
        if kind == "events":
            w["tables"] = {k: r.choice(["interior", "interior", "mixed"]) for k in w["tables"]}
            w["last_cb"] = w["T"]
            w["n"] = max(w["n"], 6)
            return {"check": "C13", "kind": kind, "world": w, "at": r.randrange(0, 3 * w["T"]), "pseed": r.randrange(1, 10**6),
                    "rate": r.choice([0.3, 0.5, 0.7])}
        w["T"] = min(w["T"], 12)
        w["delta"] = 0.0
        w["tables"] = {k: r.choice(["binary", "binary", "zero", "one"]) for k in w["tables"]}
        w["last_cb"] = r.choice([0, w["T"] - 1, w["T"] + 9])
        return {"check": "C13", "kind": kind, "world": w, "longer": r.choice([1, 2, 4])}

    def shrink(self, scn):
        for s in super().shrink(scn):
            if s["kind"] == "shocks" and s["cut"] >= s["world"]["T"]:
                continue
            if s["kind"] == "horizon" and s["world"]["delta"] != 0:
                continue
            yield s

    def go(self, scn, D, code, res):
        w = scn["world"]
        if scn["kind"] == "shocks":
            k = scn["cut"]
            a = sim(code, D, w, res)
            b = sim(code, D, w, res, seam=Future(w, scn["pseed"], k), sigs=False)
            if not res.faults.get("rewritten_future_shocks"):
                res.note = "the shocks are not drawn as one period-by-agent matrix; no future to rewrite"
                return
            cols = list(a.df.columns)
            before = a.t < k
            res.hit("rows_before", before.sum())
            same_columns(res, "anticipated-shock", a.df, b.df, cols, rows=before, what=f"other shocks from period {k} on")
            now = a.t == k
            pre = [c for c in cols if c not in ("Choice", "Wage_Observed") and not (c.startswith(("Flow", "Value")))] + ["Flow_Utility_N", "Value_Function_N"]
            same_columns(res, "anticipated-shock", a.df, b.df, pre, rows=now, what=f"states at period {k} under other shocks from then on")
            same_columns(res, "shock-moves-nature", a.df, b.df, EXOG, what=f"other shocks from period {k} on")
            return
        if scn["kind"] == "events":
            a = sim(code, D, w, res, seam=Tape(w, 1, scn["rate"]))
            b = sim(code, D, w, res, seam=Tape(w, 1, scn["rate"], scn["at"], scn["pseed"]), sigs=False)
            if not a.df.index.equals(b.df.index):
                res.bad("anticipated-event", "other births and partner changes move the panel's rows")
                return
            differ = (a.age != b.age) | (a.par != b.par)
            hit = np.zeros(a.N, bool)  # her own history has differed up to and including this row
            seen = {}
            order = np.lexsort((a.t, a.id))
            for k in order:
                i = int(a.id[k])
                seen[i] = seen.get(i, False) or bool(differ[k])
                hit[k] = seen[i]
            res.hit("diverged_rows", hit.sum())
            res.hit("shared_rows", (~hit).sum())
            same_columns(res, "anticipated-event", a.df, b.df, list(a.df.columns), rows=~hit,
                         what=f"other events from draw {scn['at']} on, rows of agents whose own history is the same so far")
            return
        T = w["T"]
        a = sim(code, D, w, res)
        b = sim(code, D, {**copy.deepcopy(w), "T": T + scn["longer"], "extra_periods": w["extra_periods"]}, res, sigs=False)
        cut = b.df[b.t < T]
        cols = [c for c in a.df.columns if not c.startswith("Continuation")]
        res.hit("rows_horizon", a.N)
        same_columns(res, "horizon", a.df, cut, cols, rtol=1e-10, what=f"horizon {T} vs {T + scn['longer']} with discount factor 0")


class Future(rng.Seam):
    def __init__(self, w, seed, cut):
        super().__init__("perturb", seed=seed, cut=cut, spare=w["seed_emax"])
        self.T, self.n = w["T"], w["n"]

    def normal(self, real, loc, scale, seed):
        if np.shape(real) != (self.T, self.n):
            return real
        return super().normal(real, loc, scale, seed)


# ------------------------------------------------------------------------- C21


class Script(rng.Seam):
    """Every draw is a function of its distribution and of its position in the call alone.

    One outcome can be changed: ("shocks", from, columns), ("event", at, pick) -- events after it have a constant
    outcome where both are possible, so that the position of an agent in later calls is of no consequence --
    or ("initial", at, pick).
    """

    def __init__(self, w, seed, rate, change=None, still=None, apply=True, alike=0):
        super().__init__("adversary", seed=seed, spare=w["seed_emax"])
        self.alike = alike  # 1: all agents have the same outcomes, 2: the same shocks as well
        self.T, self.seed, self.rate = w["T"], seed, rate
        self.change, self.still, self.apply = change, still, apply
        self.open_calls, self.choices, self.done, self.begun, self.strange = 0, 0, False, False, False

    def uniform(self, size, *key):
        g = np.random.Generator(np.random.PCG64([self.seed, *key]))
        return np.full(size, g.random()) if self.alike else g.random(size)

    def normal(self, real, loc, scale, seed):
        if seed == self.spare:
            return real
        if np.ndim(real) != 2 or np.shape(real)[0] != self.T:
            self.strange = True
            return real
        n = np.shape(real)[1]
        z = np.stack([np.random.Generator(np.random.PCG64([self.seed, 1, t])).standard_normal(n) for t in range(self.T)])
        if self.alike == 2:
            z = np.repeat(z[:, :1], n, axis=1)
        if self.change and self.change[0] == "shocks":
            _, k, cols = self.change
            for j in {c % n for c in cols}:
                if self.apply:
                    z[k:, j] = np.random.Generator(np.random.PCG64([self.seed, 4, j])).standard_normal(self.T)[k:] * 1.5
            self._fire("one_agents_shocks", len({c % n for c in cols}))
        return loc + scale * z

    def binomial(self, real, n, p):
        shape = np.shape(real)
        if len(shape) != 1 or np.any(np.asarray(n) != 1):
            self.strange = True
            return real
        q = np.broadcast_to(np.asarray(p, dtype=float), shape)
        out = np.where(q >= 1, 1, 0)
        inner = (q > 0) & (q < 1)
        if self.done:
            out[inner] = self.still
            return out.astype(np.asarray(real).dtype)
        for v in np.unique(q[inner]):
            s = q == v
            u = self.uniform(shape[0], 2, int(round(v * 1e9)))
            out[s] = u[s] < self.rate
        if self.change and self.change[0] == "event" and inner.any():
            self.open_calls += 1
            if self.open_calls > self.change[1]:
                j = np.where(inner)[0]
                j = j[self.change[2] % len(j)]
                if self.apply:
                    out[j] = 1 - out[j]
                self.done = True
                self._fire("one_agents_event")
        return out.astype(np.asarray(real).dtype)

    def choice(self, real, a, p, replace):
        shape = np.shape(real)
        if not replace or len(shape) != 1:
            self.strange = True
            return real
        vals = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        pr = np.full(len(vals), 1.0) if p is None else np.asarray(p, dtype=float)
        ok = vals[pr > 0]
        u = self.uniform(shape[0], 3, *[int(x) for x in np.round(pr * 1e6)], *[int(abs(x)) for x in vals[:1]])
        i = np.minimum((u * len(ok)).astype(int), len(ok) - 1)
        if self.change and self.change[0] == "initial" and len(ok) > 1 and shape[0]:
            self.choices += 1
            if self.choices > self.change[1] and not self.begun:
                self.begun = True
                j = self.change[2] % shape[0]
                if self.apply:
                    i[j] = (i[j] + 1) % len(ok)
                self._fire("one_agents_start")
        return ok[i].astype(np.asarray(real).dtype)


class C21(PairCheck):
    id = "C21"
    profiles = ["small", "tiny", "small", "edge", "small"]
    rule = ("a scenario is one model simulated some ten times with all draws scripted by position (in half of the scenarios all agents draw the same): in all but one execution one agent's "
            "shocks, one of her events or one of her initial conditions is another one, or further agents are added; every other agent's history must be "
            "the same (up to 1e-11, up to 1e-9 with added agents); non-trivial when at least one other agent was compared")

    def gen(self, r, i):
        w = worlds.gen_world(r, self.profiles[i % 5], sparse=r.random() < 0.15)
        w["n"] = r.choice([1, 2, 3, 6, 12, 25, 40, 40, 300])
        w["T"] = min(w["T"], 8)
        w["tables"] = {k: r.choice(["interior", "interior", "mixed"]) for k in w["tables"]}
        w["init"]["educ"] = r.choice(["interior", "interior", "degenerate"])
        w["last_cb"] = r.choice([w["last_cb"], w["T"], w["T"]])
        if w["sigma"] == 0:
            w["sigma"] = 0.3
        alone = i % 3 == 0  # everybody enters at once: agents can be added
        if alone:
            w["educ_years"] = [0 for _ in w["educ_years"]]
        changes = []
        for k in range(8):
            kind = r.choice(["shocks", "shocks", "event", "event", "initial"] + ["crowd"] * (4 * alone))
            if kind == "shocks":
                changes.append(["shocks", r.choice([0, 0, r.randrange(w["T"])]), [r.randrange(1000) for _ in range(r.choice([1, 1, 2]))]])
            elif kind == "event":
                changes.append(["event", r.randrange(0, 2 * w["T"] + 3), r.randrange(1000)])
            elif kind == "initial":
                changes.append(["initial", r.randrange(0, 9), r.randrange(1000)])
            else:
                changes.append(["crowd", r.choice([1, 1, 3, 20, 200, 1100, 2500])])
        alike = r.choice([0, 0, 1, 2])
        if alike:
            w["n"] = r.choice([2, 2, 3, 5, 9, 200])
        if r.random() < 0.3:  # part-time years that are nearly none, or nearly full ones
            x = r.choice([0.985, 0.999, 0.01])
            w["params_over"] = {**w["params_over"], **{f"gamma_p_{e}": x for e in worlds.EDUC}, "gamma_p_mom": r.choice([-0.002, 0.0])}
            w["T"] = r.choice([w["T"], 8])
        return {"check": "C21", "world": w, "alike": alike, "dseed": r.randrange(1, 10**6), "rate": r.choice([0.2, 0.5, 0.8]), "still": r.choice([0, 1]), "changes": changes}

    def shrink(self, scn):
        if len(scn["changes"]) > 1:
            for c in scn["changes"]:
                yield {**scn, "changes": [c]}
            return
        yield from super().shrink(scn)

    def go(self, scn, D, code, res):
        w = scn["world"]
        put = D.put(w)
        solve_once(code)  # all calls have the same parameters
        try:
            func = code.get_simulate_func(put.pp, put.sp, biased_exp=w["biased"], data_sparse=w["sparse"])
        except Exception as e:
            core_infra(e)
            raise Raised(f"{type(e).__name__}: {e} for a valid model") from e
        m = ref.Model(put.built)

        def run(seam, n):
            spec = copy.deepcopy(put.spec)
            spec["SIMULATION"]["num_agents_sim"] = n
            try:
                with seam:
                    df = func(put.frame(), spec)
            except Exception as e:
                core_infra(e)
                raise Raised(f"{type(e).__name__}: {e} for a valid model") from e
            res.sims += 1
            res.agent_years += len(df)
            res.faults_from(seam.fired)
            res.trail.update(core.digest(df).encode())
            return oracles.Panel(df, m, seam)

        plain = {}
        for ch in scn["changes"]:
            mk = lambda apply: Script(w, scn["dseed"], scn["rate"], None if ch[0] == "crowd" else ch, scn["still"], apply, scn.get("alike", 0))
            key = str(ch[:2]) if ch[0] == "event" else ""  # what follows an event is the same for all
            if key not in plain:
                plain[key] = run(mk(False), w["n"])
                if not key:
                    core.hist_sigs(plain[key].df, res)
                if scn.get("alike", 0) == 2 and ch[0] != "crowd" and not plain[key].seam.strange:
                    self.twins(plain[key], res)
            if res.viol:
                return
            a = plain[key]
            b = run(mk(True), w["n"] + (ch[1] if ch[0] == "crowd" else 0))
            if any(p.seam.strange or any(x[0] == "other" for x in p.seam.log) for p in (a, b)):
                res.note = "draws the script does not cover; nothing to compare"
                return
            if a.N:
                self.judge(a, b, ch, w, res)
            if res.viol:
                res.pin = {**scn, "changes": [ch]}
                return

    def judge(self, a, b, ch, w, res):
        A, B = a.df, b.df
        ida, idb = A.index.get_level_values("Identifier").to_numpy(), B.index.get_level_values("Identifier").to_numpy()
        if ch[0] == "crowd":
            res.fault("agents_added", ch[1])
            B = B[idb < w["n"]]
            if not A.index.equals(B.index):
                return res.bad("crowd", f"rows of the first {w['n']} agents differ with {ch[1]} more agents: {len(A)} vs {len(B)}")
            return self.near(a, B, res, f"with {ch[1]} more agents")
        if not A.index.equals(B.index):
            if ch[0] == "initial":
                return None  # another education, another entry
            return res.bad("interaction", f"rows differ after {ch}: {len(A)} vs {len(B)}")
        if ch[0] == "initial" and (A["Education_Level"].to_numpy() != B["Education_Level"].to_numpy()).any():
            return None
        x, y = A.to_numpy().astype(float), B.to_numpy().astype(float)
        ne = ~close(x, y, 1e-11, 1e-13)
        who = sorted(set(ida[ne.any(1)].tolist()))
        most = len({c % w["n"] for c in ch[2]}) if ch[0] == "shocks" else 1
        res.hit("agents_compared", len(set(ida.tolist())) - len(who))
        res.hit("agents_changed", len(who))
        if len(who) > most:
            k = int(np.argmax(ne.any(1)))
            c = int(np.argmax(ne[k]))
            res.bad("interaction", f"another {ch[0]} of {most} agent(s) changes the histories of agents {who[:8]}, e.g. {A.columns[c]} at {A.index[k]}: {x[k, c]!r} vs {y[k, c]!r}")

    def twins(self, a, res):
        """Everybody has the same luck, so those who begin alike live alike."""
        if not a.N:
            return
        M = a.df.to_numpy().astype(float)
        by, tied = {}, set()
        if "Value_Function_N" in a.d:
            V = np.sort(a.mat("Value_Function"), 1)
            tied = set(a.id[V[:, 2] - V[:, 1] <= 1e-8 * np.abs(V[:, 2])].tolist())
        state = [k for k, c in enumerate(a.df.columns) if c in NEEDED + ["Type", "Partner_Indicator", "Wage_Observed"]]
        ids = np.unique(a.id)
        rows = {int(i): np.where(a.id == i)[0] for i in ids[:60]}
        for i, ks in rows.items():
            if i in tied:
                continue
            key = tuple(np.nan_to_num(np.round(M[ks[0], state], 9), nan=-1.0)) + (len(ks),)
            j = by.setdefault(key, i)
            if j == i:
                continue
            res.hit("twins_compared")
            ok = close(M[rows[j]], M[ks], 1e-9, 1e-12)
            if not ok.all():
                t, c = (int(x) for x in np.argwhere(~ok)[0])
                res.bad("twins", f"agents {j} and {i} begin alike and have the same luck, but {a.df.columns[c]} in row {t} is {M[rows[j]][t, c]!r} and {M[ks][t, c]!r}")
                return

    def near(self, a, B, res, what):
        """Equal up to rounding; from the first near tie of an agent on, hers are not compared."""
        x, y = a.df.to_numpy().astype(float), B.to_numpy().astype(float)
        ok = close(x, y, 1e-9, 1e-12)
        bad = ~ok.all(1)
        res.hit("agents_compared", len(a.first))
        if not bad.any():
            return
        tied = set()
        if "Value_Function_N" in a.d:
            V = np.sort(a.mat("Value_Function"), 1)
            tied = set(a.id[V[:, 2] - V[:, 1] <= 1e-8 * np.abs(V[:, 2])].tolist())
        for k in np.where(bad)[0]:
            if int(a.id[k]) not in tied:
                c = int(np.argmax(~ok[k]))
                res.bad("crowd", f"{what}, {a.df.columns[c]} at {a.df.index[k]}: {x[k, c]!r} vs {y[k, c]!r} ({int(bad.sum())} rows)")
                return


# ------------------------------------------------------------------------- C14

NEEDED = ["Education_Level", "Lagged_Choice", "Experience_Part_Time", "Experience_Full_Time", "Experience_Stock",
          "Age_Youngest_Child", "Choice", "Wage_Observed"]


class C14(PairCheck):
    id = "C14"

    def dedicated(self):
        w = {**worlds.base_world(), "T": 131, "n": 4, "educ_years": [0], "child_age_max": 1, "types": 1, "male": "random", "seed": 3,
             "prefs": "ft", "last_cb": 40}
        big = {**worlds.base_world(), "T": 2, "n": 40000, "educ_years": [0, 1], "child_age_max": 2, "seed": 5}
        return [{"check": "C14", "kind": "history", "world": x, "nature": {"kind": "record"}} for x in (w, big)]

    def gen(self, r, i):
        w = worlds.gen_world(r, self.profiles[i % 5])
        return {"check": "C14", "kind": "history", "world": w, "nature": gen_nature(r, w), "episodes": 2}

    def go(self, scn, D, code, res):
        w = scn["world"]
        put = D.put(w)
        fs = {}
        for j in range(scn.get("episodes", 1)):
            out = {}
            wj = {**w, "pseed": w["seed"] + 31 * j} if j else w
            nat = dict(scn["nature"])
            if j and nat["kind"] != "record":
                nat["seed"] += j
            for sparse in (False, True):
                try:
                    if sparse not in fs:
                        fs[sparse] = code.get_simulate_func(put.pp, put.sp, biased_exp=w["biased"], data_sparse=sparse)
                    seam = core.seam_for(nat, nat.get("seed", 0), w)
                    with seam:
                        out[sparse] = fs[sparse](worlds.params_frame(worlds.params_of(wj)), put.sp)
                except Exception as e:
                    core_infra(e)
                    raise Raised(f"{type(e).__name__}: {e} for a valid model (sparse={sparse})") from e
                res.sims += 1
                res.agent_years += len(out[sparse])
                res.faults_from(seam.fired)
            full, sp = out[False], out[True]
            core.hist_sigs(full, res)
            miss = [c for c in NEEDED if c not in sp.columns] + [c for c in sp.columns if c not in full.columns]
            if miss:
                res.bad("columns", f"sparse output lacks or adds {miss}")
                return
            if list(full.index.names) != list(sp.index.names):
                res.bad("columns", f"index {full.index.names} vs {sp.index.names}")
            res.hit("rows_compared", len(full))
            same_columns(res, "sparse-values", full, sp, list(sp.columns), what="full vs sparse")
            own = np.isnan(sp["Wage_Observed"].to_numpy().astype(float)) != (sp["Choice"].to_numpy() == 0)
            if own.any():
                res.bad("sparse-values", f"wage shown and choice disagree at {sp.index[int(np.argmax(own))]}")
            if res.viol:
                return


# ------------------------------------------------------------------------- C16


class C16(PairCheck):
    id = "C16"

    def gen(self, r, i):
        kind = ["twin", "twin", "myopic", "rational"][i % 4]
        w = worlds.gen_world(r, self.profiles[i % 5], sparse=False, biased=kind != "rational",
                             inc=r.choice(["normal", "normal", "zero", "mom", "more"]), delta=r.choice([0.8, 0.9, 0.97]))
        w["prefs"] = r.choice(["mixed", "pt", "never_pt", "mixed", "extreme"])
        w["types"] = min(w["types"], 3)
        if w["n"] >= 4 and r.random() < 0.7:
            w["n"] = r.choice([40, 90, 250])
        if kind == "myopic":
            w["delta"] = 0.0
        if kind == "rational" or w["prefs"] == "never_pt":
            pass
        if r.random() < 0.5:
            w["init"]["pt"] = "none"
        return {"check": "C16", "kind": kind, "world": w, "nature": gen_nature(r, w)}

    def go(self, scn, D, code, res):
        w = scn["world"]
        built = worlds.build({**w, "init": {**w["init"], "pt": "degenerate" if w["init"]["pt"] == "none" else w["init"]["pt"]}})
        if w["init"]["pt"] == "none":
            t = built["tables"]["pt"]
            t["exper_shares"] = [1.0 if j == 0 else 0.0 for _ in range(len(w["educ_years"])) for j in range(w["init_exp_max"] + 1)]
        nat = scn["nature"]

        def go_one(bt, biased, sigs=False):
            put = D.put(bt)
            seam = core.seam_for(nat, nat.get("seed", 0), w)
            try:
                df = core.run(code, put, w, res, seam, biased=biased)
            except Exception as e:
                core_infra(e)
                raise Raised(f"{type(e).__name__}: {e} for a valid model") from e
            if sigs:
                core.hist_sigs(df, res)
            return oracles.Panel(df, ref.Model(bt), seam)

        biased = scn["kind"] != "rational"
        a = go_one(built, biased, True)
        if not a.N:
            return
        # reality follows the actual rates whatever she believes
        sub = Res()
        oracles.experience(a, sub)
        oracles.wages(a, sub)
        for v in sub.viol:
            res.bad("reality-" + v["oracle"], v["msg"])
        res.hit("part_time_periods", (a.ch == 1).sum())
        if scn["kind"] == "myopic":
            b = go_one(built, False)
            cols = [c for c in a.df.columns if not c.startswith("Continuation")]
            same_columns(res, "belief-moves-reality", a.df, b.df, cols, rtol=1e-10, what="biased vs rational with discount factor 0")
            return
        # plans, in every visited state, against the reference with the believed rates
        got = a.mat("Continuation_Value")

        def plan(model, biased_):
            worst = None
            for lag in (True, False):
                cont = model.solve(biased_, lag)
                x = np.zeros_like(got)
                for t in np.unique(a.t):
                    s = a.t == t
                    x[s] = model.cont_at(cont[t], a.e[s], a.lag[s], a.ty[s], a.age[s], a.par[s], a.stock[s])
                bad = ~close(got, x, 1e-8, 0.0).all(1)
                if not bad.any():
                    return None
                worst = worst or (bad, x)
            return worst

        if biased:
            twin = copy.deepcopy(built)
            for e in worlds.EDUC:
                twin["params"][f"gamma_p_{e}"] = 1.0
            twin["params"]["gamma_p_mom"] = 0.0
            w_bad = plan(ref.Model(twin), False)
            if w_bad:
                k = int(np.argmax(w_bad[0]))
                res.bad("plan", f"biased agent's continuation {got[k].tolist()}, that of the one-for-one model {w_bad[1][k].tolist()}: {a.row(k)} ({int(w_bad[0].sum())} rows)")
            b = go_one(twin, False)
            c = oracles.Panel(a.df, a.m, a.seam)
            equal_states(c, b, res, "twin", "biased agent vs rational agent of the one-for-one model")
        else:
            w_bad = plan(a.m, False)
            if w_bad:
                k = int(np.argmax(w_bad[0]))
                res.bad("plan", f"rational agent's continuation {got[k].tolist()}, with the actual rates {w_bad[1][k].tolist()}: {a.row(k)} ({int(w_bad[0].sum())} rows)")
        res.hit("planned_rows", a.N)


CHECKS = {c.id: c() for c in (C11, C12, C13, C21, C14, C16)}
