"""Checks of simulated life histories under scripted or recorded nature (C06-C10, C15, C17, C18)."""
import copy

import numpy as np
import pandas as pd
from scipy import stats

from . import core, env, oracles, ref, worlds
from .core import Res, rnd

ALPHA = oracles.ALPHA


def gen_nature(r, w):
    if r.random() < 0.35:
        return {"kind": "record"}
    return {
        "kind": "adversary",
        "seed": r.randrange(10**9),
        "binomial": r.choice([0.1, 0.5, 0.9, [0.0, 1.0], [0.0, 0.5, 1.0]]),
        "choice": r.choice([True, True, False]),
        "normal": r.choice(["tails", "distinct", None]),
    }


def episode(scn, j):
    """The world and nature of a scenario's j-th episode: other parameters and draws, same specification."""
    w, nature = scn["world"], scn.get("nature") or {"kind": "record"}
    if j:
        w = {**w, "pseed": w["seed"] + 7919 * j}
        if nature["kind"] != "record":
            nature = {**nature, "seed": nature["seed"] + j}
    return w, nature


def simulate(scn, res, code=None):
    """Panels of a scenario's episodes; the model is set up once, as a user fitting parameters would."""
    code = code or env.Code()
    w0 = scn["world"]
    with core.Dir() as D:
        put = D.put(w0)
        func = None
        for j in scn.get("episodes") or [0]:
            w, nature = episode(scn, j)
            built = worlds.build(w)
            seam = core.seam_for(nature, nature.get("seed", 0), w)
            try:
                if func is None:
                    func = code.get_simulate_func(put.pp, put.sp, biased_exp=w["biased"], data_sparse=w["sparse"])
                with seam:
                    df = func(worlds.params_frame(built["params"]), put.sp)
            except Exception as e:  # a legal model that cannot be simulated
                core_infra(e)
                res.bad("raises", f"{type(e).__name__}: {e} for a valid model (episode {j})")
                return
            res.sims += 1
            res.agent_years += len(df)
            res.faults_from(seam.fired)
            yield w, oracles.Panel(df, ref.Model(built), seam)


def solve_once(code):
    """Keep the solution of a function's first call; only for calls that repeat the same parameters."""
    real = getattr(code.sim, "get_solve_function", None)
    if real is None:
        return

    def get_solve_function(*a, **k):
        inner, kept = real(*a, **k), []

        def solve(*b, **kw):
            if not kept:
                kept.append(inner(*b, **kw))
            return kept[0]

        return solve

    code.sim.get_solve_function = get_solve_function


def pooled(scn, res):
    """One model simulated under many seeds through one function; the panels side by side as one."""
    w, code = scn["world"], env.Code()
    r = rnd("seeds", scn["sseed"])
    frames = []
    with core.Dir() as D:
        put = D.put(w)
        solve_once(code)  # the parameters are those of all runs
        try:
            func = code.get_simulate_func(put.pp, put.sp, biased_exp=w["biased"], data_sparse=False)
            for k in range(scn["runs"]):
                spec = copy.deepcopy(put.spec)
                spec["SIMULATION"]["seed_sim"] = r.randrange(1, 2**31)
                df = func(put.frame(), spec)
                res.sims += 1
                res.agent_years += len(df)
                d = df.reset_index()
                d["Identifier"] = d["Identifier"].astype("int64") + k * w["n"]
                frames.append(d)
        except Exception as e:
            core_infra(e)
            res.bad("raises", f"{type(e).__name__}: {e} for a valid model")
            return None
    for df in frames[:3]:
        core.hist_sigs(df.set_index(["Identifier", "Period"]), res)
    m = ref.Model(put.built)
    m.n = w["n"] * scn["runs"]
    p = oracles.Panel(pd.concat(frames).set_index(["Identifier", "Period"]), m)
    p.run = p.id // w["n"]
    return p


def gen_seeds(cid, r, i, **fixed):
    """A small model whose law only many runs of it show."""
    w = worlds.gen_world(r, "small", T=r.choice([2, 3]), n=r.choice([3, 7, 12, 20, 33, 47]), types=2, sigma=0.4, mu=-0.55, sparse=False)
    w["tables"] = {k: "interior" for k in w["tables"]}
    w["init"] = {k: "interior" for k in w["init"]}
    w["educ_years"] = [0, 0, 0][: r.choice([1, 2, 3])]
    w["last_cb"] = w["T"]
    w["rows"] = "plain"
    w.update(fixed)
    return {"check": cid, "kind": "seeds", "world": w, "sseed": r.randrange(2**31), "runs": 300}


def core_infra(e):
    """Environment trouble is not the code's fault."""
    s = f"{type(e).__name__} {e}"
    if isinstance(e, MemoryError) or "RESOURCE_EXHAUSTED" in s or "No space left" in s or "Too many open files" in s:
        raise InfraError(s)


class InfraError(Exception):
    pass


class HistoryCheck:
    """gen(i): scenario; run(scn): Res."""

    id = None
    crowd = False  # many agents, so that more states are visited
    quick, thorough = 150, 3000
    profiles = ["tiny", "small", "small", "edge", "long"]
    rule = ("a scenario is one seeded world (specification, parameters, tables) simulated under one scripted or recorded "
            "nature; non-trivial when the panel has at least one transition or decision the property speaks about; distinct "
            "by the histories (education, type, child ages, partner, choices per agent) it reached")

    def fixed(self, r):
        return {}

    def scenarios(self, seed, tier):
        n = self.quick if tier == "quick" else self.thorough
        out = list(self.dedicated())
        for i in range(n):
            r = rnd(self.id, seed, i)
            scn = self.gen(r, i)
            if scn["kind"] == "history" and "episodes" not in scn:
                scn["episodes"] = [0, 1, 2]
            out.append(scn)
        return out

    def dedicated(self):
        return []

    def gen(self, r, i):
        prof = "real" if i % 50 == 17 else self.profiles[i % len(self.profiles)]
        w = worlds.gen_world(r, prof, **self.fixed(r))
        if self.crowd and w["n"] >= 4 and r.random() < 0.7:
            w["n"] = r.choice([40, 90, 250])
        return {"check": self.id, "kind": "history", "world": w, "nature": gen_nature(r, w)}

    def run(self, scn):
        res = Res()
        if scn["kind"] == "seeds":
            p = pooled(scn, res)
            if p is not None:
                self.judge({**scn, "kind": "law"}, p, res)
            return res
        for w, p in simulate(scn, res):
            self.judge({**scn, "world": w}, p, res)
            core.hist_sigs(p.df, res)
            if res.viol:
                break
        return res

    def shrink(self, scn):
        eps = scn.get("episodes") or [0]
        if len(eps) > 1:
            for j in eps:
                yield {**scn, "episodes": [j]}
        for w in worlds.shrink_world(scn["world"]):
            yield {**scn, "world": w}
        nat = scn.get("nature") or {}
        if nat.get("kind") == "adversary":
            yield {**scn, "nature": {"kind": "record"}}
            for k in ("binomial", "choice", "normal"):
                if nat.get(k):
                    yield {**scn, "nature": {**nat, k: None}}


class C06(HistoryCheck):
    id = "C06"
    quick, thorough = 150, 3200
    profiles = ["edge", "small", "edge", "tiny", "long"]

    def dedicated(self):
        b = {**worlds.base_world(), "types": 1, "child_age_max": 1}
        big = {**b, "T": 2, "n": 70000, "educ_years": [0, 1], "init_exp_max": 0}
        long = {**b, "T": 150, "n": 3, "educ_years": [0], "male": "none"}
        return [{"check": self.id, "kind": "history", "world": w, "nature": {"kind": "record"}, "episodes": [0]} for w in (big, long)]

    def judge(self, scn, p, res):
        oracles.structure(p, res, full=not scn["world"]["sparse"])

    def fixed(self, r):
        return {"sparse": r.random() < 0.25}


class C07(HistoryCheck):
    id = "C07"
    quick, thorough = 150, 2400

    def dedicated(self):
        b = {**worlds.base_world(), "T": 3, "n": 20000, "child_age_max": 2, "types": 1, "last_cb": 3}
        out = [{**b, "educ_years": [0], "tables": {"child": "tiny", "arr": "tiny", "sep": "tiny"}},
               {**b, "educ_years": [0], "tables": {"child": "nearone", "arr": "nearone", "sep": "nearone"}, "init": {**b["init"], "child": "rare"}},
               {**b, "educ_years": [0, 0, 0], "n": 40000, "T": 2, "last_cb": 2, "tables": {"child": "tiny", "arr": "tiny", "sep": "nearone"}, "seed": 5}]
        late = {**b, "T": 72, "n": 1500, "child_age_max": 1, "educ_years": [0, 0, 1], "last_cb": 69, "init_exp_max": 1, "male": "none",
                "tables": {"child": "mixed", "arr": "interior", "sep": "interior"}, "seed": 8}
        out.append(late)  # the law of late periods, in numbers and, below, in certainties
        certain = [{**late, "T": T, "n": 40, "last_cb": T - 2, "tables": {"child": "binary", "arr": "binary", "sep": "binary"}, "seed": T}
                   for T in (58, 110)]
        return ([{"check": self.id, "kind": "law", "world": w, "nature": {"kind": "record"}, "episodes": [0]} for w in out]
                + [{"check": self.id, "kind": "history", "world": w, "nature": {"kind": "record"}, "episodes": [0]} for w in certain])

    def gen(self, r, i):
        if i % 10 == 0:  # the law itself, on many agents
            w = worlds.gen_world(r, "large", prefs=r.choice(["ft", "mixed", "ft"]), sigma=0.4, types=2,
                                 child_age_max=r.choice([1, 4, 18]), mu=-0.55, extra_periods=r.choice([0, 2]))
            w["tables"] = {k: r.choice(["interior", "interior", "mixed"]) for k in ("child", "arr", "sep")}
            w["init"]["educ"] = "interior"
            w["init"]["types"] = "interior"
            w["init"]["child"] = "interior"
            w["educ_years"] = sorted(r.choice([0, 0, 1]) for _ in w["educ_years"])
            w["last_cb"] = r.choice([w["T"], w["T"], w["T"] - 2])
            return {"check": self.id, "kind": "law", "world": w, "nature": {"kind": "record"}}
        if i % 50 == 21:
            return gen_seeds(self.id, r, i)
        w = worlds.gen_world(r, "real" if i % 50 == 17 else self.profiles[i % 5])
        if i % 2:
            w["tables"] = {k: r.choice(["binary", "binary", "mixed"]) for k in ("child", "arr", "sep")}
        if r.random() < 0.4:
            w["last_cb"] = r.randint(0, w["T"])
        return {"check": self.id, "kind": "history", "world": w, "nature": gen_nature(r, w)}

    def judge(self, scn, p, res):
        if scn["kind"] == "law":
            oracles.transition_law(p, res)
        else:
            oracles.transitions(p, res)


class C08(HistoryCheck):
    id = "C08"
    crowd = True
    quick, thorough = 150, 3000

    def dedicated(self):
        b = worlds.base_world()
        k2 = {**b, "educ_years": [2], "init_exp_max": 2, "types": 1, "n": 8, "prefs": "ft"}
        k3 = {**b, "educ_years": [0], "init_exp_max": 1, "types": 1, "n": 12, "prefs": "ft"}
        k4 = {**b, "educ_years": [0], "init_exp_max": 1, "inc": "mom", "prefs": "pt", "n": 12, "T": 5, "child_age_max": 4}
        long = {**b, "T": 270, "n": 2, "educ_years": [0], "types": 1, "child_age_max": 1, "male": "none", "prefs": "ft", "init_exp_max": 0}
        half = {**long, "T": 140, "prefs": "pt", "seed": 3}
        return ([{"check": self.id, "kind": "history", "world": w, "nature": {"kind": "record"}} for w in (k2, k3, k4)]
                + [{"check": self.id, "kind": "history", "world": w, "nature": {"kind": "record"}, "episodes": [0]} for w in (long, half)])

    def fixed(self, r):
        f = {"prefs": r.choice(["mixed", "mixed", "extreme", "pt", "ft"]), "inc": r.choice(["normal", "normal", "normal", "mom", "one", "zero", "more"])}
        if r.random() < 0.4:
            f["exp_cap"] = True
        if r.random() < 0.4:
            f["educ_years"] = [0, 0, 0]
        return f

    def judge(self, scn, p, res):
        oracles.experience(p, res)


class C09(HistoryCheck):
    id = "C09"
    quick, thorough = 150, 2800

    def fixed(self, r):
        return {"prefs": r.choice(["mixed", "mixed", "extreme", "extreme", "pt"])}

    def gen(self, r, i):
        if i % 25 == 8:  # many agents: values come close to each other
            w = worlds.gen_world(r, "large", mu=r.choice([-0.55, -1.5, -3.0, 0.5]), sparse=False)
            return {"check": self.id, "kind": "history", "world": w, "nature": {"kind": "record"}, "episodes": [0, 1]}
        if i % 5 == 3:  # and as close as one likes
            w = worlds.gen_world(r, r.choice(["small", "tiny", "edge"]), delta=0.0, sparse=False, n=40,
                                 mu=r.choice([-0.55, -1.5, -3.0, 0.5]), sigma=r.choice([0.0, 0.4]), prefs="mixed")
            w["educ_years"] = [0 for _ in w["educ_years"]]
            cuts = [[r.choice(["P", "F"]), r.randrange(10**6), r.choice([-1, 1]) * r.choice([1e-5, 1e-7, 1e-9, 3e-11])] for _ in range(5)]
            return {"check": self.id, "kind": "edge", "world": w, "nature": {"kind": "record"}, "cuts": cuts}
        scn = super().gen(r, i)
        scn["twin"] = r.random() < 0.4
        return scn

    def judge(self, scn, p, res):
        oracles.optimal(p, res)

    def run(self, scn):
        if scn["kind"] == "edge":
            return self.edges(scn)
        res = super().run(scn)
        if scn.get("twin") and not res.viol and len(scn.get("episodes") or []) >= 1:
            one = {**scn, "episodes": [scn["episodes"][0]]}
            full = [p for _, p in simulate({**one, "world": {**scn["world"], "sparse": False}}, res)]
            brief = [p for _, p in simulate({**one, "world": {**scn["world"], "sparse": True}}, res)]
            if full and brief:
                self.brief(full[0], brief[0].d, res)
        return res

    def brief(self, p, d, res):
        """The choices of sparse output maximise the values the full one reports."""
        if len(d) != p.N or not p.N:
            if len(d) != p.N:
                res.bad("sparse-rows", f"{len(d)} rows in sparse output, {p.N} in full")
            return
        ix = {(i, t): k for k, (i, t) in enumerate(zip(d["Identifier"].tolist(), d["Period"].tolist()))}
        k = np.array([ix.get((int(i), int(t)), -1) for i, t in zip(p.id, p.t)])
        if (k < 0).any():
            res.bad("sparse-rows", "rows of full output are missing in sparse output")
            return
        V = p.mat("Value_Function")
        ch = d["Choice"].to_numpy().astype(int)[k]
        own, best = V[np.arange(p.N), ch], V.max(1)
        oracles._flag(res, "sparse-argmax", p, ~(own >= best - 1e-12 * np.abs(best)), lambda q: f"sparse output chose {ch[q]} with values {V[q].tolist()}: {p.row(q)}")
        wage = d["Wage_Observed"].to_numpy().astype(float)[k]
        oracles._flag(res, "sparse-wage-shown", p, np.isnan(wage) != (ch == 0), lambda q: f"sparse output: wage {wage[q]} with choice {ch[q]}: {p.row(q)}")
        res.hit("sparse_rows", p.N)

    def edges(self, scn):
        """Parameters moved until two alternatives of one agent are worth the same but for a hair."""
        res, w, code = Res(), scn["world"], env.Code()
        with core.Dir() as D:
            put = D.put(w)
            m = ref.Model(put.built)
            try:
                func = code.get_simulate_func(put.pp, put.sp, biased_exp=w["biased"], data_sparse=False)
                p = oracles.Panel(func(put.frame(), put.sp), m)
                res.sims += 1
                if not len(p.first):
                    return res
                self.judge(scn, p, res)
                V = p.mat("Value_Function")
                for which, pick, eps in scn["cuts"]:
                    k = p.first[pick % len(p.first)]
                    e, kid = worlds.EDUC[p.e[k]], "yes" if p.age[k] >= 0 else "no"
                    over = dict(put.built["params"])
                    if which == "P":
                        other = max(V[k, 0], V[k, 2])
                        over[f"{kid}_kids_p_educ_{e}"] += float(np.log(other / V[k, 1]) + np.log1p(eps))
                    else:
                        d = float(np.log(V[k, 0] / V[k, 2]) + np.log1p(eps))
                        over[f"{kid}_kids_f_educ_{e}"] += d
                        down = 2.0 if V[k, 0] < 0 else -2.0
                        over[f"{kid}_kids_p_educ_{e}"] += float(np.log(V[k, 0] / V[k, 1])) - d + down
                    df = func(worlds.params_frame(over), put.sp)
                    res.sims += 1
                    res.agent_years += len(df)
                    q = oracles.Panel(df, ref.Model({**put.built, "params": over}))
                    X = np.sort(q.mat("Value_Function"), 1)
                    gap = np.abs(X[:, 2] - X[:, 1]) / np.maximum(np.abs(X[:, 2]), 1e-300)
                    res.hit("near_ties", (gap < 2e-5).sum())
                    res.fault("moved_to_the_edge")
                    self.judge(scn, q, res)
                    if res.viol:
                        break
            except Exception as e:
                core_infra(e)
                res.bad("raises", f"{type(e).__name__}: {e} for a valid model")
                return res
        core.hist_sigs(p.df, res)
        return res

    def shrink(self, scn):
        if scn["kind"] == "edge":
            for c in scn["cuts"]:
                if len(scn["cuts"]) > 1:
                    yield {**scn, "cuts": [c]}
            for w in worlds.shrink_world(scn["world"]):
                if w["delta"] == 0:
                    yield {**scn, "world": w}
            return
        if scn.get("twin"):
            yield {**scn, "twin": False}
        yield from super().shrink(scn)


class C10(HistoryCheck):
    id = "C10"
    quick, thorough = 150, 2400

    def gen(self, r, i):
        if i % 10 == 0:
            w = worlds.gen_world(r, "large", prefs="ft", sigma=r.choice([0.2, 0.6, 1.0]), types=2, mu=-0.55)
            w["init"]["educ"] = "interior"
            return {"check": self.id, "kind": "law", "world": w, "nature": {"kind": "record"}}
        if i % 50 == 21:
            return gen_seeds(self.id, r, i, prefs="ft", sigma=r.choice([0.2, 0.6]))
        w = worlds.gen_world(r, "real" if i % 50 == 17 else self.profiles[i % 5], prefs=r.choice(["ft", "pt", "mixed", "ft"]),
                             sigma=r.choice([0.0, 0.1, 0.5, 1.0]))
        nat = gen_nature(r, w)
        if nat["kind"] == "adversary" and r.random() < 0.5:
            nat["normal"] = "distinct"
        return {"check": self.id, "kind": "history", "world": w, "nature": nat}

    def judge(self, scn, p, res):
        oracles.wages(p, res, law=scn["kind"] == "law")


class C15(HistoryCheck):
    id = "C15"
    crowd = True
    quick, thorough = 150, 3200
    profiles = ["small", "small", "tiny", "edge", "long"]

    def dedicated(self):
        w = {**worlds.base_world(), "T": 4, "last_cb": 2, "n": 8}
        return [{"check": self.id, "kind": "history", "world": w, "nature": {"kind": "record"}}]

    def fixed(self, r):
        return {"delta": r.choice([0.8, 0.9, 0.97, 0.9]), "prefs": r.choice(["mixed", "mixed", "extreme", "home", "pt"])}

    def judge(self, scn, p, res):
        oracles.continuation(p, res, scn["world"]["biased"])


class C17(HistoryCheck):
    id = "C17"
    crowd = True
    quick, thorough = 150, 3200

    def dedicated(self):
        w = {**worlds.base_world(), "types": 12, "n": 60, "T": 2, "educ_years": [0, 0, 0], "child_age_max": 2}
        return [{"check": self.id, "kind": "history", "world": w, "nature": {"kind": "record"}}]

    def fixed(self, r):
        return {"policy": r.choice(["default", "random", "random", "nobenefit"]), "male": r.choice(["default", "random"])}

    def judge(self, scn, p, res):
        oracles.budgets(p, res)


class C18(HistoryCheck):
    id = "C18"
    quick, thorough = 150, 1800

    def dedicated(self):
        b = {**worlds.base_world(), "T": 1, "n": 4000, "educ_years": [0], "child_age_max": 3}
        out = [{**b, "types": 12}, {**b, "types": 12, "rows": "sorted"}, {**b, "types": 3, "rows": "shuffled", "seed": 5}]
        out += [{**b, "n": 5, "T": 2, "types": 5, "init_exp_max": 4, "child_age_init_max": 3, "first_share": "normalised", "seed": s,
                 "init": {**b["init"], "types": "holes", "pt": "holes", "ft": "holes", "child": "holes"}} for s in range(1, 25)]
        rare = {"educ": "interior", **{k: "rare" for k in ("types", "child", "partner", "pt", "ft")}}
        out += [{**b, "n": 16000, "types": 4, "init_exp_max": 3, "child_age_init_max": 2, "init": rare, "seed": 3},
                {**b, "n": 30000, "educ_years": [0, 0, 0], "types": 3, "init_exp_max": 3, "child_age_init_max": 1, "init": {**rare, "educ": "rare"}, "seed": 4},
                {**b, "n": 30000, "educ_years": [0, 0, 0], "types": 2, "init_exp_max": 1, "child_age_init_max": 0, "init": rare, "seed": 9}]
        return [{"check": self.id, "kind": "law" if w["n"] > 1000 else "history", "world": w, "nature": {"kind": "record"}, "episodes": [0]} for w in out]

    def gen(self, r, i):
        if i % 25 == 11:
            return gen_seeds(self.id, r, i, T=1, n=r.choice([2, 5, 12, 20, 33, 47]))
        w = worlds.gen_world(r, "edge" if i % 4 else "small")
        if i % 2 == 0:
            w["T"] = r.choice([1, 1, 2])
            w["n"] = 4000
            E = r.choice([1, 2, 3, 3])
            w["educ_years"] = [0] * E if r.random() < 0.5 else [r.randint(0, w["T"] - 1) for _ in range(E)]
            w["sigma"] = 0.4
            w["init_exp_max"] = r.choice([0, 1, 3, 4])
            w["child_age_max"] = r.choice([3, 5, 18])
            w["child_age_init_max"] = r.choice([-1, 0, 2, 3])
            return {"check": self.id, "kind": "law", "world": w, "nature": {"kind": "record"}}
        w["n"] = r.choice([1, 5, 9])
        return {"check": self.id, "kind": "history", "world": w, "nature": gen_nature(r, w)}

    def judge(self, scn, p, res):
        initial(p, res, law=scn["kind"] == "law")


def initial(p, res, law):
    m = p.m
    f = p.first
    e, ty, age, par, pt, ft = p.e[f], p.ty[f], p.age[f], p.par[f], p.pt[f].astype(int), p.ft[f].astype(int)
    if not len(f):
        return
    tabs = {
        "education": (e, np.broadcast_to(m.educ_shares, (len(f), m.E)), 0),
        "type": (ty, np.broadcast_to(m.type_shares, (len(f), m.K)), 0),
        "child age": (age, m.child_shares[e], -1),
        "partner": (par, np.stack([1 - m.partner_shares[e], m.partner_shares[e]], 1), 0),
        "part-time experience": (pt, m.pt_shares[e], 0),
        "full-time experience": (ft, m.ft_shares[e], 0),
    }
    for nm, (x, sh, base) in tabs.items():
        i = x - base
        bad = (i < 0) | (i >= sh.shape[1])
        if bad.any():
            res.bad("support", f"{nm} {x[bad][0]} outside its table (education {e[bad][0]})")
            continue
        pr = sh[np.arange(len(f)), i]
        bad = pr <= 1e-15
        if bad.any():
            k = int(np.argmax(bad))
            res.bad("support", f"{nm} {x[k]} with share 0 at education {e[k]} ({int(bad.sum())} agents)")
        res.hit("initial_values", len(f))
    if not law:
        return
    if p.run is not None:
        spread(p, res, tabs)
    entered = np.isin(np.arange(m.E), np.where(np.array(m.ys) < m.T)[0])
    for nm, (x, sh, base) in tabs.items():
        if nm == "education":
            if not entered.all():
                continue
            groups = [np.ones(len(f), bool)]
        else:
            groups = [e == lev for lev in range(m.E)]
        for gi, g in enumerate(groups):
            if g.sum() < 100:
                continue
            probs = sh[g][0]
            obs = np.bincount(x[g] - base, minlength=len(probs))[: len(probs)]
            ex = probs * g.sum()
            for k in np.where((probs > 0) & (probs < 1))[0]:
                res.hit("share_tests")
                if stats.binomtest(int(obs[k]), int(g.sum()), probs[k]).pvalue < ALPHA / 10:
                    res.bad("shares", f"{nm} {k + base} (education {gi}): {obs[k]} of {g.sum()} for a share of {probs[k]:.5f}")
            use = ex > 10
            if use.sum() < 2:
                continue
            c = ((obs[use] - ex[use]) ** 2 / ex[use]).sum()
            res.hit("share_tests")
            if stats.chi2.sf(c, use.sum() - 1) < ALPHA:
                res.bad("shares", f"{nm} (education {gi}): {obs.tolist()} for shares {np.round(probs, 4).tolist()}")
    by_id = np.argsort(p.id[f])
    if p.run is None and entered.all():
        for nm, (x, sh, base) in tabs.items():
            z = np.full(len(f), np.nan)
            q = sh[np.arange(len(f))]
            mean = (q * np.arange(sh.shape[1])).sum(1)
            sd = np.sqrt(np.maximum((q * np.arange(sh.shape[1]) ** 2).sum(1) - mean**2, 0))
            far = np.where(q > 0, np.abs(np.arange(sh.shape[1]) - mean[:, None]), 0).max(1)
            use = (sd > 0.1) & (far < 6 * sd)  # rare values make correlations too skewed to test
            z[use] = ((x - base - mean)[use]) / sd[use]
            if nm == "education":
                oracles.lags(res, "initial-independence", z[by_id], z[by_id], f"{nm} of agents", own=True)
                continue
            oracles.lags(res, "initial-independence", z[by_id], z[by_id], f"{nm} of agents", own=True)
            for lev in range(m.E):
                zl = z[by_id][e[by_id] == lev]
                oracles.lags(res, "initial-independence", zl, zl, f"{nm} of agents of education {lev}", own=True)
    one = np.zeros(len(f), int)
    vars_ = {k: v[0] for k, v in tabs.items() if k != "education"}
    names = list(vars_)
    for a in range(len(names)):
        for b in range(a + 1, len(names)):
            x, y = vars_[names[a]], vars_[names[b]]
            for lev in range(m.E):
                g = e == lev
                if g.sum() < 200:
                    continue
                _contingency(res, x[g], y[g], f"{names[a]} vs {names[b]} (education {lev})")
    g = np.ones(len(f), bool)
    _contingency(res, ty[g], e[g], "type vs education")
    order = np.argsort(p.id[f])
    for nm, x in [("education", e), ("type", ty)]:
        if skewed(x):
            continue
        z = (x[order] - x.mean()) / (x.std() + 1e-300) if x.std() > 0 else one * np.nan
        oracles._auto(res, "initial-independence", np.asarray(z, float), f"{nm} across agents")
    for lev in range(m.E):
        s = order[e[order] == lev]
        for nm in vars_:
            x = vars_[nm][s].astype(float)
            if len(x) > 200 and x.std() > 0 and not skewed(x):
                oracles._auto(res, "initial-independence", (x - x.mean()) / x.std(), f"{nm} across agents of education {lev}")


def skewed(x):
    return np.abs(x - x.mean()).max() > 6 * x.std()


def spread(p, res, tabs):
    """Every category's count over each run, and each agent's share over runs, vary as independent draws do."""
    f = p.first
    run = p.run[f]
    place = p.id[f] % (p.m.n // (run.max() + 1))
    for nm, (x, sh, base) in tabs.items():
        pr = sh[np.arange(len(f)), :]
        for k in range(sh.shape[1]):
            q = pr[:, k]
            with np.errstate(invalid="ignore", divide="ignore"):
                z = np.where((q > 0.05) & (q < 0.95), ((x - base == k) - q) / np.sqrt(q * (1 - q)), np.nan)
            oracles.dispersion(res, "initial-independence", z, run, f"{nm} {k + base}")
            for j in np.unique(place)[:60]:
                s = (place == j) & np.isfinite(z)
                if s.sum() > 100:
                    res.hit("share_tests")
                    if abs(z[s].sum()) / np.sqrt(s.sum()) > 8:
                        res.bad("shares", f"{nm} {k + base} of agent {j} over {int(s.sum())} seeds: {(x[s] - base == k).mean():.3f}, shares {q[s].mean():.3f}")


def _contingency(res, x, y, label):
    xs, ys = np.unique(x), np.unique(y)
    xs = [v for v in xs if (x == v).sum() > 50]
    ys = [v for v in ys if (y == v).sum() > 50]
    if len(xs) < 2 or len(ys) < 2:
        return
    tab = np.array([[((x == a) & (y == b)).sum() for b in ys] for a in xs], float)
    ex = tab.sum(1, keepdims=True) * tab.sum(0) / tab.sum()
    if (ex < 10).any():
        return
    c = ((tab - ex) ** 2 / ex).sum()
    res.hit("independence_tests")
    if stats.chi2.sf(c, (len(xs) - 1) * (len(ys) - 1)) < ALPHA:
        res.bad("initial-independence", f"{label}: chi2 {c:.1f}")


CHECKS = {c.id: c() for c in (C06, C07, C08, C09, C10, C15, C17, C18)}
