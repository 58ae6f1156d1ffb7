"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = " Trusted: the harness, NumPy/JAX/pandas, CPython's sys.monitoring; bounded by the seeds run."
C = {
    "C01": ("deterministic simulation: seeded histories of calls in one process with environment faults, panels compared bit by bit with pristine code", "exploration",
            "Sampled histories of 4-9 operations over two models, all input forms, replaced files, failing calls, moved clocks/cwd/environment and reseeded generators, plus whole second interpreters with other hash seeds and time zones."),
    "C02": ("deterministic simulation: seeded thread scheduler at source-line granularity, each concurrent panel compared with the panel alone", "exploration",
            "Sampled interleavings of 2-3 real threads, switched one at a time by the simulator at lines of soepy outside JAX tracing; switches inside C code of NumPy/JAX are not explored."),
    "C03": ("deterministic simulation: calls (some struck by injected exceptions) in a host with randomised global state, host state and inputs diffed, audit hook on the file system", "exploration",
            "Sampled calls and crash points; the host state compared is the enumerated list in host_state()."),
    "C04": ("deterministic simulation: exceptions injected at seeded line events of construction, solution and simulation; later calls compared with pristine code", "exploration",
            "Sampled crash points (weighted so that every function is struck), one to three crashes in a row, four exception kinds."),
    "C05": ("deterministic simulation: disk-fault injection on every input file (missing, denied, EIO, short, torn, EMFILE, transient, replaced) before and between calls", "exploration",
            "Sampled fault sequences on a simulated disk seam and on real scratch files."),
    "C06": ("deterministic simulation of seeded worlds with scripted nature; structural invariants over the recorded histories", "exploration", "Sampled worlds of every size class incl. degenerate ones."),
    "C07": ("deterministic simulation of seeded worlds; exact certain events under scripted nature plus sequential tests of recorded draws against the tables", "exploration", "Certain and impossible events exact; interior probabilities and independence judged by exact binomial, chi-square and correlation tests at 1e-10 per test on worlds of 3000 agents."),
    "C08": ("deterministic simulation with scripted choices, births and increments; refinement against an integer-count reference model", "exploration", "K2-K4 are known findings and excused only where the exact deviation of the finding is observed."),
    "C09": ("deterministic simulation; each recorded choice checked against the recorded values", "exploration", "Sampled worlds, full and sparse."),
    "C10": ("deterministic simulation with recorded and scripted wage shocks; wages recomputed from history and shock, reuse and dependence of shocks searched", "exploration", "K5 is a known finding and excused only for the exact shared stream it names."),
    "C11": ("deterministic simulation of pairs of runs sharing a seed; draws compared agent by agent", "exploration", "Sampled pairs."),
    "C12": ("deterministic simulation of pairs of worlds differing in other groups' parameters; rows compared", "exploration", "Sampled pairs."),
    "C13": ("deterministic simulation of pairs of scripted natures that part at a seeded period; pasts compared", "exploration", "Sampled pairs."),
    "C14": ("deterministic simulation of the same world with full and sparse output under the same nature; columns compared", "exploration", "Sampled worlds plus one of 131 periods."),
    "C15": ("deterministic simulation; continuation values in visited states recomputed by an independent backward induction whose utilities are measured in the simulated rows", "exploration", "K1 is a known finding: the reference also accepts exactly the lagged birth belief it describes. Monte-Carlo and quadrature solutions."),
    "C16": ("deterministic simulation of triples (biased, rational, full-count rational) under one nature; continuation values and realised experience compared", "exploration", "Sampled triples."),
    "C17": ("deterministic simulation of many household situations under scripted nature; every flow utility recomputed by an independent scalar budget model", "exploration", "The reference of the tax and transfer rules is the harness's own and follows the documentation and parameters."),
    "C18": ("deterministic simulation of seeded worlds; initial draws under scripted and recorded nature judged against the share tables", "exploration", "Certain and impossible categories exact; interior shares and independence judged by chi-square and correlation tests at 1e-10 per test on 4000 agents."),
    "C19": ("deterministic simulation: loss, repetition and garbling of single input records before and between calls; each call must be refused or equal the complete inputs' panel", "exploration", "Sampled records of sampled models; positions in lists (tax brackets, grids, years of education, child care costs) carry no labels and are not struck."),
    "C21": ("deterministic simulation of populations in pairs: one agent's luck scripted anew, agents added, all agents given the same draws; every other agent's rows compared", "exploration",
            "Sampled populations, subsets and natures; continuation values compared at 1e-11 where another population changes shapes, everything else exactly."),
    "C22": ("deterministic simulation of long traffic through one process with faults (missing tables, refused parameters, crashes at seeded lines, ending threads); resources measured between windows of calls", "exploration",
            "Sampled traffic; growth is reported only after it persisted over 400 further calls (or 60 s of them). Calls failing while JAX traces are left out: JAX itself keeps the traced objects."),
    "C20": ("deterministic simulation: reordered delivery of input records and unused records among them; panels compared bit by bit with the original order", "exploration", "Sampled orders of sampled models."),
}
NA = {
    "N01": "A pure function of incomes and tax parameters: no schedule, clock, I/O, randomness or history enters, so there is nothing for a simulator to control (numerical proof or property-based testing would decide it). Its use inside simulations is covered by C17.",
    "N02": "A pure enumeration from dimensions without any nondeterminism; its consequences in simulated histories are covered by C06, C12 and C15.",
    "N04": "A mathematical property of fixed nodes and weights; nothing to schedule or to inject.",
}
checks = []
for cid, (tech, level, note) in sorted(C.items()):
    checks.append(dict(property=cid, quick_cmd=f"./check {cid} quick", thorough_cmd=f"./check {cid} thorough", evidence_file=f"evidence/{cid}.json",
                       technique=tech, level=level, level_note=note + TRUST))
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="No hooks in /repo: the seams used are the ones the code already has (files, NumPy's RandomState, Python's sys.monitoring, threading.Lock). "
               "Commits in /repo are fixes only; see known_findings.json and DESIGN.md.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
