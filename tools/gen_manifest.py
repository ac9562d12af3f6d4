"""Writes MANIFEST.json: one entry per check module that exists, the other properties under not_applicable."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEARCH = "explicit-state search over the real agents' actions (bounded model checking of the implementation)"
TRUST = "Trusts the small reference implementation in mc/ref.py, mc/preds.py and Python/numpy. "
M = {
 "C01": (SEARCH, "model_checking", "Every reachable state within the stated bounds (3-5 agents, rational and scripted moves, all activation orders, phase changes) satisfies conservation; larger populations only by the smallness of the causes. " + TRUST),
 "C02": (SEARCH, "model_checking", "Rankings and pool values are recomputed in every explored state, including right after every phase change. " + TRUST),
 "C03": (SEARCH, "model_checking", "Operator invariants in every explored single-phase state, plus every split of a run into step() and run_model(). " + TRUST),
 "C04": (SEARCH, "model_checking", "Every delegation decided in any explored state is compared with a reference that fills the agent's ranking. Near ties (1e-12) are not judged. " + TRUST),
 "C05": (SEARCH, "model_checking", "Every decision in any explored state is compared with independently computed utilities; every activation order of converged states. Near ties are not judged. " + TRUST),
 "C06": ("exhaustive enumeration of idle/active histories driven through the real scheduler, against a reference automaton", "model_checking", "All histories up to the bound; agents' moves are scripted, the round, phase and stop logic is the real one."),
 "C07": ("exhaustive enumeration of phase histories of the real simulation against a reference", "model_checking", "All combinations of the listed value lists for k, a0, thresholds and extra cost; the state before and after each phase change is compared."),
 "C08": ("exhaustive enumeration of run histories and of the ways to supply a seed, comparing complete trajectories", "model_checking", "All histories of up to three runs over a small set of configurations in one process, and fresh processes with different hash seeds."),
 "C09": ("exhaustive enumeration of a parameter lattice against exact rational reference formulas", "model_checking", "Complete over the lattice; other values only by the formulas being piecewise polynomial."),
 "C10": ("exhaustive enumeration of pool and delegation configurations", "model_checking", "Complete over the lattice of pools, pledges, costs, margins and splits; sums compared to 1e-9 relative."),
 "C11": (SEARCH, "model_checking", "Every operator strategy decided in any explored state is compared with the reference estimate for one pool fewer and one more and with reference margins. " + TRUST),
 "C12": ("exhaustive enumeration of population configurations", "model_checking", "Complete over the listed sources, sizes, cost bounds, profiles, fractions and stake files; says nothing about distributions (C22)."),
 "C13": ("exhaustive enumeration of small states against independently computed metrics", "model_checking", "All partitions of pools among operators up to the bound and the states met by search; the solver-based metric only on a subset."),
 "C14": ("exhaustive enumeration of run outcomes with complete comparison of files and state", "model_checking", "All listed configurations (outcome classes); every written file parsed and compared."),
 "C15": ("exhaustive enumeration of crash points, torn writes and process interleavings of the real start-up code, followed by real runs", "fault_enumeration", "Every line of the start-up and shut-down code as crash point, and every torn prefix of the files being written. Crash means process death, not loss of power."),
 "C16": ("stateless exploration of process interleavings of the real file code up to a preemption bound", "model_checking", "All interleavings of two or three writers at line granularity up to the bound, and real batch runs."),
 "C17": ("exhaustive enumeration of option values through the real command lines", "model_checking", "Every option with every value of its alphabet, pairs of options, both command lines."),
 "C18": ("exhaustive enumeration of message sequences against a reference session", "model_checking", "All message sequences up to the bound through the real socket handler and server; the network and browser are stand-ins."),
 "C19": ("exhaustive enumeration of rankings and item lists against a reference", "model_checking", "All rankings up to the bound over the alphabet of pools and places, including unfilled ones."),
 "C20": ("exhaustive enumeration of the scheduler's random choices on the real scheduler", "model_checking", "Complete trees of the scheduler's random choices: one round of up to 7 agents, three rounds of 3; larger systems up to two choices off the first alternative. The order of execution within a group is free."),
 "C21": ("exhaustive enumeration of configurations and activation schedules, run to the end", "model_checking", "Every triple of option values of the grid occurs in some complete run, two sub-grids are complete, every metric is plotted; and 13 odd systems are stopped in every reachable state of every schedule within the bounds. Values between the grid's are not run."),
 "C23": ("exhaustive enumeration of user action sequences on the real page scripts, handler and server, against a reference session", "model_checking", "All action sequences up to the bound through the scripts that the server delivers, run in node; elements, timers, sliders, the socket and the drawing library are stand-ins, and messages do not cross."),
    "C24": ("exhaustive enumeration of short histories and of option grids of runs and batches; figures taken apart at the moment they are saved", "model_checking", "All histories up to the bound with every place of the marks through the real export; real runs and batch-run.py over grids. Figures are judged as matplotlib objects, not as pixels."),
}
na = {"C22": "Statistical: it speaks about distributions of random draws; exhaustive exploration of bounded behaviours cannot decide it (C12 checks the support and bounds of the draws)."}
checks, notapp = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in M and os.path.exists(os.path.join(ROOT, "checks", p.lower() + ".py")):
        tech, level, note = M[p]
        checks.append(dict(property=p, quick_cmd="bash run.sh " + p, thorough_cmd="VERIF_TIER=thorough bash run.sh " + p,
                           technique=tech, level=level, level_note=note, evidence_file="evidence/%s.json" % p))
    else:
        notapp.append(dict(property=p, reason=na.get(p, "Check not built yet.")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=notapp,
               notes="No hooks: the checks import the code from /repo and intercept from outside."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
