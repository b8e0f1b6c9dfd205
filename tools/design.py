"""The hand-written parts of DESIGN.md (see make_design.py)."""

HEAD = """# Verification of pywr by property-based testing

Everything here decides properties by *generated-input search against an explicit oracle*: a reference model, a
differential or metamorphic relation, a round-trip, or an invariant over a history. `properties.jsonl` states 35
properties, C01-C35; all of them are claimed (nothing is listed under `not_applicable`).
This file is written by `tools/make_design.py` from `tools/design.py`, the check modules, the properties, the
planted bugs and the defects on record.

## Machinery

* `run.sh <id> [quick|thorough]` builds the extensions from /repo's working tree (`/opt/vp/lib/build_ext.py`,
  incremental by content, git-ignored products only) and starts `harness/main.py` with pywr's own interpreter.
  Hypothesis (pure Python) is taken from the tooling environment: its packages are linked into a scratch directory which
  goes on `sys.path`. Nothing in /repo is hooked or instrumented (`hooks` in MANIFEST.json is empty).
* A check is a module `checks/cNN.py`: a list of tests, each a Hypothesis strategy that produces a JSON document (the
  *spec*: a model, a history, inputs) and a function which runs pywr on it and raises `Violation` when the oracle
  disagrees. An exception out of pywr code for an input that the generator knows to be valid is a violation as well; an
  exception in the harness itself is an error exit (2).
* The tests run in 8 forked shards, each seeded from `VERIF_SEED`, the shard number and the test name
  (`database=None`, `deadline=None`, no other source of randomness). Work is bounded by case counts; a soft time
  budget (18 s for quick, 420 s for thorough, per check) only stops the generation of further cases and is never a
  violation. A quick check takes 15-40 s of wall time on 8 cores, plus the build when sources changed (about a minute
  when everything has to be compiled); a thorough one 8-12 minutes.
* A failure is shrunk by Hypothesis, confirmed in a fresh process, and written to `replay/<id>-<test>-<hash>.json`;
  `run.sh <id> --replay FILE` runs that one spec again without Hypothesis. If the failure needs what the process did before,
  the replay file contains the preceding specs of the shard too. A shard that dies of SIGSEGV/SIGABRT/SIGFPE/SIGBUS
  is replayed on its current spec in a fresh process in the same way. A failure that can not be reproduced from its spec
  is reported as an error of the machinery, never as a violation.
* Every run writes `evidence/<id>.json`: number of cases, number of distinct non-trivial cases by the stated rule,
  label counts (the distribution the generator produced), samples.
* All runs happen in a scratch directory (GLPK writes debug files to the working directory when a problem is infeasible).
* Known findings (`known_findings.json`) are identified by test and spec; each check first replays its own
  (`PROBES`), prints `KNOWN-FINDING:` for those that still fail, and reports anything else as a violation.

### Generators shared by the checks

* `harness/nets.py`: random networks (a DAG of inputs, links, outputs and storages with parallel routes), bounds and
  costs that are constant, per step, per scenario or both, with tiny (below 0.001) and large values; and the reference LP
  built from the document alone, solved by SciPy's HiGHS.
* `harness/compound.py`: networks with every compound node, and the elementary arrangement each of them stands for.
* `harness/driven.py`: models whose flows and volumes are known in advance (driven by given series).
* `harness/rich.py`, `pm.py`, `extras.py`: whole documents out of 75 kinds of parameters, 35 of recorders and 20 of
  nodes, with scenarios, slices and combinations, tables, includes, every kind of clock; and an observer which records all
  that can be observed of a run (flows, volumes, parameter values, indices, recorder values, series and tables).
* `harness/scen.py`, `cal.py`: reference arithmetic of scenario combinations and of the calendar (datetime only).
"""

ORACLE = {
 "C01": "an edge-based LP written from the documentation and solved by HiGHS at the volumes the model has at each step; "
        "equal total cost (tolerance from the size of the numbers), infeasible if and only if pywr raises; a second test couples two domains; "
        "`larger` goes to about 25 nodes and 6 scenarios. Tests of the suite fix a handful of networks; the cost of *every* network's optimum can only be judged against a second solver.",
 "C02": "bounds of each node; an LP asks whether non-negative connection flows exist that explain all reported node flows (independent of which optimum was chosen); saved route flows must sum up to them.",
 "C03": "the volume recurrence over the whole history, from pywr's reported flows and the calendar's lengths of the steps (including months), so it holds whatever the optimum.",
 "C04": "differential between glpk, glpk-edge, lpsolve (where its documented restrictions hold) and option sets from the document or the environment; costs are perturbed by rationally independent amounts, so that the optimum is unique and flows can be compared, not only costs.",
 "C05": "metamorphic: any subset, slice, combination list or single scenario equals the columns of the full run, for everything the observer sees.",
 "C06": "metamorphic: after any history of run/step/reset/finish/failed run, a run equals that of a freshly loaded model.",
 "C07": "metamorphic: order of sections, inlining or naming of parameters, includes (nested), tables by reference, JSON as text, dict, path or bytes, all give the same results and the same components; the caller's dictionary is unchanged.",
 "C08": "a reference calendar built on `datetime` alone; dates 1700-2199, all step lengths (days, hours, W/M/Q/Y offsets with anchors).",
 "C09": "the documented entry or formula for the date, per profile.",
 "C10": "an interpreter of the expression graph, in IEEE double arithmetic and in the documented order of evaluation.",
 "C11": "reference band search and interpolation at the volume observed at the start of the step, biased to volumes exactly on a curve, at empty and full.",
 "C12": "a state machine per scenario (predicate, ratchet, previous index) over observed values, biased to equality.",
 "C13": "NumPy/SciPy formulas; break points, between and outside.",
 "C14": "a date-by-date reference without pandas; every file format.",
 "C15": "look-up by the combination computed by `scen.py`.",
 "C16": "a ledger of volumes and, for the limits, the reference LP with exactly the documented rows.",
 "C17": "a ledger per licence with renewal dates taken from the calendar; flows follow from priorities of demands in closed form.",
 "C18": "a ledger of the year's use; allowance left per day left.",
 "C19": "look-up in the series of flows that the model reported before.",
 "C20": "the reported flows of each compound node's interface are fixed in the elementary arrangement, an LP asks for feasibility and for its least cost: both must agree. Shares, losses, delays, limits and costs per piece, least flows and slots included.",
 "C21": "LP with explicit weighted-sum and ratio rows; sums over the history for storages.",
 "C22": "the known history (driven models), and for random networks an observer within the same run.",
 "C23": "the statistic computed by NumPy from the known history.",
 "C24": "accounting by calendar of the known history.",
 "C25": "maximal runs of the trigger, found independently per scenario.",
 "C26": "everything read back with PyTables/pandas/csv and compared with what was observed in memory, with buffers, re-runs and early finish.",
 "C27": "each evaluation of the optimiser's problem equals a fresh model with the variables' values written in the document.",
 "C28": "each sub-model equals a stand-alone run whose foreign inputs are replaced by the recorded series of the other model, with or without a lag depending on the documented order.",
 "C29": "failure is monotone in the searched value, so the true limit is known in closed form; the result must lie within the tolerance.",
 "C30": "hashlib; every kind of component that reads files.",
 "C31": "stateful: a dictionary/graph model receives the same operations; a fresh model gives the results; brute-force enumeration gives the routes.",
 "C32": "the hydropower equation and its inverse.",
 "C33": "the definitions of RMSE, Nash-Sutcliffe etc.; SciPy's gaussian_kde.",
 "C34": "a layered-aquifer model (levels, streams, abstraction) stepped independently.",
 "C35": "the nodes, edges, positions and attributes of the document; sums of route flows over steps and scenarios.",
 "C38": "the format itself: each of 30 kinds of fault, put at a random place into a random valid document (tables of needed and matching values for 100 types), must raise at loading or set-up; afterwards the sound document is loaded and run.",
 "C37": "the documented protocol as a list of groups of calls with free order inside a group except for dependencies; a formula for the values; for errors, the identity of the exception, the closed files up to the failing step, and a fresh model for the next run.",
 "C36": "a freshly built model of the same document with the changed values; where one of the two is infeasible, the reference LP says how nearly.",
}

LEFT = {
 "C38": "a second node of the same name (the last one counts), unknown keys of scenarios, the timestepper and the top of a document, which are accepted today; lists where any number is meaningful; which error is raised.",
 "C37": "which parts are finished after an error in a set-up is not asserted (they were not all prepared); the index of a user-defined index parameter may be asked for more than once.",
 "C01": "networks whose feasibility hangs on less than 0.01 (GLPK's presolver accepts 0.001); `use_presolve` is not combined with numbers below 0.01 for the same reason; a GLPK 'singular basis' without `retry_solve` is tagged undecided.",
 "C03": "a maximum that moves below the volume is not required to be met at once; with lpsolve, storages are not lifted far above their range (it warm-starts badly with huge bounds); a storage connected only to itself is refused by pywr, the generator connects it.",
 "C04": "lpsolve is compared only where it is documented to work (constant aggregate factors and bounds); ties in gates (several optima in spite of perturbed costs) are broken in the generator (`compound.gates`).",
 "C05": "DelayNode with a limited outlet is infeasible by construction and was the generator's fault; an event table without events has no value column.",
 "C06": "`finish` without a completed step and a changed period without a new set-up count as misuse.",
 "C07": "paths given for dicts must exist; inline recorders need names of their own.",
 "C09": "a RBF profile's smoothness is judged only by its definition at the days; nothing else.",
 "C14": "files with entries every 7 or 14 days are inferred to be weekly (excluded); periods that the data cover partially may be averaged or refused; inline `data` only where the loader supports it; up-sampling from quarters and years to months is refused by pywr.",
 "C16": "a minimum raised above the volume is infeasible by definition (undecided).",
 "C17": "the renewal of a 29 February date in common years happens on 1 March; a renewal to the maximum uses the maximum of the previous step (accepted design); the share of a licence that never became active while its maximum depends on the scenario is the document's value and unasserted.",
 "C19": "FlowParameter accepts only nodes of the solver, not the compound ones without flow of their own.",
 "C20": "a LossLink with gross factor 1.0 overwrites its net limit (not generated); a key clash in the harness was corrected.",
 "C22": "the first network oracle compared two runs whose optima are not unique: replaced by an observer in the same run; the 366-row table of daily profile recorders is not part of whole-model tables.",
 "C24": "calendar weeks and quarters that cross the turn of the year (the split of days is the known finding of C08).",
 "C26": "places in files which clash with parameter names; the observer has to look after the parameters' `after`.",
 "C27": "GLPK's presolver tolerance (0.001): not used in whole models; aggregated recorders over event or rolling recorders have no values.",
 "C28": "documents without a clock can not be loaded (harness error), nor do defaults of the solver name carry over.",
 "C29": "a limit within the tolerance of the lower bound may be reported as 'nothing found'.",
 "C30": "digests are remembered per model, by design.",
 "C31": "RiverSplit without costs has ties, so costs are given; LossLink adds two unnamed constants at each set-up (ignored). First the repair set models dirty for every late component; two existing tests rely on late recorders being ignored, so only parameters do, and late recorders are a known finding.",
 "C32": "`turbine_elevation=None` is not accepted by the loader (not generated); head 0 with target 0 is unasserted.",
 "C33": "observations every few weeks or months are refused by the resampling (n=1 only); the normalised density is tabulated on 0..1 only.",
}

PLANTED = {
 "c28-dirty": " - missed at first; coupled models are now run again for other periods",
 "c37-finish": " - missed at first; user-defined nodes are now also parts of other nodes",
 "c22-small": " - missed at first; the known flows are now sometimes below 0.01",
 "c21-minus": " - missed at first; aggregated nodes now also have negative weights and minima",
 "c13-pc": " - missed at first; stores without capacity are now generated",
 "c35-threshold": " - missed at first; thresholds now equal flows, and flows are exactly zero",
 "c04-constant": " - missed at first; minimum flows are now also parameters",
 "c11-near": " - missed at first; curves now come within 1/256 of each other",
 "c16-refill": " - missed at first; virtual storages may now be filled by all of their nodes",
 "c19-delta": " - missed at first; a last run now has time-steps of another length",
 "c20-mrf": " - missed at first; networks are now also made by hand, and a second generator makes compound nodes the bottleneck",
 "c31-routes": " - missed at first; routes are now also searched in fixed networks of several domains",
 "c01-tiny": " - missed at first; the generator now has values below 0.001",
 "c09-march": " - missed at first; draw-down profiles now reset near the ends of months and years",
 "c17-scen": " - missed at first; licences now have maxima per scenario",
}

TAIL = """## How the machinery was tested

* **Planted bugs** (`seeded/`): written from the text of a property and the code, each confirmed to build, to pass the
  stable tests, and to fail its own demonstration. They are listed with their property above; each is caught by the quick
  check of its property (`tools/mut.py` applies one in a clone of /repo, builds, runs the stable tests, the demonstration and the
  check), unless a remark says otherwise.
* **Mutant schemata**: 634 syntactic mutants (conditions negated or fixed, statements removed, constants and operators
  changed), sampled over pywr's Python and Cython sources, were compiled into one build of a clone and switched on one at a time by an
  environment variable; each was run against short runs of the checks mapped to its file. Those that stayed quiet were judged by hand: either equivalent (removal of dead code, values that are
  recomputed, tolerance-level differences), or a gap, which was closed by strengthening a generator. Closed in this way among others: models made by the
  Python API in C29, least flows of BreakLink, River and LossLink, and default slot names in C20, maxima per scenario in C17, environment
  variables of the solver in C04.
* **Seeds**: the checks were run with several values of `VERIF_SEED` and in the thorough tier on the unchanged tree.

## Repairs in /repo

Each is one `fix:` commit, listed with the property whose check found it (above) and in `known_findings.json` under
`fixed`. All stable tests pass with them, unedited.
"""
