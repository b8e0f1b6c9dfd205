#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe,
        "hook_needed": hook,
    }
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": anchors,
        }
    )


GLPK = "pywr/solvers/cython_glpk.pyx"
LPS = "pywr/solvers/cython_lpsolve.pyx"
CORE = "pywr/_core.pyx"
MODEL = "pywr/_model.pyx"
NODES = "pywr/nodes.py"
PAR = "pywr/parameters/_parameters.pyx"
PPY = "pywr/parameters/parameters.py"
CC = "pywr/parameters/_control_curves.pyx"
THR = "pywr/parameters/_thresholds.pyx"
REC = "pywr/recorders/_recorders.pyx"
RPY = "pywr/recorders/recorders.py"

prop(
    "C01",
    "Every allocation is a least-cost solution of the documented problem",
    "In every time-step and scenario the flows a model reports have the smallest total cost of all flows that satisfy "
    "the documented constraints (node flow bounds, storage volume bounds scaled by the time-step length, conservation "
    "through the network), where costs, bounds and volumes may vary in time. If no flows satisfy the constraints the run "
    "raises an error instead of reporting an allocation.",
    ["inputs", "configurations"],
    "All networks of inputs, links, outputs and storages (any shape of graph, several routes between the same nodes, "
    "positive, zero and negative costs, minimum flows, storages at any level), every solver and solver option, every "
    "time-step length.",
    "The tests run a few dozen hand-written networks with a known answer; optimality is a claim over all networks, costs and volumes.",
    [GLPK, LPS, CORE, "docs/source/formulation.rst"],
    [("route based LP", GLPK + ": CythonGLPKSolver"), ("edge based LP", GLPK + ": CythonGLPKEdgeSolver"),
     ("lpsolve LP", LPS + ": CythonLPSolveSolver")],
    ["Node.flow after Model.step()", "Storage.volume"],
)
prop(
    "C02",
    "Reported flows obey bounds and conserve water through the network",
    "After every time-step each node's reported flow lies within its minimum and maximum flow for that time-step and scenario, "
    "and the reported node flows can be explained by non-negative flows on the connections that enter and leave each node in "
    "equal amounts. When route flows are saved they are non-negative and sum to the reported flow of every node on them.",
    ["inputs", "configurations", "histories"],
    "All networks, time-varying and scenario-varying bounds, all solvers, every time-step of a run.",
    "Existing tests look at selected nodes of small fixed models; conservation is an invariant of every node at every time-step.",
    [GLPK, LPS, CORE],
    [("flow bound rows", GLPK + ": solve"), ("commit of solution to nodes", GLPK + ": _solve_scenario"), ("bounds", CORE + ": Node")],
    ["Node.flow", "solver.routes_flows_array"],
)
prop(
    "C03",
    "Storage volumes follow from flows, time-step length and bounds",
    "A storage starts at its configured initial volume and after every time-step its volume equals the previous volume plus net "
    "inflow times the time-step length in days, always within its minimum and maximum volume. The reported proportional volume "
    "is that volume divided by the maximum volume in force, and the storage's reported flow is the net of its inputs and outputs.",
    ["histories", "inputs"],
    "All storages (several inlets and outlets, constant or parameterised bounds, absolute or proportional initial volume), all time-step lengths including calendar months, all scenarios.",
    "Tests check mass balance for daily steps on one or two fixed reservoirs.",
    [CORE, NODES],
    [("volume update", CORE + ": Storage.after"), ("initial state", CORE + ": Storage._reset_storage_only"), ("available volume bounds", GLPK + ": solve")],
    ["Storage.volume", "Storage.current_pc", "Storage.flow", "Storage.get_level", "Storage.get_area"],
    state=[("_volume", "volume per scenario", CORE + ": AbstractStorage")],
)
prop(
    "C04",
    "All solvers and solver options give the same answer",
    "For any model supported by both, the route based and edge based GLPK solvers and the lpsolve solver reach the same total cost in "
    "every time-step and, where the least-cost allocation is unique, the same flows and volumes. Options that only change how the "
    "problem is solved (unsafe interface, presolve, caching of constant costs, flows or factors) never change results, and the solver and options given in the document or else the environment are the ones in use.",
    ["configurations", "inputs"],
    "All models, all combinations of solver and documented solver option, across repeated runs.",
    "The test-suite is run per solver on the same fixed expectations, results are never compared with each other on other inputs.",
    [GLPK, LPS, "pywr/solvers/__init__.py"],
    [("solver classes", GLPK), ("solver classes", LPS), ("option handling", GLPK + ": __init__")],
    ["Node.flow", "Storage.volume", "ModelResult"],
)
prop(
    "C05",
    "Scenarios do not influence each other and are selected exactly",
    "The results of a scenario combination are the same whether it is run together with others or on its own. Slices and user defined "
    "combinations run exactly the selected combinations, in order, with the same results as the full set, and every labelled output "
    "maps a result to the combination that produced it.",
    ["configurations", "inputs"],
    "All numbers, sizes and names of scenarios, slices, user combinations (repeats and any order), models with state (storages, licences, memory).",
    "Tests use one or two scenarios with hand-computed values; independence is a relation between runs.",
    [CORE, GLPK, PAR],
    [("combinations", CORE + ": ScenarioCollection"), ("per scenario solve", GLPK + ": solve")],
    ["Node.flow", "Recorder.to_dataframe()", "ScenarioCollection.multiindex", "ScenarioCollection.combinations"],
)
prop(
    "C06",
    "Re-running a model reproduces the same results",
    "Running a model again, running it after an earlier run was only partly completed, and stepping it manually to the end "
    "all give exactly the results of a single fresh run, for every node, parameter and recorder. A model's results depend only on its "
    "definition, not on what was run before.",
    ["histories", "programs"],
    "All sequences of run, step, reset and finish on models built from all stateful components.",
    "Tests re-run a handful of specific models; state left behind shows only for particular components and histories.",
    [MODEL, CORE, PAR, REC, NODES],
    [("reset protocol", MODEL + ": Model.reset"), ("component reset", "pywr/_component.pyx"), ("timestepper reset", "pywr/timestepper.py")],
    ["Model.run()", "Model.step()", "Model.reset()", "Recorder.data", "Recorder.values()"],
)
prop(
    "C07",
    "A JSON document's meaning does not depend on its layout",
    "Loading a model document gives the same model whatever the order of its nodes, parameters, recorders, tables and keys, whether components are "
    "defined inline or referenced by name, and whether the document is given as file, text or dictionary. Splitting it over include files changes nothing, "
    "every section is taken in exactly once, and the caller's dictionary is never modified.",
    ["inputs", "configurations"],
    "All documents: permutations of every section and splits into includes; forward references between parameters, nodes, storages and recorders.",
    "Tests load fixed documents in one order.",
    [MODEL, PAR, NODES, REC, "docs/source/json.rst"],
    [("deferred loading", MODEL + ": load_from_dict"), ("includes", MODEL + ": _load_includes"), ("load_parameter", PAR), ("load_recorder", REC), ("node loading", NODES + ": Loadable")],
    ["Model.load", "Model.loads", "Model.load_from_dict", "results of Model.run()"],
)
prop(
    "C08",
    "Time-steps tile the simulation period with correct calendar attributes",
    "The time-steps of a run are consecutive, cover the requested period and are numbered from zero; each reports the true length in days, "
    "date, day of year, leap-aware profile day, week and year-crossing days of the period it stands for. Changing start, end or step takes effect on the next run.",
    ["inputs"],
    "All start and end dates (leap years, century years, year ends), all steps: day counts, timedeltas, hours, weeks, months, quarters, years.",
    "Tests use a few dates around a single leap year.",
    ["pywr/timestepper.py", CORE],
    [("Timestepper", "pywr/timestepper.py"), ("Timestep attributes", CORE + ": Timestep")],
    ["Timestepper iteration", "Timestep attributes"],
)
prop(
    "C09",
    "Profile parameters return the entry for the calendar position",
    "Daily, weekly, monthly (stepwise or interpolated), harmonic, radial-basis and drawdown profiles return, for every date, the documented "
    "entry or formula evaluated at that date; 29 February has its own daily entry and never shifts later days. Per-scenario profiles use the row of the current scenario.",
    ["inputs"],
    "All dates of leap and common years, all profile values, all time-step lengths.",
    "Tests check one or two years for fixed profile values.",
    [PAR, PPY],
    [("profile lookups", PAR + ": DailyProfileParameter, WeeklyProfileParameter, MonthlyProfileParameter, RbfProfileParameter, UniformDrawdownProfileParameter, AnnualHarmonicSeriesParameter"), ("Timestep.dayofyear_index/week_index", CORE)],
    ["Parameter.get_value", "NumpyArrayParameterRecorder.data"],
)
prop(
    "C10",
    "Composite parameters equal their formula over current input values",
    "Any nesting of arithmetic and aggregating parameters (sum, product, mean, median, min, max, difference, quotient, negation, offset, limits, index selections, custom "
    "functions, discounting) yields in each time-step and scenario exactly the value of that formula applied to its inputs' values of the same time-step. "
    "Every input is evaluated before anything that uses it, and circular definitions are rejected.",
    ["programs", "inputs"],
    "All directed acyclic graphs of such parameters with shared inputs, all values including negative, zero and large; all definition orders.",
    "Tests use single-level expressions; evaluation order matters only in deep or oddly ordered graphs.",
    [PAR, PPY, "pywr/_component.pyx", MODEL],
    [("evaluation order", MODEL + ": flatten_component_tree"), ("calc_values", PAR + ": Parameter"), ("formulas", PAR)],
    ["Parameter.get_value", "IndexParameter.get_index", "NumpyArrayParameterRecorder.data"],
)
prop(
    "C11",
    "Control curves select and interpolate by current storage",
    "A control-curve parameter returns the value (or index, or parameter) of the band that the storage's volume at the start of the time-step falls in, a volume "
    "exactly on a curve counting as above it; interpolating kinds are continuous piecewise-linear functions through the documented points at the curves, full and empty. "
    "Curves, values and storage are those of the same time-step and scenario.",
    ["inputs", "histories"],
    "All storage levels (including exactly on a curve, empty and full), any number of ordered curves, varying curves and values, all scenarios.",
    "Tests step a reservoir through a few levels.",
    [CC, CORE],
    [("band lookup", CC), ("get_current_pc", CORE)],
    ["Parameter.get_value", "IndexParameter.get_index"],
)
prop(
    "C12",
    "Threshold parameters apply their predicate, and ratchets latch",
    "A threshold parameter returns its second value exactly when the compared quantity (storage volume, previous flow, parameter, recorder, year or date) satisfies the predicate against the "
    "threshold of that time-step and scenario, with the documented result on the first time-step; a ratchet stays triggered from the first time it triggers to the end of the run, per scenario. "
    "Multi-threshold indices count down the documented bands.",
    ["inputs", "histories"],
    "All predicates, thresholds (constant or varying), values around and exactly at the threshold, all run histories and scenarios.",
    "Tests cover each predicate on one small series and a single scenario.",
    [THR],
    [("predicate and ratchet", THR + ": AbstractThresholdParameter"), ("multiple thresholds", THR + ": MultipleThreshold*")],
    ["Parameter.get_value", "IndexParameter.get_index"],
)
prop(
    "C13",
    "Function parameters equal their mathematical definition",
    "Interpolation, quadrature, polynomial, piecewise-integral and activation-function parameters return the value of the documented "
    "function at the current value of their input (parameter, storage volume or proportional volume, or previous flow), including scaling, offsets and behaviour outside the data range.",
    ["inputs"],
    "All breakpoints, coefficients and inputs, including at breakpoints and out of range.",
    "Tests evaluate a couple of points per function.",
    [PAR, PPY, "pywr/parameters/_polynomial.pyx", "pywr/parameters/_activation_functions.pyx"],
    [("interpolation", PPY + ": Interpolated*"), ("polynomials", "pywr/parameters/_polynomial.pyx"), ("activation", "pywr/parameters/_activation_functions.pyx"), ("integral", PAR + ": PiecewiseIntegralParameter")],
    ["Parameter.get_value"],
)
prop(
    "C14",
    "Time-series inputs are aligned to model time-steps",
    "A model driven by a data table uses, in each time-step, the table's value (or the documented aggregate or forward fill) for exactly the dates of that time-step, "
    "whatever span or finer or coarser frequency the table has and wherever the simulation starts. Missing or unalignable data raises an error before results are produced; a time-step offset reads the documented neighbouring entry.",
    ["inputs", "configurations"],
    "All table start dates, lengths and frequencies against all model periods and steps; tables given inline, by reference or as files (CSV, Excel, HDF); array and tabular inputs with offsets.",
    "Tests use a few files with fixed dates.",
    ["pywr/dataframe_tools.py", PAR],
    [("align_and_resample_dataframe", "pywr/dataframe_tools.py"), ("DataFrameParameter, TablesArrayParameter, ArrayIndexedParameter", PAR), ("load_dataframe", "pywr/dataframe_tools.py")],
    ["Parameter.get_value", "align_and_resample_dataframe"],
)
prop(
    "C15",
    "Scenario-dependent inputs use the entry of the current scenario",
    "Every parameter holding one entry per scenario member (constants, index values, series, tables, profiles, wrapped parameters, monthly factors) returns in each combination the entry "
    "of that combination's member, independent of the number and order of other scenarios, of slices and of user defined combinations. A number of entries that does not match the scenario is rejected.",
    ["inputs", "configurations"],
    "All scenario sets, sizes, slices (with steps and open ends) and user combinations, for every scenario-aware parameter.",
    "Tests use two scenarios and one slice.",
    [PAR, PPY, CORE],
    [("scenario index lookup", PAR + ": *Scenario* parameters"), ("slice handling", PAR + ": TablesArrayParameter, DataFrameParameter"), ("ScenarioCollection", CORE)],
    ["Parameter.get_value", "NumpyArrayParameterRecorder.data"],
)
prop(
    "C16",
    "Virtual storages account for and limit the flow of their nodes",
    "A virtual storage's volume falls by the factor-weighted flow of its nodes times the time-step length and never leaves its bounds, so the total use over a run is "
    "limited to what it held; while active it constrains the nodes and while inactive it neither constrains nor is charged. Its nodes are otherwise unaffected.",
    ["inputs", "histories"],
    "All sets of nodes and factors (nodes shared by several virtual storages, positive and negative factors), all time-step lengths and solvers.",
    "Tests cover one licence on one or two nodes with daily steps.",
    [CORE, NODES, GLPK, LPS],
    [("VirtualStorage.after", CORE), ("virtual storage rows", GLPK + ": solve"), ("active windows", NODES + ": SeasonalVirtualStorage")],
    ["VirtualStorage.volume", "Node.flow"],
)
prop(
    "C17",
    "Periodic licences renew exactly at their renewal dates",
    "Annual, monthly and seasonal virtual storages return to their renewal volume on the first time-step on or after each renewal date and at no other time, and seasonal ones apply "
    "only inside their season; a rolling virtual storage limits the use within any window of its length by returning each time-step's use exactly one window later.",
    ["histories", "inputs"],
    "All renewal dates (including 29 February and dates falling between time-steps), multi-year runs, all start dates, time-step lengths, window lengths and initial volumes.",
    "Tests cover a couple of reset dates in one or two years.",
    [NODES, CORE],
    [("AnnualVirtualStorage, MonthlyVirtualStorage, SeasonalVirtualStorage, RollingVirtualStorage", NODES), ("RollingVirtualStorage", CORE)],
    ["VirtualStorage.volume", "Node.flow"],
    state=[("_last_reset_year", "year of last renewal", NODES), ("_memory", "ring buffer of past use", CORE)],
)
prop(
    "C18",
    "Licence parameters apportion the remaining annual allowance",
    "An annual licence limits each day to the allowance not yet used in the calendar year divided by the days remaining in it, so, for time-steps that do not cross the turn of the year, a calendar year's use never exceeds the allowance, and the allowance renews at the turn of the year; "
    "its exponential and hyperbolic variants equal the documented function of that remaining share, and a daily licence is its constant amount.",
    ["histories", "inputs"],
    "All allowances, demand histories, multi-year runs with leap years, time-step lengths and scenarios.",
    "Tests follow one licence through one year.",
    ["pywr/parameters/licenses.py"],
    [("AnnualLicense", "pywr/parameters/licenses.py"), ("StorageLicense.after", "pywr/parameters/licenses.py")],
    ["Parameter.get_value", "Node.flow"],
)
prop(
    "C19",
    "Components that look back see exactly the past flows",
    "Previous flow, delayed flow, rolling mean flow, previous deficit, previous storage and delay nodes report the node's flow (or its function) of exactly the documented number of time-steps earlier, with the configured initial value before enough time has passed. "
    "This holds for every kind of node and in every scenario.",
    ["histories", "inputs"],
    "All flow series, delays and window lengths (longer than the run too), all node types including compound and aggregated ones, all scenarios and time-step lengths.",
    "Tests check ramps with one delay on plain nodes.",
    [PAR, CORE, NODES],
    [("FlowDelayParameter, RollingMeanFlowNodeParameter, FlowParameter, DeficitParameter", PAR), ("prev_flow", CORE + ": AbstractNode.after"), ("DelayNode", NODES)],
    ["Node.prev_flow", "Parameter.get_value"],
    state=[("_prev_flow", "flow of the previous time-step", CORE)],
)
prop(
    "C20",
    "Compound nodes behave like the network they stand for",
    "Piecewise links, multi-splits, river splits and gauges, loss links, break links, river reaches, catchments, delay nodes and reservoirs allocate water exactly as the documented arrangement of elementary nodes, costs, shares and losses would, "
    "and report the flow of that arrangement. Shares between slots keep their documented ratio and losses are the documented fraction of net or gross flow.",
    ["inputs", "configurations"],
    "All step sizes, costs, split factors (constant or varying), loss factors of both kinds, minimum residual flows, combined in any network and solver.",
    "Tests cover each node alone in one network.",
    [NODES, "pywr/domains/river.py", "pywr/domains/groundwater.py", CORE],
    [("sub-node construction", NODES), ("RiverGauge, RiverSplit", "pywr/domains/river.py"), ("factor constraints", GLPK)],
    ["Node.flow", "total cost"],
)
prop(
    "C21",
    "Aggregated nodes constrain and report the sum of their members",
    "An aggregated node reports the weighted sum of its members' flows, keeps the members' flows in the ratio of its factors (constant or varying) when given, and keeps that weighted sum within its minimum and maximum; an aggregated storage reports the sum of its members' "
    "volumes and the corresponding share of their combined maximum at all times. These are the only restrictions it adds.",
    ["inputs", "configurations", "histories"],
    "All member sets (in series and in parallel on the same routes, storages), weights, factors, bounds, solvers and histories.",
    "Tests have two parallel members and constant factors.",
    [CORE, GLPK, LPS],
    [("AggregatedNode, AggregatedStorage", CORE), ("aggregated rows", GLPK + ": setup"), ("aggregated rows", LPS)],
    ["AggregatedNode.flow", "AggregatedStorage.volume", "Node.flow"],
)
prop(
    "C22",
    "Series recorders store exactly what happened",
    "Every time-series recorder (flow, scaled flow, cost, deficit, supplied and curtailment ratio, volume, proportional and normalised volume, level, area, parameter, index) holds for each time-step and scenario the value observed at the end of that time-step, "
    "and its table output labels it with that date and combination.",
    ["histories", "inputs"],
    "All models, time-steps, scenario sets, and all recorder kinds, including zero maximum flows.",
    "Tests compare constant series at a few indices.",
    [REC, RPY],
    [("after() of NumpyArray* recorders", REC), ("to_dataframe", REC)],
    ["Recorder.data", "Recorder.to_dataframe()", "Model.to_dataframe()"],
)
prop(
    "C23",
    "Summary recorders equal the statistic of the recorded series",
    "Totals, means, deficits, failure frequencies, minima, threshold flags, duration curves, curve deviations and rolling statistics equal that statistic computed from the full series of the run, per scenario. "
    "Aggregation over time, recorders and scenarios applies exactly the named function, ignoring missing values only when asked to, and constraint bounds are judged on that aggregate.",
    ["inputs", "histories"],
    "All series, percentiles, factors, windows, time-step lengths, aggregation functions (including percentile and custom) and scenario sets.",
    "Tests use short constant series and a few functions.",
    [REC, "pywr/recorders/calibration.py", "pywr/recorders/kde.py"],
    [("Aggregator", REC), ("finish()/values()", REC), ("AggregatedRecorder", REC), ("constraint checks", REC + ": Recorder.is_constraint_violated")],
    ["Recorder.values()", "Recorder.aggregated_value()", "Recorder.is_constraint_violated()", "Model.is_feasible()"],
)
prop(
    "C24",
    "Calendar-based recorders attribute each day to the right period",
    "Recorders that count or total by year or season assign every time-step (and, for flow volumes, every day of a time-step that crosses the turn of the year) to the year or season it belongs to, count each time-step at most once, honour excluded months and date windows, and have one entry for each calendar year of the run.",
    ["inputs", "histories"],
    "All run periods (partial first and last years, leap years), time-step lengths, thresholds, months and date windows, scenario sets.",
    "Tests use one or two calendar years.",
    [REC],
    [("AnnualCountIndexThresholdRecorder, AnnualTotalFlowRecorder, AnnualCountIndexParameterRecorder, SeasonalFlowDurationCurveRecorder", REC)],
    ["Recorder.data", "Recorder.values()", "Recorder.to_dataframe()"],
)
prop(
    "C25",
    "Event recorders find exactly the maximal triggered periods",
    "The recorded events are exactly the maximal consecutive runs of triggered time-steps in each scenario that reach the minimum length (a run still open at the end is closed there), with their true start, end, tracked values, durations and statistics. Scenarios without events report no value.",
    ["inputs", "histories"],
    "All trigger series and scenarios, minimum lengths, triggers by parameter, index parameter or recorder, adjacent events, events open at the start or end.",
    "Tests use sine-like series with one or two events.",
    ["pywr/recorders/events.py", "pywr/recorders/_thresholds.pyx"],
    [("EventRecorder.after/finish", "pywr/recorders/events.py"), ("EventDurationRecorder, EventStatisticRecorder", "pywr/recorders/events.py")],
    ["EventRecorder.events", "EventRecorder.to_dataframe()", "values()"],
)
prop(
    "C26",
    "Results written to files read back as the results of the run",
    "HDF5 and CSV outputs contain, for every requested node, parameter, index and route, exactly the in-memory results of each time-step and scenario with the correct dates and scenario labels, for any buffer size, compression and re-run. Reading a file back with the provided helper returns those values.",
    ["inputs", "configurations", "histories"],
    "All sets of nodes and parameters, names, buffer lengths, run lengths, scenario slices and combinations, repeated runs to the same file.",
    "Tests write a few small models and re-run rarely.",
    [RPY, "pywr/recorders/_tables_recorders.pyx", "pywr/h5tools.py"],
    [("TablesRecorder", RPY), ("TablesRecorder2 buffering", "pywr/recorders/_tables_recorders.pyx"), ("CSVRecorder", RPY)],
    ["HDF5 file", "CSV file", "generate_dataframes"],
)
prop(
    "C27",
    "Optimisers see a faithful view of the model",
    "Setting the decision variables of a model changes exactly those parameters to exactly those values, reading them returns what was set, and bounds match the variables in number and order. The objectives and constraints given to an optimiser equal, with the required sign and form, the values of a run with those variables, regardless of what was evaluated before.",
    ["inputs", "histories"],
    "All variable parameters (real and integer, mixed), values, objective directions, constraint kinds (lower, upper, double, equality), evaluation sequences, both optimiser interfaces.",
    "Tests evaluate a couple of toy problems.",
    ["pywr/optimisation/__init__.py", "pywr/optimisation/platypus.py", "pywr/optimisation/pygmo.py", PAR, REC],
    [("get/set variables", PAR), ("wrappers", "pywr/optimisation"), ("constraint classification", REC + ": Recorder")],
    ["Parameter.get_double_variables()", "PlatypusWrapper.evaluate", "PygmoWrapper.fitness"],
)
prop(
    "C28",
    "Coupled models run in lock-step and exchange current values",
    "Running several models together gives each the results it has when run alone if they are not linked; where one reads another's flow, volume or parameter it sees the value of the same time-step if the other runs earlier, and of the previous time-step otherwise. The shared period and step apply to all, "
    "and every model's recorders finish as in a stand-alone run.",
    ["programs", "configurations"],
    "All numbers and orders of sub-models, link kinds, scenario sets, periods and steps.",
    "Tests couple two fixed models.",
    ["pywr/model.py", "pywr/parameters/multi_model_parameters.py", NODES],
    [("MultiModel.run", "pywr/model.py"), ("OtherModel* parameters", "pywr/parameters/multi_model_parameters.py"), ("shared timestepper", "pywr/model.py: load_from_dict")],
    ["MultiModel.run()", "recorders of each sub-model"],
)
prop(
    "C29",
    "The bisection search returns the largest feasible value",
    "For a model whose feasibility is monotone in one parameter, the search ends with a feasible value within the tolerance of the true limit and leaves the model's reported results those of that value; if the lower bound is already infeasible, or the set-up is invalid, it says so. It never exceeds the bounds.",
    ["inputs"],
    "All limits relative to bounds (below, inside, above), tolerances, growing and shrinking feasibility, parameter kinds.",
    "Tests run one document with one limit.",
    ["pywr/utils/bisect.py"],
    [("BisectionSearchModel.run", "pywr/utils/bisect.py")],
    ["BisectionSearchModel.run()", "parameter value afterwards"],
)
prop(
    "C30",
    "Data files are accepted exactly when their checksum matches",
    "A data file declared with checksums is used if and only if every declared digest is the digest of its whole content (which a model determines once per file and algorithm), whatever the algorithm, letter case or earlier checks of this or other files; otherwise loading fails and names the file. Unknown algorithms and missing files fail as well.",
    ["inputs", "fault_sequences"],
    "All contents, sizes, algorithms, single-byte corruptions and orders of checks.",
    "Tests check one good and one bad digest of fixed files.",
    ["pywr/hashes.py", MODEL, "pywr/dataframe_tools.py"],
    [("check_hash", "pywr/hashes.py"), ("Model.check_hash", MODEL), ("read_dataframe", "pywr/dataframe_tools.py")],
    ["Model.load", "check_hash"],
)
prop(
    "C31",
    "Editing the network keeps its structure consistent",
    "After any sequence of adding, renaming, connecting, disconnecting and removing nodes, parameters and recorders, look-ups by name, iteration, membership and connections agree with a simple model of what was done, duplicate names and invalid connections are refused without side effects, and the set of routes found is exactly the set of valid simple paths. "
    "Running the edited model equals running a freshly built one.",
    ["programs", "histories"],
    "All sequences of edits, interleaved with runs.",
    "Tests perform single edits.",
    [MODEL, CORE, "pywr/_component.pyx", NODES],
    [("NodeIterator, NamedIterator", MODEL), ("connect/disconnect", CORE), ("component graph", "pywr/_component.pyx"), ("find_all_routes", MODEL)],
    ["Model.nodes", "Model.edges()", "Model.parameters", "Model.recorders", "find_all_routes"],
)
prop(
    "C32",
    "Hydropower energy and target flow are consistent inverses",
    "Recorded power equals density times gravity times head times flow times efficiency with the documented unit conversions, where head is water elevation above the turbine and never negative, and total energy is its sum over days. "
    "The target parameter returns the flow that produces the target power, limited by its bounds and minimum head, so running at that flow generates the target.",
    ["inputs"],
    "All elevations, efficiencies, densities, conversions, flows, targets and bounds, time-step lengths and scenarios.",
    "Tests evaluate single points.",
    ["pywr/recorders/_hydropower.pyx", "pywr/parameters/_hydropower.pyx"],
    [("hydropower_calculation", "pywr/recorders/_hydropower.pyx"), ("inverse_hydropower_calculation", "pywr/parameters/_hydropower.pyx")],
    ["Recorder.data", "Recorder.values()", "Parameter.get_value"],
)
prop(
    "C33",
    "Calibration scores and density estimates match their definitions",
    "The error, bias, efficiency and deviation scores compare each modelled flow with the observation of the same date and equal their textbook formula in every scenario. "
    "Storage density recorders report the probability of being at or below the target under the described reflected kernel estimate.",
    ["inputs"],
    "All flow and observation series, observation spans and frequencies, scenario sets, targets, resampling options.",
    "Tests compare one series each.",
    ["pywr/recorders/calibration.py", "pywr/recorders/kde.py"],
    [("AbstractComparisonNodeRecorder", "pywr/recorders/calibration.py"), ("GaussianKDEStorageRecorder", "pywr/recorders/kde.py")],
    ["Recorder.values()", "Recorder.aggregated_value()", "to_dataframe()"],
)
prop(
    "C34",
    "Groundwater storages follow their level-volume and stream-flow laws",
    "A layered aquifer's level is the documented piecewise-linear, invertible function of its volume, and the stream flow it feeds is the documented sum over levels of transmissivity times head above the outlet. The aquifer otherwise behaves as a storage with those outlets.",
    ["inputs", "histories"],
    "All layer geometries, storativities, levels, transmissivities and recharge histories.",
    "Tests use one aquifer geometry.",
    ["pywr/domains/groundwater.py", "pywr/parameters/groundwater.py"],
    [("KeatingAquifer", "pywr/domains/groundwater.py"), ("KeatingStreamFlowParameter", "pywr/parameters/groundwater.py")],
    ["Storage.volume", "Storage.get_level", "Node.flow"],
)

prop(
    "C35",
    "Schematics and diagrams show the model's network and flows",
    "The schematic of a model, made from the model or from its document, has every node that is not virtual exactly once with its classes, position and attributes, and exactly the connections of the document, helper nodes standing for the node they belong to. The links of a route diagram are the saved route flows of the chosen time-steps and scenarios, aggregated by the given functions and summed by their ends, and aligned series keep exactly the common dates.",
    ["inputs"],
    "All networks of all kinds of nodes, attribute forms, slices and aggregation functions.",
    "Tests draw one model of four nodes and one route.",
    ["pywr/notebook/__init__.py", "pywr/notebook/sankey.py", "pywr/notebook/figures.py"],
    [("pywr_model_to_d3_json", "pywr/notebook/__init__.py"), ("pywr_json_to_d3_json", "pywr/notebook/__init__.py"), ("routes_to_sankey_links", "pywr/notebook/sankey.py"), ("align_series", "pywr/notebook/figures.py")],
    ["pywr_model_to_d3_json", "PywrSchematic.to_html", "routes_to_sankey_links"],
)

prop(
    "C36",
    "Values changed between runs take effect in the next run",
    "A model whose values were changed through their public setters between runs (limits, costs, volumes, factors, weights and members of nodes and virtual nodes, as numbers or parameters; curves, thresholds, values, operands and functions of parameters) gives the same results in its next run as a freshly built model that has had these values from the start, under every solver and every option, including those that set constants only once. Numbers set between two steps take effect in the next step.",
    ["histories", "configurations"],
    "All models, all sequences of runs and changes, all solvers and options.",
    "Tests change a value or two of one model under the default options.",
    [CORE, GLPK, NODES, PAR, "pywr/parameters/_control_curves.pyx", "pywr/_component.pyx"],
    [("property setters of Node, Storage, AggregatedNode, VirtualStorage", CORE), ("reset of the solvers", GLPK), ("GraphInterface", "pywr/_component.pyx")],
    ["Model.run", "Node.max_flow, min_flow, cost", "AggregatedNode.nodes, factors, flow_weights", "VirtualStorage.nodes, factors", "LossLink.loss_factor", "ControlCurveParameter.control_curves, values"],
)

prop(
    "C37",
    "User-defined parts are called as documented, also when a run fails",
    "Every node and component of a model, user-defined ones included, gets the documented calls: set up when the model has changed, reset at the start of every run, before and after every time-step and finished at the end, nodes before components and every component after those it depends on; a parameter's value is computed once per time-step and scenario from current values. An error raised by any part is the error the caller of the run sees, all parts are finished nevertheless, files hold the completed time-steps, and a next run gives the results of a run without the error.",
    ["histories", "crash points"],
    "All graphs of dependencies, histories of runs, steps, resets and changes, all places and times at which an error strikes.",
    "Tests check the order of calls of a few components and no failing run.",
    [MODEL, "pywr/_component.pyx", PAR, CORE],
    [("Model.run, step, setup, reset, before, after, finish", MODEL), ("flatten_component_tree", MODEL), ("Component, GraphInterface", "pywr/_component.pyx"), ("calc_values", PAR)],
    ["Model.run", "Model.step", "Model.reset", "Component.children", "Parameter.value", "Recorder.after"],
)

prop(
    "C38",
    "Documents that say what the format does not know are refused",
    "A model document with an error - a key that a node, parameter, recorder or solver does not know, an unknown type, solver, slot or file, a reference to a node, parameter, recorder, scenario or table that is not there or to itself, a needed value left out, numbers of values that do not fit each other, a period, time-step, scenario size or combination that cannot be - raises when it is loaded or set up: no node, parameter or recorder runs with settings that were ignored or made up, and the next document is loaded as ever.",
    ["inputs"],
    "All documents with one error of any of these kinds at any place.",
    "Tests try a few wrong documents of a few classes.",
    [MODEL, NODES, PAR, REC],
    [("Model.load, load_node, NodeMeta", MODEL), ("AbstractNode.__init__, VirtualStorage, AggregatedNode", CORE), ("load_parameter, Parameter.load", PAR), ("load_recorder, Recorder.load", REC), ("ScenarioCollection", CORE), ("Timestepper", CORE)],
    ["Model.load", "Loadable.load", "load_parameter", "load_recorder", "ScenarioCollection"],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps(p) + "\n")
print(len(P), "properties")
