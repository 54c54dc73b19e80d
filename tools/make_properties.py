"""writes properties.jsonl (kept as code so that the file stays well formed)"""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": s, "where": files[0]} for s in state]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PC = "causy/causal_discovery/constraint/algorithms/pc.py"
ORI = "causy/causal_discovery/constraint/orientation_rules/pc.py"
IND = "causy/causal_discovery/constraint/independence_tests/common.py"
GEN = "causy/generators.py"; G = "causy/graph.py"; GM = "causy/graph_model.py"
WS = "causy/workspaces/cli.py"; SER = "causy/serialization.py"; VAR = "causy/variables.py"
UI = "causy/ui/server.py"; DL = "causy/data_loader.py"; LOGIC = "causy/common_pipeline_steps/logic.py"

p("C01", "PC variants recover the true equivalence class from faithful data",
  "For every data set whose sample correlations exactly encode a faithful linear causal DAG, each bundled single-process PC variant (standard, classic and stable) terminates with exactly the CPDAG of that DAG: the same adjacencies, the same arrowheads, and edge types that agree with the arrowheads. The answer does not depend on the order or names of the columns, on the units or offsets of the variables, on the shape in which the data is passed in, or on which sensible significance threshold is configured.",
  ["inputs", "configurations"], "all DAGs, edge weights, variable orders/names/units/offsets, data shapes and thresholds, as long as every dependence implied by the DAG is detectable in the sample",
  "a unit test fixes a handful of graphs and weights; mistakes in search order, neighbour bookkeeping, separating sets or an orientation rule only show on particular structures",
  [PC, IND, ORI, GEN, GM, G, LOGIC],
  [("skeleton search", IND), ("collider and Meek rules", ORI), ("step execution and purge of removed edges", GM)],
  observe="graph of the executed model, read through its public access methods and its edge list")
p("C02", "Parallel PC gives the same graph under every worker schedule",
  "For every order and timing in which worker processes deliver their results, and for every sampling and shuffling decision, the parallel PC variant returns the same graph as sequential PC on data that exactly encodes a faithful DAG. Every removed adjacency is removed and recorded exactly once, no matter how many workers proposed it from outdated copies of the graph.",
  ["schedules", "inputs"], "all interleavings of task creation, worker execution on graph snapshots, and delivery of results, for all faithful data sets",
  "a test run sees the one schedule the operating system happened to pick on a tiny graph",
  [PC, GM, GEN, IND], [("unordered result collection", GM + ":execute_pipeline_step"), ("idempotent application of proposed actions", GM + ":_take_action")],
  observe="final graph and action history; boundary between the model and the process pool")
p("C03", "Independence decisions equal the textbook partial correlation tests",
  "Every decision of the bundled independence tests equals the textbook one on the full sample: the edge between two variables is proposed for removal exactly when the two-sided test of their (partial) correlation, given precisely the conditioning variables stated in the decision, does not reject at the configured threshold (Fisher z for the correlation, partial-correlation and matrix tests, Student t for the regression test). The recorded separating set is exactly the tested conditioning set, and the bundled PC algorithms decide at the threshold they are configured with in every one of their tests. Perfectly correlated, duplicated or constant columns and very small samples never make a test fail with an error.",
  ["inputs", "configurations"], "all numeric data sets, conditioning sets and thresholds",
  "tests sample a few correlations far from the decision boundary and never degenerate data",
  [IND, "causy/math_utils.py", "causy/common_pipeline_steps/calculation.py"],
  [("Fisher z and partial correlation", IND), ("t statistic", "causy/math_utils.py")],
  observe="actions proposed by each independence test step, including those which do nothing")
p("C04", "Reported correlations are the Pearson correlations of the data",
  "After the correlation step every edge, whether the graph is complete or not and whether the edge is undirected or directed, carries the Pearson correlation of its two variables over the full sample, identical in both directions, always a finite number within [-1, 1], and zero for a constant variable. It is unaffected by column order and by adding offsets, flips sign when one variable is negated and is invariant to positive rescaling.",
  ["inputs"], "all finite numeric data sets of at least two rows",
  "tests check a few well-conditioned columns; wrong normalisation, clamping or edge bookkeeping shows only for particular scales, sizes or degenerate columns",
  ["causy/common_pipeline_steps/calculation.py", GM, G], [("correlation step", "causy/common_pipeline_steps/calculation.py")],
  observe="edge metadata after the step")
p("C05", "Direct effects are the regression coefficients on all parents",
  "For every edge that ends up oriented, the reported direct effect is the coefficient of the cause in the least-squares regression (with intercept) of the effect on all of its parents in the final graph, that is on every variable with an edge into it (an undirected edge counts as an edge into both of its ends). Undirected edges carry no direct effect, and offsets of the data do not change any effect while units rescale it accordingly.",
  ["inputs"], "all data sets and all oriented graphs over their variables",
  "tests use centred data and small parent sets",
  ["causy/causal_effect_estimation/multivariate_regression.py", GEN, G], [("regression on parents", "causy/causal_effect_estimation/multivariate_regression.py")],
  observe="edge metadata of the final graph")
p("C06", "Orientation only orients: it keeps the skeleton, is justified and ends",
  "For every skeleton and every collection of separating sets, including mutually contradictory ones from noisy data, the orientation phase terminates, and afterwards two variables are adjacent exactly if they were adjacent before. Every unshielded triple whose middle node is outside the recorded separating set becomes a collider unless a conflicting collider was oriented, conflicts being resolved by the configured strategy, and if the separating sets come from a DAG (with or without further edges of it directed beforehand) the result is exactly the closure under the four Meek rules. Each of the four rules on its own also keeps every adjacency and every fixed direction, in every mixed graph whatsoever, and where a DAG explains the state it orients only what that closure orients and orients something whenever it applies. Edges whose direction is fixed are marked directed, all others undirected.",
  ["inputs", "configurations"], "all skeletons, separating sets, node orders and conflict strategies",
  "contradicting proposals need specific four- and five-node configurations which fixtures do not contain",
  [ORI, LOGIC, GM], [("collider rule with conflict handling", ORI), ("rule loop", LOGIC), ("application of orientations", GM)],
  observe="graph before and after the orientation steps")
p("C07", "The graph store behaves like a plain graph under every edit history",
  "For every sequence of adding, updating, removing (permanently or provisionally), purging and restoring directed and undirected edges, the graph answers every question about existence, direction, type, value, parents, siblings and edge list as an ordinary mixed graph subjected to the same edits would. A provisional removal is invisible to every query (except the one which asks for provisional removals) until purged and is completely undone by a restore, including the value and type of each direction; operations on unknown nodes and self loops are rejected without changing anything.",
  ["histories"], "all finite sequences of graph operations",
  "the forward, backward and deleted indexes can disagree only after particular sequences of mixed operations",
  [G, "causy/edge_types.py"], [("edge indexes and soft deletion", G)],
  state=["forward edges", "reverse edges", "deleted edges"], observe="public query methods")
p("C08", "Path, ancestor and descendant queries are correct on every graph",
  "For every graph, with removed edges ignored and cycles allowed, the descendant query returns the node and everything reachable through strictly directed edges, the directed-path test is true exactly if the target can be reached by following edges in their direction, the listing of directed paths returns every simple directed path exactly once, and the listing of paths ignoring direction returns every simple path exactly once. All of them terminate.",
  ["inputs", "histories"], "all graphs, including cyclic, mixed and partially removed ones, and all node pairs",
  "fixtures are small acyclic graphs",
  [G, "causy/edge_types.py"], [("recursive searches", G), ("directed path listing", "causy/edge_types.py")], observe="return values of the queries")
p("C09", "d-separation answers in DAGs are exact",
  "For every DAG, every pair of nodes and every conditioning set, given as nodes or as ids, the d-separation query answers true exactly if every path between the two nodes is blocked by the set, and rejects a conditioning set that contains one of the two nodes. The answer is symmetric in the two nodes.",
  ["inputs"], "all DAGs, node pairs and conditioning sets",
  "wrong answers need several colliders on a path or descendants of colliders; the number of combinations is exponential",
  [G], [("path blocking", G)], observe="return value of the query")
p("C10", "d-separation answers in CPDAGs hold in every represented DAG",
  "For every CPDAG, every pair of nodes and every conditioning set, the query for CPDAGs answers true exactly if the two nodes are d-separated given the set in every DAG of the equivalence class.",
  ["inputs"], "all CPDAGs, node pairs and conditioning sets",
  "needs paths of indefinite status, which fixtures rarely contain",
  [G], [("definite-status paths", G)], observe="return value of the query")
p("C11", "Generators enumerate exactly the intended node tuples, each once",
  "For every graph and configuration, the combination generator yields every subset of the configured sizes exactly once, the neighbour generator yields every existing ordered adjacent pair together with every set of further neighbours of its first node of the configured sizes exactly once, and the edge generator yields every existing directed connection exactly once. Chunking, shuffling and removed edges never lose, duplicate or invent a tuple, and the random sampler only ever yields tuples of the generator it wraps, each at most once, gives each of them a chance, and yields about the configured share (everything for 0).",
  ["inputs", "configurations"], "all graphs, size bounds, chunk sizes and shuffle settings",
  "off-by-one errors at bounds or chunk borders appear only for particular sizes",
  [GEN], [("generators", GEN)], observe="sequence of generated tuples")
p("C12", "The recorded history explains the graph exactly",
  "After any pipeline, replaying the recorded taken actions in order on the initial graph reproduces exactly the final graph, every recorded action is one of the proposed actions, actions which do not apply to the current graph change nothing and are not recorded as taken, and the per-edge histories agree with the global one. Applying results one by one, in chunks or together at the end of the step changes only when later decisions see them, never whether a proposed action is applied, and collecting several steps to apply them together leaves the graph untouched until all of them ran.",
  ["histories", "configurations", "programs"], "all pipelines, sequences of proposed actions and execution modes",
  "tests look at single steps; lost, duplicated or half-applied actions need mixed action sequences",
  [GM, LOGIC, "causy/models.py"], [("action application", GM + ":_take_action"), ("logic steps", LOGIC)],
  observe="proposals made by steps, recorded history, graph")
p("C13", "Variables resolve to the values given and never leak between runs",
  "For every algorithm with variable references at any depth, a model uses the given value for each supplied variable and the declared default for every other one, everywhere the variable is referenced and nowhere else. A value of the wrong type, outside the declared choices, or for an undeclared variable is rejected, as is a declaration whose default is not valid, a reference to an undeclared variable is rejected, and building models with different values from one definition never changes the definition or another model.",
  ["inputs", "histories"], "all algorithms, reference positions, value assignments and orders in which models are built",
  "leaks need several models built from one definition in a particular order",
  [VAR, GM, WS], [("resolution", VAR), ("model factory", GM + ":graph_model_factory")], observe="settings of the steps in the built model")
p("C14", "Saved algorithm definitions reload to the same algorithm",
  "For every algorithm assembled from the bundled steps, generators, logic blocks, edge types and variables, in any nesting and with any settings, writing its definition as JSON or YAML and loading it again yields an algorithm with the same definition and the same fingerprint, which produces the same graph on the same data. Settings and empty parts left out of a written definition take their defaults. Two algorithms that differ in any setting have different fingerprints.",
  ["programs", "inputs"], "all algorithms expressible with the bundled building blocks",
  "tests round-trip one or two pipelines without variables or nesting",
  [SER, "causy/graph_utils.py", "causy/interfaces.py", VAR, "causy/models.py"], [("definition loading", SER), ("constructor settings", "causy/interfaces.py")],
  observe="definition dictionaries and resulting graphs")
p("C15", "Stored results and the web API report exactly what was computed",
  "For every executed experiment, the stored result file, the result loaded from it and every API response built from it contain the same nodes, edges with direction, type and values, variables and full action history as the computed graph. The API lists exactly the stored versions newest first, serves precisely the requested version, treats the highest version as the latest (also while others are being stored or removed: what is served always carries its own version number), and answers unknown experiments or versions with an error instead of other data.",
  ["inputs", "histories"], "all results, experiment names, and sets of stored versions and unrelated files",
  "tests serve one fixture; mix-ups need similar experiment names, several versions and unusual metadata",
  [WS, SER, UI, "causy/ui/models.py", "causy/models.py"], [("result storage and versions", WS), ("routes", UI)], observe="files and HTTP responses")
p("C16", "Workspace commands keep the workspace file complete and consistent",
  "For every sequence of workspace commands, the workspace read back after each command equals the previous one with exactly the requested change, whatever names and values were entered: no entry is lost, altered in type or renamed. Pipelines and data loaders that an experiment uses cannot be removed, removing or clearing an experiment deletes exactly its own stored versions, and a rejected command leaves the workspace and all files unchanged.",
  ["histories", "inputs"], "all command sequences, names and values",
  "serialisation and reference problems depend on particular names, values and command orders",
  [WS, "causy/workspaces/models.py"], [("read-modify-write of the workspace file", WS)], observe="workspace directory after every command")
p("C17", "An interrupted save never damages stored state",
  "If the process is killed or a write fails at any point while the workspace or an experiment result is being saved, the workspace afterwards still loads as either the complete old or the complete new state, every previously stored result version is unchanged, and no partially written result is ever listed or served as a version. A command which reports success has stored its new state, and repeating an interrupted command succeeds.",
  ["crash_points", "fault_sequences"], "every system call and every written byte of a save",
  "tests never interrupt a write",
  [WS], [("saving of workspace and results", WS)], observe="workspace directory after the crash")
p("C18", "Experiments are re-executed exactly when something relevant changed",
  "For every history of executions and edits, running all experiments skips an experiment exactly if its latest stored result was produced with the same effective variable values, the same algorithm definition and the same data and loader options, and executes it otherwise, also if the stored result does not say what it was produced with or the data was edited while it was being computed. An experiment with an invalid variable value is rejected and stores nothing. A forced run always executes, and each execution adds a version without altering earlier ones.",
  ["histories"], "all sequences of executions and edits of variables, pipelines, data files and loader options",
  "stale results need particular edit sequences such as changing and reverting a value",
  [WS, DL, "causy/graph_utils.py", "causy/models.py"], [("fingerprint comparison", WS + ":_experiment_needs_reexecution")], observe="executed/skipped decision and stored versions")
p("C19", "Every data source yields the same variables and values",
  "For every table of numbers, loading it as a list of rows, as a dictionary of columns, or through a JSON, JSONL or dynamic data loader gives a graph with exactly the table's columns as nodes, each holding the column's values in row order as double precision numbers. The options of a dynamic loader reach it. Values that are not numbers and files that hold no table are rejected, and the fingerprint of a data source changes exactly when its content or options change.",
  ["inputs", "configurations"], "all tables, column names, orders of keys within rows, and source formats",
  "tests load one small file per format",
  [DL, GM], [("graph creation from data", GM), ("loaders", DL)], observe="nodes of the created graph, loader fingerprint")
p("C20", "Generated sample data obeys the declared structural equations",
  "For every acyclic set of weighted edges the sample generator returns data in which each variable equals its own noise plus the weighted sum of its parents, together with a graph containing exactly the declared nodes and edges, and cyclic declarations are rejected. For every lagged declaration the time series satisfies the recursion at every time step after the longest lag, starts from the stationary spread of the process, and the unrolled graph contains exactly the lagged edges.",
  ["inputs"], "all edge declarations, weights, lags, sizes and noise sources",
  "tests use constant noise and two or three variables",
  ["causy/sample_generator.py"], [("structural equations", "causy/sample_generator.py")], observe="returned data and graph")
p("C21", "Algorithm references cannot reach outside the workspace or run other code",
  "For every reference string and every layout of directories and links, resolving a file reference reads only files inside the current working directory, and resolving a module reference returns only genuine algorithm definitions and never calls anything else. API requests for algorithms with absolute, parent-relative, unknown or malformed references are answered with a client error and never change files, the workspace or the bundled definitions.",
  ["inputs", "configurations"], "all reference strings, reference types and directory layouts",
  "a test tries one or two paths; escapes need sibling prefixes, links or unusual references",
  [SER, UI], [("containment check", SER + ":load_algorithm_by_reference"), ("route validation", UI)], observe="files opened, objects called, HTTP status")
p("C22", "Comparing experiments shows exactly the edges that differ",
  "For every set of two or more stored results, the comparison lists every pair of variables that is connected in at least one of them exactly once with the edge symbol each result has for it, and the reduced view lists exactly those pairs on which the results do not all agree about existence, type or direction. Unknown experiments and versions are reported instead of compared.",
  ["inputs"], "all combinations of results, versions and experiment names",
  "tests do not exercise the comparison",
  [WS, "causy/interfaces.py"], [("comparison table", WS + ":diff"), ("edge equality", "causy/interfaces.py")], observe="printed table")
p("C23", "Running the same discovery twice gives the same result",
  "For every data set, including noisy ones, running the same single-process algorithm on the same data gives the same graph, values (up to rounding), separating sets (as sets) and history of actions in every process, independent of hash randomisation, of models executed earlier in the process and of the state of the random number generators. Executing a model does not modify the input data.",
  ["inputs", "schedules", "histories"], "all data sets, hash seeds, random states and previously executed models",
  "a test process has a single hash seed and compares one execution with constants",
  [PC, ORI, GEN, GM], [("iteration orders", GEN), ("shared step instances", PC)], observe="complete result of executions in different processes")
p("C24", "Hooks see and control every change of the graph",
  "For every pipeline, the before-update hooks of an algorithm receive every batch of proposed actions before it is applied, in order, and only what they return is applied and recorded; the after-update hooks receive exactly the actions that were taken. The hooks of an edge's type are called once before and once after every applied removal, update or type-change action on such an edge, and a failing edge hook neither stops the pipeline nor changes its outcome.",
  ["programs", "histories"], "all hook combinations, proposed actions and pipelines",
  "tests use one hook and one action",
  [GM, "causy/interfaces.py", "causy/edge_types.py"], [("hook execution", GM)], observe="calls received by recording hooks, graph, history")
p("C25", "Commands outside workspaces give exactly what the library computes",
  "For every data file and every bundled or saved algorithm, the execute command computes the same graph and history as the library does on that data, prints every connection of the final graph exactly once, and writes nothing but its output file, which contains the same nodes, edges with direction, type and values and full action history and names the algorithm that was run. The user interface started with such a file serves exactly this model, and started in a workspace exactly this workspace. Ejecting an algorithm writes a definition which reloads to the same algorithm, with the same fingerprint and with variables that keep their effect. Unknown algorithms, missing or malformed files and tables that are not numeric are refused with an error and without changing any file.",
  ["inputs", "configurations"], "all data files, bundled and saved algorithms, variable values and malformed arguments",
  "no test runs these commands; differences between the command line and the library only show in the stored file or for variables that are set later",
  ["causy/cli.py", "causy/ui/cli.py", UI, SER], [("execute and eject commands", "causy/cli.py"), ("ui command", "causy/ui/cli.py")], observe="exit code, printed lines, written files, answers of the application that would be served")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
