"""Writes properties.jsonl and MANIFEST.json (run by hand when properties change; the outputs are committed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IM = "artemis/interactions_methods/"
PDC = "artemis/_utilities/pd_calculator.py"
H = IM + "model_agnostic/partial_dependence_based/_friedman_h_statistic.py"
G = IM + "model_agnostic/partial_dependence_based/_greenwell.py"
PDB = IM + "model_agnostic/partial_dependence_based/_pdp.py"
SEJ = IM + "model_agnostic/performance_based/_sejong_oh.py"
SPL = IM + "model_specific/gb_trees/_split_score.py"
CMD = IM + "model_specific/random_forest/_conditional_minimal_depth.py"
METH = IM + "_method.py"
PIMP = "artemis/importance_methods/model_agnostic/_pdp.py"
PERM = "artemis/importance_methods/model_agnostic/_permutational_importance.py"
MIN = "artemis/importance_methods/model_specific/_minimal_depth.py"
SIMP = "artemis/importance_methods/model_specific/_split_score.py"
ADD = "artemis/additivity/_additivity_meter.py"
CMP = "artemis/comparison/_method_comparator.py"
VIS = "artemis/visualizer/_visualizer.py"
CFG = "artemis/visualizer/_configuration.py"
PV = "artemis/visualizer/_pdp_visualizer.py"
OPS = "artemis/_utilities/ops.py"
HAN = "artemis/_utilities/_handler.py"
ZEN = "artemis/_utilities/zenplot.py"
MET = "artemis/_utilities/performance_metrics.py"

# id, title, statement, over, quantifier text, why tests can't, files, mechanism, technique, level_note
P = []


def prop(*a, level="exploration"):
    P.append(a + (level,))


prop("C01", "Partial dependence values are exact for any request history",
     "After any sequence of calculation requests to one partial dependence calculator (single features, pairs on observed or on all combinations, "
     "complements of a feature; any features, order and batch size), every value it returns for a feature, a pair in either order, or a complement equals "
     "the mean prediction over the data with exactly those columns replaced by exactly those values. "
     "Values not yet asked for are reported as missing, never as wrong numbers, and later requests never change values already known.",
     ["inputs", "histories", "configurations"],
     "all data sets (ties, duplicates, constants, categories, any index), models, batch sizes and request sequences",
     "tests use one data set, the default batch size and one or two requests; batching and caching go wrong only for particular sizes and histories",
     [PDC], [("batched queries", PDC + ":64-135"), ("lookup by value and pair order", PDC + ":38-63,158-171")],
     "query-level runtime monitor, brute-force PD oracle over random request histories")
prop("C02", "The model is only asked about rows made of observed data",
     "Every row handed to the model during a partial dependence based computation is a data row in which at most the explained features are replaced by "
     "values observed in their own columns, with the columns of the data in their order and of their types. During permutation based computations each query is the data with the "
     "requested feature(s) permuted - a pair always jointly, by the same permutation - and nothing else changed.",
     ["inputs", "configurations"], "all data sets, feature subsets, batch sizes and computations",
     "no test looks at the queries; a wrong counterfactual often changes results only slightly",
     [PDC, OPS, SEJ, PERM], [("construction of query batches", PDC + ":64-135"), ("permutation", SEJ + ":155-175"), ("permutation", PERM + ":115-139")],
     "recording model, online trace monitor of every query")
prop("C03", "The right predictions are explained",
     "Partial dependence based methods, importance and the additivity index explain the user's prediction function if one is given, otherwise the probability "
     "of class 1 if the model offers probabilities, otherwise the plain prediction; results equal those of exactly this source and no other source is "
     "consulted. Performance based methods score the plain prediction.",
     ["inputs", "configurations"], "all models offering several disagreeing sources of predictions, with every computation",
     "tests use models whose sources agree or check a single method",
     [OPS, PDC, ADD, PDB, PIMP], [("choice of the prediction function", OPS + ":63-76"), ("its use", PDC + ":12-36"), ("its use", ADD + ":40-102")],
     "recording models with contradicting prediction sources; query log plus value oracle")
prop("C04", "Explaining never modifies data, target, model, results or global random state",
     "Fitting, importance, additivity, plotting, profile plots, value lookups and comparisons leave the data, target, feature list, model, tree tables and "
     "the global random generators exactly as they were. Plots, lookups and comparisons also leave the result tables unchanged.",
     ["inputs", "histories", "configurations"], "all computations, plots and their options on all inputs",
     "tests never compare inputs before and after",
     ["artemis"], [("copies before changes", VIS), ("copies of queries", PDC), ("own random generators", METH)],
     "before/after state-snapshot monitor around every operation")
prop("C05", "A shared partial dependence calculator changes only the cost",
     "Any sequence of methods, feature subsets and options that share one calculator gives the same results as separate computations, and partial dependence "
     "values already known are not queried again. A calculator of a different model object, or of data differing in any value, row, column or order from the "
     "(sampled) data of the fit, is rejected with a ValueError.",
     ["inputs", "histories", "configurations"], "all sequences of computations sharing a calculator, all mismatches of model or data",
     "tests share a calculator between two methods once",
     [PDC, PDB, PIMP, ADD], [("calculator reuse and validation", PDB + ":42-110"), ("calculator reuse and validation", PIMP + ":48-107"),
                             ("calculator reuse and validation", ADD + ":40-102"), ("cached values", PDC)],
     "query-count monitor and definition oracle over random sequences; injected mismatches")
prop("C06", "A failing model never leaves wrong values behind",
     "If the model raises at any query of a computation, the exception reaches the caller and the calculator holds only exact or missing values. Repeating the "
     "computation with the same object and calculator, or using that calculator in another method, gives correct results, and the user's data is intact.",
     ["fault_sequences", "inputs", "histories"], "every query of every computation as the fault point, several kinds of exceptions including interrupts",
     "no test injects faults",
     [PDC, PDB, SEJ, PERM], [("values are stored only after their batch was predicted", PDC + ":64-157")],
     "exhaustive fault injection at every query, state monitor and retry oracle", level="fault_enumeration")
prop("C07", "The pairwise H-statistic equals its definition",
     "For every pair of requested features the H-statistic is the sum over observations of (centred joint partial dependence - both centred single ones) "
     "squared, divided by the sum of the squared centred joint one; unnormalised it is the square root of the mean of the numerator. Pairs without any effect "
     "beyond rounding noise have the value 0.",
     ["inputs", "configurations"], "all models, data sets (ties, constants, categories), feature subsets and orders, sample sizes, batch sizes, normalisation",
     "tests check a few inequalities on one data set",
     [H, PDB, PDC], [("value of a pair", H + ":204-229"), ("partial dependence of observed pairs", PDC + ":86-113")],
     "differential oracle on observed results (definition by brute force)")
prop("C08", "The one-vs-all H-statistic equals its definition",
     "For every requested feature the one-vs-all value is the H-statistic of the feature against the partial dependence on all other columns of the data "
     "(also those not requested), relative to the centred predictions; unnormalised it is the root mean square of the numerator. "
     "It is calculated unless it is switched off.",
     ["inputs", "configurations"], "all models, data sets, feature subsets and orders, sample sizes, batch sizes, normalisation",
     "tests check a few inequalities on one data set",
     [H, PDC], [("one-vs-all value", H + ":191-202,221-229"), ("complement partial dependence", PDC + ":115-135")],
     "differential oracle on observed results (definition by brute force)")
prop("C09", "Greenwell's interaction strength equals its definition",
     "For every pair of requested features it is the mean of two standard deviations (n-1): of the conditional importance of the first over the distinct "
     "values of the second, and vice versa. Conditional importance is the standard deviation (n-1) of the joint partial dependence over all distinct values "
     "for numerical features (booleans included) and a quarter of its range for the others; features with one distinct value contribute 0.",
     ["inputs", "configurations"], "all models, data sets with numerical, boolean and categorical features, feature subsets, sample sizes, batch sizes",
     "tests check a few inequalities on numerical data",
     [G, PDC, OPS], [("value of a pair", G + ":76-99"), ("all value combinations", PDC + ":86-113"), ("type of a feature", OPS + ":51-57")],
     "differential oracle on observed results (definition by brute force)")
prop("C10", "Partial dependence based importance equals its definition",
     "The importance of a feature is the (population) standard deviation of its partial dependence over its distinct values for numerical (and boolean) "
     "features and a quarter of its range for the others. It is the same standalone and inside the partial dependence based interaction methods, for exactly the "
     "requested features and the rows actually used, sorted from the most important.",
     ["inputs", "configurations"], "all models, data sets, feature subsets, sample sizes, batch sizes and entry points",
     "tests check the table's shape and one ordering",
     [PIMP, PDC, PDB], [("importance of a feature", PIMP + ":112-129")],
     "differential oracle on observed results (definition by brute force)")
prop("C11", "Performance based interaction equals its definition",
     "For every pair of requested features the value is the mean, over n_repeat freshly drawn permutations, of the absolute difference between the change of the "
     "score when both are permuted jointly and the sum of the changes when each is permuted alone, against the score on the unchanged data. "
     "Scores compare the targets with the predictions of the same rows under the user's metric.",
     ["inputs", "configurations"], "all models, targets in any container, metrics (built-in and user defined), feature subsets, repetitions, sample sizes",
     "tests check that two numbers are near a constant on one data set",
     [SEJ, MET, OPS], [("value of a pair", SEJ + ":114-175")],
     "offline checker over the log of queries and scores")
prop("C12", "Permutation importance equals its definition",
     "The importance of a requested feature is the mean, over n_repeat fresh permutations of its column, of the resulting loss of performance: score after minus "
     "score before for losses, before minus after for scores to be maximised. It is sorted from the most important and is the same computation "
     "standalone and within the performance based interaction method.",
     ["inputs", "configurations"], "all models, targets, metrics, feature subsets and repetitions",
     "tests check one ordering on one data set",
     [PERM, SEJ, MET], [("importance", PERM + ":87-144")],
     "offline checker over the log of queries and scores")
prop("C13", "Conditional minimal depth equals its definition on every forest",
     "For every ordered pair of features it is the mean, over the trees that use both, of the smallest depth of the second feature below the shallowest "
     "splits of the first (adjacent splits: 0; if it never occurs below, the depth to the last node of that subtree), and the table counts the trees in which "
     "it occurs. Pairs used together in no tree have no value.",
     ["inputs", "configurations"], "all forests: regression, classification, extra trees, depth-first and best-first growth, stumps, unused features",
     "tests check a few inequalities on one forest",
     [CMD], [("per-tree depths", CMD + ":177-300"), ("summary over trees", CMD + ":302-318")],
     "reference evaluation of every tree against observed tables")
prop("C14", "Minimal depth importance equals its definition",
     "The importance of a feature is the mean, over the trees of the forest that use it, of the depth of its shallowest split (the root has depth 0), sorted from the "
     "smallest. Features never used have no row.",
     ["inputs", "configurations"], "all forests as for conditional minimal depth",
     "tests check one ordering on one forest",
     [MIN, CMD], [("minimal depth", MIN + ":37-92"), ("depths of splits", CMD + ":206-260")],
     "reference evaluation of every tree against observed tables")
prop("C15", "Split score interactions equal their definition",
     "For xgboost and lightgbm models (native or scikit-learn interface) the value of a pair is the selected metric - mean or sum of gain, mean or sum of cover, mean "
     "depth - over the splits whose parent splits on the first feature, keeping by default only splits with a higher gain than their parent and another feature. "
     "Ensembles without such splits have no interactions.",
     ["inputs", "configurations"], "all ensembles: regression, binary, multiclass, depth- and leaf-wise growth, stumps, any number of trees and features, all metrics",
     "tests check a few names on one model",
     [SPL, HAN], [("interactions of all trees", SPL + ":200-290"), ("unified trees", HAN + ":39-85")],
     "reference walk over exported trees against observed tables")
prop("C16", "Split score importance equals its definition for every metric",
     "For every used feature it is the selected metric over its splits: mean / sum of gain or cover, mean depth, gain-weighted mean depth, number of roots, or number of "
     "roots weighted by their share of all root gain. Rows are sorted from the most important (ascending for depths), standalone and within "
     "the split score method.",
     ["inputs", "configurations"], "all ensembles as for split score interactions, all eight metrics, both entry points",
     "tests check one metric on one model",
     [SIMP, HAN, SPL], [("metrics", SIMP + ":89-152"), ("depth of splits", SIMP + ":154-175")],
     "reference walk over exported trees against observed tables")
prop("C17", "The additivity index equals its definition",
     "The index is 1 minus the sum of squared differences between predictions and the additive approximation (mean prediction plus, for every feature, its centred "
     "partial dependence: partial dependence minus mean prediction), divided by the sum of squared centred predictions, over the rows used. It is at most 1, 1 for additive and constant models, and "
     "the detailed result lists the centred partial dependence and prediction of every row.",
     ["inputs", "configurations"], "all models, data sets, sample sizes, batch sizes, with or without a shared calculator",
     "tests check two models on one data set",
     [ADD, PDC], [("index", ADD + ":104-122")],
     "differential oracle on observed results (definition by brute force)")
prop("C18", "Sampling uses n distinct rows with their own targets, reproducibly",
     "With n given, exactly n distinct, unaltered rows of the data are used, each with its own target whatever the container or index of data and target; without n all "
     "rows are used. Objects with equal random states give identical results for identical sequences of calls, whatever else draws "
     "random numbers in between, and different random states draw different rows and permutations, every row being reachable.",
     ["inputs", "histories", "configurations"], "all data, targets, indexes, n, random states and call sequences",
     "tests check lengths of samples",
     [OPS, METH, SEJ, PERM, ADD, PDB], [("sampling", OPS + ":18-33"), ("own generator", METH + ":37-50")],
     "row-identity monitor (distinct cell values identify rows) and replay comparison")
prop("C19", "Result tables are complete, ordered, and agree with value lookups",
     "Pair tables list every pair of the requested features exactly once (every ordered pair for conditional minimal depth, every interacting pair for split score) from the "
     "strongest to the weakest (fewest occurrences last, then deepest last, for conditional minimal depth), importance and one-vs-all tables list every "
     "feature once from the strongest. Looking up a pair in either order gives the value of the table (mean of both directions for conditional minimal depth, the strongest for split score).",
     ["inputs", "configurations"], "all methods, features, models and options",
     "tests look up one or two pairs",
     [METH, H, G, SEJ, SPL, CMD], [("value lookup", METH + ":153-160"), ("comparable table", CMD + ":55-65"), ("ordering", SPL + ":273-289")],
     "invariant monitor over result tables and lookups")
prop("C20", "Comparing methods relates the strengths of their common pairs",
     "The correlations of two fitted methods are the Kendall, Spearman and (rank) Pearson correlations of the strengths of their common pairs, oriented so that stronger "
     "agrees with stronger. The comparison plot shows one point per common pair at the values of the two methods, labels and the correlation box belong to "
     "the plotted methods, and methods that are not fitted are refused.",
     ["inputs", "histories", "configurations"], "all pairs of methods, feature subsets and sequences of comparisons",
     "tests check one pair of methods for a non-empty result",
     [CMP], [("correlations", CMP + ":61-85,151-190"), ("plot", CMP + ":87-149,192-226")],
     "reference correlations and read-back of plotted artists")
prop("C21", "Heatmaps, bar charts, lollipops and summaries show the result tables",
     "Every heatmap cell shows the value of its pair (of its own direction, row before column, if both are known) and the diagonal the importance, stronger values darker; bar charts show the first top_k rows of their table, strongest on "
     "top, with their labels; conditional charts show conditional depths as bars, darker for more occurrences, and minimal depths as points. Lollipop charts show one point per "
     "split of the first trees at its gain, per depth, with names of interactions and important roots. Summaries combine these parts, passing on the options given.",
     ["inputs", "configurations"], "all methods, result tables and plot options",
     "no test reads a plot",
     [VIS, CFG, SPL, CMD, H], [("heatmap", VIS + ":151-232,583-646"), ("bar charts", VIS + ":109-150,337-402"), ("summary", VIS + ":403-474"),
                               ("lollipop", VIS + ":476-561")],
     "artist read-back monitor against the result tables")
prop("C22", "The interaction graph follows the result tables",
     "Every feature is a node whose size is proportional to its importance, and every pair at least as strong as the relevance threshold (default or given) has an edge whose "
     "width grows with its strength up to the maximal width, others have no visible edge; conditional minimal depth draws directed edges. The "
     "strongest relevant edges (as many as requested) are labelled with their values.",
     ["inputs", "configurations"], "all methods, result tables, thresholds, widths, sizes and label counts",
     "no test reads a plot",
     [VIS, CFG], [("graph", VIS + ":234-335,563-628"), ("defaults per method", CFG)],
     "artist read-back monitor against the result tables")
prop("C23", "Profiles and zenplots show the partial dependence they name",
     "A profile plot of a feature or pair shows its partial dependence at all observed values (or combinations), at the right positions and under the right axis names. A zenplot "
     "starts with the strongest pair, continues with the strongest unused pair (among the first length+1 of the table) sharing the last feature, otherwise the strongest unused "
     "one; every panel shows the joint partial dependence of its pair, both features are named at it or (one of them) at the next panel, and all share one colour scale covering "
     "all values. Both hold for numerical, boolean and categorical features.",
     ["inputs", "configurations"], "all models, data sets, methods, features, orders and path lengths",
     "no test reads a plot",
     [PDB, ZEN], [("profiles", PDB + ":112-177"), ("zenplot", PDB + ":179-313"), ("path", ZEN)],
     "artist read-back monitor against brute-force partial dependence")
prop("C24", "Results need a fit, refusals are explicit, refits forget the past",
     "Plots, lookups, profiles and comparisons before a fit, plot types a method does not support, models of other packages and metrics unavailable for the package are "
     "refused with the documented exceptions. After a new fit an object is indistinguishable from a fresh object fitted the same way, whatever was fitted or "
     "plotted before; a fit that is refused leaves the results as they were.",
     ["histories", "inputs", "configurations"], "all methods, plot types, models and sequences of fits, plots and lookups",
     "tests never fit an object twice and check few refusals",
     [METH, VIS, SPL, HAN, PDB, CMP], [("fitted state", METH + ":74-160"), ("supported plots", CFG), ("metric checks", SPL + ":290-309"), ("model checks", HAN + ":17-60")],
     "history monitor: fresh-object comparison and refusal oracle")
prop("C25", "Results follow changes of data order, names, units and irrelevant features",
     "A feature the model ignores has zero interaction and importance and does not affect other results; additive models have no interactions. Reordering or repeating "
     "rows, relabelling the index, reordering or renaming columns, reordering requested features and shifting predictions change no value (beyond names), "
     "and rescaling predictions rescales unnormalised values only; tree based results follow renamed columns and ignore the order of trees.",
     ["inputs", "configurations"], "all models (synthetic, scikit-learn, xgboost, lightgbm), data sets and transformations",
     "tests compare no two runs",
     [H, G, PIMP, ADD, CMD, SPL, SEJ], [("values depend on data only through the model", PDC)],
     "metamorphic relations between monitored runs; real models against definitions")
prop("C26", "The partial dependence visualizer shows its model on its data",
     "PartialDependenceVisualizer.plot opens one figure of the size and title asked for, with one picture per feature or pair asked for (by name or position), in that order and "
     "under its names. Each shows the partial dependence (or the individual curves) of the given model, for the class and response asked for, over all rows of the given data, at "
     "the observed values or, if they are not fewer, at grid_resolution (default 100) equally spaced points between the percentiles asked for. All other options reach scikit-learn; "
     "data, model, the list of features and earlier figures are left alone.",
     ["inputs", "configurations", "histories"], "all scikit-learn style models, data sets, features, options and sequences of plots",
     "no test uses this class",
     [PV], [("plot", PV + ":35-66")],
     "artist read-back monitor against brute-force partial dependence")
prop("C27", "The batch size governs the queries to the model",
     "Partial dependence requests are collected until the batch size (default 2000 rows) is exceeded and then queried jointly: no query of a calculator, interaction method, "
     "importance or additivity computation exceeds the batch size by more than the block of rows added last (the rows of one combination for pairs, of all values of one feature "
     "otherwise), and a request needs no more queries than it fills batches, plus one for the rest.",
     ["inputs", "configurations", "histories"], "all data sizes, feature sets, requests and batch sizes",
     "tests never look at the queries",
     [PDC, PDB, PIMP, ADD], [("collecting requests", PDC + ":64-137")],
     "trace monitor on the sizes of all queries per request")
prop("C28", "Progress is shown on request only and changes nothing",
     "No fit, importance or additivity computation writes to standard output or standard error unless show_progress is asked for (whatever was computed before, with or without it); "
     "if it is, a progress bar that reaches its end is written to standard error. Results are identical either way.",
     ["configurations", "histories", "inputs"], "all methods, data sets, models, and sequences of computations with and without progress",
     "tests never ask for progress",
     [PDC, SPL, SIMP, SEJ, CMD, PERM, ADD], [("bars over the work", PDC + ":70,94,121"), ("progress of pandas, registered globally", SPL + ":203; " + SIMP + ":154")],
     "output monitor: captured streams and result comparison")
prop("C29", "Unified trees and split tables represent the boosting model",
     "For every xgboost or lightgbm model the unified table has one row per node of the model with its tree, split feature, children, gain, cover (xgboost), depth (lightgbm) and leaf "
     "mark, also if a handler is reused for another model. The full split score result adds to every split its depth and its parent's feature, gain and cover, and marks it as interaction "
     "exactly if it has a larger gain than a parent of another feature; the full table of pairs has the mean and sum of gain and cover, mean depth and number of these splits per pair.",
     ["inputs", "configurations", "histories"], "all ensembles of the supported libraries",
     "tests use one model per library",
     [HAN, SPL], [("unified structure", HAN + ":27-63"), ("parents and depths", SPL + ":200-241"), ("pairs", SPL + ":243-275")],
     "node by node comparison with the library's own JSON dump")
prop("C30", "Every plot keeps to its own figure",
     "A plot of any method, a profile, a zenplot or a comparison opens exactly one new figure (of the size asked for, summaries and default zenplots excepted), whatever figure is current, and "
     "leaves everything drawn on open figures - the user's or earlier plots, also the same plot drawn before - and all matplotlib settings as they were.",
     ["histories", "configurations"], "all plot types, methods and sequences of plots with other figures open",
     "tests never draw",
     [VIS, PDB, CMP], [("figures", VIS + ":120-130,195-200,265-270,350-358,385-390,417,495-499"), ("profiles", PDB + ":135"), ("comparison", CMP + ":117")],
     "state monitor: fingerprints of all open figures and settings around every plot")

prop("C31", "Separate computations do not interfere",
     "Fits, importances, additivity values and partial dependence requests of separate objects - on data and models of their own or in common - give the same results whether they "
     "run alone, are interleaved in threads in any way, or run inside each other's prediction functions.",
     ["schedules", "inputs", "configurations"], "all pairs and triples of computations and all interleavings of their steps",
     "tests run one computation at a time",
     [PDC, H, G, PDB, SEJ, PERM, PIMP, ADD, SPL, SIMP, CMD, HAN, METH], [("all state in objects and local variables", PDC + ":20-62; " + METH + ":74-110")],
     "schedule monitor: controlled interleaver of threads at every line of the package, result comparison with runs alone")
prop("C32", "Options for the looks of a plot have their documented effect",
     "Every documented option for the looks of a plot - colours, colour maps, fonts, markers, widths of lines, sizes of figures, shrinking of colour bars - is seen in "
     "the picture exactly as given on all elements it is about, and as its documented default if left out, whatever was plotted before.",
     ["configurations", "inputs", "histories"], "all plot types, methods, option values and combinations",
     "tests never draw",
     [VIS, CFG, PDB, CMP], [("defaults", CFG), ("use of options", VIS + ":95-500"), ("profiles and zenplots", PDB + ":120-330")],
     "artist read-back monitor against the options given and documented defaults")
prop("C33", "Attributes of an object describe its last completed computation",
     "After a completed fit, importance or comparison the documented attributes describe it, whatever was computed before: the explained model, the rows (and targets of these rows) "
     "used, the features and all their pairs in the order asked for, the calculator used (the one given, if any) with its batch size and the partial dependence of these rows, "
     "the settings and metrics, and the returned result. Before the first fit of an interaction method, meter or comparison they are None.",
     ["histories", "inputs", "configurations"], "all classes, data sets, models, samples, feature lists, calculators and sequences of fits",
     "tests never read these attributes",
     [METH, PDB, H, G, SEJ, CMD, SPL, PIMP, PERM, SIMP, ADD, CMP], [("attributes set by fit", PDB + ":79-110; " + SEJ + ":100-105; " + SPL + ":86-100; " + CMD + ":82-90")],
     "state monitor: attributes against what the workload asked for and what the model was queried with")

NOTE = {
    "exploration": "Held on every observed execution of a seeded, diverse random workload run on the code of /repo's working tree; evidence lists what the "
                   "monitors observed and the minimum required for a verdict. Trusts numpy/pandas and the independent oracle in rv/oracles.py; not exhaustive.",
    "fault_enumeration": "For every generated computation the fault is injected at every single query (sampled above 60), so fault points are enumerated per workload; "
                         "the workloads themselves are a random sample. Trusts numpy/pandas and the oracle in rv/oracles.py.",
}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for pid, title, st, over, qt, why, files, mech, tech, level in P:
            f.write(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": qt}, "why_tests_cant": why,
                                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}},
                               ensure_ascii=False) + "\n")
    man = {"version": 1, "setup_cmd": "./check selftest",
           "checks": [{"property": p[0], "quick_cmd": f"./check {p[0]}", "thorough_cmd": f"./check {p[0]} --tier thorough", "technique": p[8],
                       "level": p[9], "level_note": NOTE[p[9]]} for p in P],
           "not_applicable": [],
           "notes": "No hooks in /repo: the package is pure Python and is observed through recording models, result tables and drawn artists."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
