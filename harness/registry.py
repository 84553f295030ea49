"""Which monitors decide which property: jobs are (kind, program, variant, suite, quick cases, thorough cases)."""
N, PY, R = "native", "py", "r"
CHECKS = {}


def check(pid, jobs, distinct, rule, technique, note, assumptions=()):
    CHECKS[pid] = dict(jobs=jobs, distinct=distinct, rule=rule, technique=technique, note=note, assumptions=list(assumptions))


check("C01", [(N, "d_tree", "asan", "predict", 4000, 120000), (N, "d_tree", "asan", "rules", 2000, 60000)], "routes",
      "random forests (scalar and vector leaves, numeric and categorical rules, pruned and reused nodes, 1-6 trees, 1-4 stored samples) predicted on rows with missing, negative, unseen and huge values through every entry point, against an independent walk over the public node accessors; distinct = different (tree, leaf) routes and (rule, value) pairs exercised",
      "online reference-model monitor under ASan/UBSan", "every prediction entry point compared with an independent routing of the same rows; single-threaded executions only")
check("C02", [(N, "d_tree", "asan", "edit", 4000, 120000), (N, "d_tree", "asan", "whole", 1500, 50000)], "tree_states",
      "random histories of splits (all overloads), single and subtree prunes, leaf updates, clones (over fresh and used trees), in-place JSON reads and resets, each state compared node by node with a shadow tree, plus whole-forest and container operations against reference digests of every tree; distinct = different multi-node tree states checked",
      "shadow-model invariant monitor over edit histories, ASan/UBSan", "every state after every edit is checked against a shadow tree and a structural walk")
check("C15", [(N, "d_chain", "asan", "resume", 1000, 30000), (N, "d_tree", "asan", "forest_json", 2500, 60000), (N, "d_rfx", "asan", "rfx_json", 3000, 80000)], "documents",
      "random containers (any shape, pruned and reused nodes, extreme leaf values) written and read through strings and files into fresh and used objects, compared node by node, then edited and extended identically; distinct = different JSON documents",
      "round-trip monitor with continued-history comparison, ASan/UBSan", "bit-exact comparison of every node, plus identical behaviour under further edits and sampling")
check("C17", [(N, "d_tree", "asan", "kernel", 3000, 80000)], "forests",
      "random forests with pruned and reused nodes and two datasets; every pair of rows compared with independent routing; distinct = different forests",
      "pairwise reference-model monitor, ASan/UBSan", "every leaf index and kernel entry recomputed from independent routing")
CHAIN = (N, "d_chain", "asan", "chain", 3000, 90000)
CHAINNOTE = "random posterior-sampling chains (1-2 forests sharing one residual, all three leaf models, optional random effects, mixed Metropolis and grow-from-root passes, changing scales, bases, priors and variable weights, numeric/ordered/categorical variables with ties, constants and extreme values) driven through the public sampler classes, every state inspected after every pass; distinct = different "
check("C03", [CHAIN, (N, "d_chain", "asan", "partition", 3000, 100000)], ["split_trees", "partitions"], CHAINNOTE + "split trees whose bookkeeping was checked, plus direct histories of splits (three forms), single and subtree prunes and resets on the row-tracking structures and the partitions they produced", "online invariant monitor over sampling histories, ASan/UBSan", "row positions, per-node row sets, sorted orders and remembered predictions recomputed from the trees after every pass")
check("C04", [CHAIN], "histories", CHAINNOTE + "(history, problem) pairs", "online conservation monitor over sampling histories, ASan/UBSan", "residual + all fits = outcome checked row by row after every pass and every add/remove round trip; tolerance 1e-8 relative")
check("C05", [CHAIN], "histories", CHAINNOTE + "(history, problem) pairs", "offline history checker over digests of every stored sample, ASan/UBSan", "every stored sample is digested when appended and again after every later pass")
check("C06", [CHAIN], "split_trees", CHAINNOTE + "split trees whose rules were checked", "online rule-legality monitor over sampling histories, ASan/UBSan", "each rule and leaf of each sampled tree checked against the rows that reach it")
check("C07", [(N, "d_score", "asan", "cutpoints", 5000, 200000), (N, "d_score", "asan", "scores", 1500, 60000)], "grids", "random nodes of grown trees (1-400 rows, heavy ties, constants, categories) with grid sizes 1-500; distinct = different (rows, grid, kind, distinct values, candidates) situations", "online reference monitor over candidate grids, ASan/UBSan", "every candidate group compared with the sorted rows of the node")
check("C08", [(N, "d_score", "asan", "scores", 4000, 150000)], "problems", "random nodes, rules, weights, bases and leaf priors; proposed, existing and enumerated candidate splits; distinct = different problems", "online reference monitor: dense Gaussian log density in extended precision, ASan/UBSan", "each score compared with a dense multivariate normal evaluation over the rows routed by the rule")
STAT = "statistical monitor over recorded draws: probability integral transforms and exact outcome probabilities"
check("C09", [(N, "d_stat", "fast", "leafdist", 200, 8000), (N, "d_score", "asan", "leafdet", 3000, 100000)], "problems", "leaf draws for random trees, outcomes, weights, bases and priors, standardised by the exact conditional posterior (single trees with fresh outcomes, and every leaf of every tree inside running chains), plus paired draws with one seed; distinct = different problems", STAT + "; paired-seed monitor under ASan/UBSan", "distributional part detects deviations visible in about 2000-10000 draws per problem; alarm level about 1e-10 per test")
check("C10", [(N, "d_stat", "fast", "mcmc", 96, 4000), (N, "d_stat", "fast", "joint", 64, 3000)], "trees", "replicates started from exact posterior draws (all trees on 2-8 rows enumerated) and moved 1-10 Metropolis passes, long chains from the root, jointly drawn parameters and outcomes swept with 2-3 trees, and single moves between chosen pairs of trees up to depth 7; distinct = different tree structures observed", STAT, "exact enumeration of the posterior on small data; deviations visible in 8000-16000 independent replicates per problem; alarm level about 1e-12 per outcome")
check("C11", [(N, "d_stat", "fast", "gfr", 120, 5000)], "nodes", "12000 grow-from-root passes per problem (2-16 rows, all leaf models, ties, categories, thinned grids, weights), every choice tallied by the node's rows and depth; distinct = nodes whose choice frequencies were compared with exact weights", STAT, "deviations visible in 300-12000 choices per node; alarm level about 1e-12 per outcome")
check("C12", [(N, "d_stat", "fast", "variance", 160, 6000), (N, "d_stat", "fast", "jointvar", 64, 3000)], "settings", "error-variance and leaf-scale draws for 1-200 residuals and random forests over many prior values, and variances inside full sweeps started from joint prior draws; distinct = different settings", STAT, "deviations visible in 4000-6000 draws per setting; alarm level about 1e-10 per test")
check("C14", [(N, "d_stat", "fast", "rfxdist", 200, 8000), (N, "d_stat", "fast", "jointrfx", 48, 2000)], "problems", "random-effects passes with 1-3 components and 1-6 groups of 1-30 rows, each drawn quantity standardised by its exact full conditional given the recorded state, and sweeps started from joint prior draws; distinct = different problems", STAT, "deviations visible in 1200-10000 draws per problem; alarm level about 1e-10 per test")

check("C13", [(N, "d_rfx", "asan", "groups", 6000, 200000)], "groupings", "random labelled data (negative, huge, unsorted, single-row groups), fitted, predicted from every stored sample and added to or removed from the residual, unseen labels included; distinct = different label patterns", "online reference-model monitor under ASan/UBSan", "every row's effect recomputed from the basis, the label and the coefficients")
check("C18", [(N, "d_data", "asan", "data", 10000, 400000), (PY, "p_low", "pic", "data", 4000, 150000)], "shapes", "matrices and vectors of every small shape in both orders, with missing, infinite and extreme values, in fresh and used holders, from C++ and from NumPy (strides, views, orders, number types, read-only); caller arrays overwritten after hand-over; distinct = different shapes", "hand-over monitor: bit comparison of what is held against what was given, ASan/UBSan", "every element compared bit for bit")
check("C19", [(N, "d_thr", "tsan", "threads", 700, 20000), (N, "d_thr", "fast", "interleave", 4000, 100000), (N, "d_thr", "fast", "fresh", 3000, 80000), (N, "d_chain", "fast", "resume", 1000, 30000)], ["interleavings", "records"], "complete models (all samplers, leaf models, random effects, variances, saving, loading, predicting, refused calls) whose whole history follows from a seed: run alone, again after others, advanced in turn, in a fresh process with scribbled heap, and in 2-8 threads; distinct = different orders of steps and records compared", "race detector (ThreadSanitizer) plus offline comparison of recorded histories", "orders seen depend on the scheduler; bit-exact comparison of every record")
check("C20", [(N, d, "asan", s, q, t) for d, s, q, t in [("d_tree", "predict", 800, 30000), ("d_tree", "rules", 400, 10000), ("d_tree", "edit", 800, 30000), ("d_tree", "whole", 400, 10000), ("d_tree", "forest_json", 500, 20000), ("d_tree", "kernel", 600, 20000), ("d_chain", "chain", 1200, 50000), ("d_chain", "resume", 300, 10000), ("d_chain", "partition", 600, 20000), ("d_rfx", "groups", 1200, 40000), ("d_rfx", "rfx_json", 700, 20000), ("d_data", "data", 1500, 50000), ("d_data", "invalid", 500, 20000), ("d_data", "invalid_rfx", 500, 20000), ("d_data", "csv", 1001, 20000), ("d_score", "cutpoints", 1000, 40000), ("d_score", "scores", 600, 20000), ("d_score", "leafdet", 600, 20000)]]
      + [(N, d, "vg", s, q, t) for d, s, q, t in [("d_tree", "predict", 60, 2000), ("d_tree", "edit", 60, 2000), ("d_tree", "forest_json", 40, 2000), ("d_tree", "kernel", 60, 2000), ("d_chain", "chain", 60, 3000), ("d_chain", "resume", 40, 2000), ("d_chain", "partition", 40, 2000), ("d_rfx", "groups", 60, 2000), ("d_rfx", "rfx_json", 60, 2000), ("d_data", "data", 60, 2000), ("d_score", "scores", 60, 2000), ("d_score", "leafdet", 60, 2000)]]
      + [(PY, p, "picasan", s, q, t) for p, s, q, t in [("p_low", "low", 240, 8000), ("p_low", "data", 400, 10000), ("p_low", "refuse", 240, 8000), ("p_json", "store", 160, 5000)]], ["forests", "split_trees", "shapes", "groupings", "files", "tree_states", "routes", "documents", "grids"],
      "every native workload of this framework (data, trees, chains of all samplers, random effects, saving, kernels, scores, text files) and the Python extension under its low-level workloads, including one-row, one-value and one-leaf inputs; distinct = different inputs and states seen by those workloads", "AddressSanitizer, UndefinedBehaviorSanitizer, checked standard containers and Valgrind memcheck", "only executed paths are judged; reads of uninitialised memory are judged by the memcheck share")
check("C28", [(N, "d_tree", "asan", "whole", 800, 20000), (N, "d_data", "asan", "invalid", 2500, 80000), (N, "d_data", "asan", "invalid_rfx", 3000, 80000), (N, "d_rfx", "asan", "rfx_json", 2000, 50000), (PY, "p_low", "pic", "refuse", 2500, 80000), (PY, "p_bart", "pic", "bart", 160, 8000), (PY, "p_bcf", "pic", "bcf", 120, 6000), (R, "r_bart", "pic", "bart", 400, 10000), (R, "r_bcf", "pic", "bcf", 240, 6000), (R, "r_prep", "pic", "prep", 800, 20000), (PY, "p_refuse", "pic", "bart_refuse", 700, 20000), (PY, "p_refuse", "pic", "bcf_refuse", 500, 15000), (R, "r_refuse", "pic", "bart", 300, 10000), (R, "r_refuse", "pic", "bcf", 300, 10000)], "refused", "wrong calls of many kinds (sizes, numbers, dimensions, damaged documents, paths, missing or infinite or negative numbers for every parameter) in random states of forests, samplers, random effects and data, the whole state compared before and after, and the model used again; distinct = different (call, model kind, state) situations refused", "refusal monitor with state comparison, ASan/UBSan", "judged for the calls generated")

check("C16", [(PY, "p_json", "pic", "store", 20000, 500000)], "entries", "random stores (all kinds of entries in folders and outside, replaced by entries of other kinds, awkward names and texts, extreme numbers, array layouts, several forests, reloads through files and text in the middle, missing names asked for) against a dictionary of what was put in; distinct = different (kind, place, size, history) entries", "reference-model monitor over store histories", "finite numbers; the names the store itself uses (forests, num_forests) are not used for other entries")
check("C21", [(PY, "p_bart", "pic", "bart", 4000, 80000)], "fits", "random data (tables and arrays of all column kinds, layouts, outcome scales), leaf bases of 0-3 columns, sample counts, retention flags, variance settings and priors; distinct = different fits", "reference-model monitor: predictions recomputed from the stored trees and the raw data; trace monitor over sampler calls", "every stored and predicted value recomputed; settings checked on the recorded sampler calls")
check("C22", [(PY, "p_bcf", "pic", "bcf", 2500, 60000), (PY, "p_bcf", "pic", "coding", 240, 8000)], "fits", "random data, treatments (binary, continuous, 2-3 columns), propensity modes (given, estimated, none), kept and dropped variables in all forms, weights, coding, sample counts, retention flags, variance settings and priors; distinct = different fits", "reference-model monitor: predictions recomputed from the stored trees and the raw data; trace monitor over sampler calls; residual conservation", "every stored and predicted value recomputed; settings checked on the recorded sampler calls; each pass's treatment basis compared with the coding in force; coding draws standardised by their conditional over 1500-3000 passes")
check("C23", [(PY, "p_prep", "pic", "prep", 8000, 200000)], "tables", "random tables (all column kinds, category orders, unused categories, number types, ignored kinds, repeated or odd names and indices) and arrays; later data in other orders, subsets, single rows, other category declarations, unseen and missing categories; distinct = different tables", "row-wise reference encoder", "every cell, type and mapping compared; numeric categories in increasing order only (others are refused by the encoder)")
check("C29", [(PY, "p_low", "pic", "low", 9000, 300000), (PY, "p_low", "pic", "args", 1200, 40000)], "states", "random scripts of root values, sampler calls on one or two forests sharing a residual, residual adjustments by stored forests, basis changes, variance draws and reloads, run twice in lockstep; every argument of a sampler call (leaf scale matrix, variable weights, grid, tree prior, leaf size, variance parameters) judged by the draws it causes; distinct = different (model, samples, tree sizes) states", "reference-model and conservation monitor over scripts of low-level calls, statistical monitor of argument effects", "every prediction recomputed from the stored trees; the residual is observed through its sum of squares; argument effects within statistical resolution")
check("C24", [(R, "r_bart", "pic", "bart", 2800, 70000)], "fits", "random data frames and matrices of all column kinds, leaf bases of 0-3 columns, random effects with own or intercept bases, test sets, sample counts, retention flags, variance settings, priors and variable weights, fitted by R bart() and predicted before and after saving; distinct = different fits", "reference-model monitor: predictions recomputed from the stored trees and the raw data; trace monitor over the sampler calls R makes", "every stored and predicted value recomputed; settings checked on the recorded sampler calls")
check("C25", [(R, "r_bcf", "pic", "bcf", 2000, 50000), (R, "r_bcf", "pic", "coding", 160, 6000)], "fits", "random data, treatments (binary, continuous, constant), propensity modes (given, estimated, none), kept and dropped variables in all forms, weights, adaptive coding, random effects, test sets, sample counts, retention flags, variance settings and priors, fitted by R bcf() and predicted before and after saving; distinct = different fits", "reference-model monitor: predictions recomputed from the stored trees and the raw data; trace monitor over the sampler calls R makes; residual conservation", "every stored and predicted value recomputed; settings and the basis of every pass checked on the recorded sampler calls; coding draws standardised by their conditional over 1000-2000 passes")
check("C26", [(R, "r_prep", "pic", "prep", 6000, 150000)], "tables", "random R data frames (numeric, integer, logical, factor, ordered factor, character columns; declared but unused and missing levels; repeated names) and matrices; later data in other orders, subsets, single rows, other level declarations, unseen and missing categories; distinct = different tables", "row-wise reference encoder", "every cell, type, name and mapping compared")
check("C27", [(R, "r_obj", "pic", "objects", 1600, 40000), (R, "r_obj", "pic", "json", 6000, 200000), (R, "r_bart", "pic", "bart", 400, 10000), (R, "r_bcf", "pic", "bcf", 240, 6000)], ["objects", "entries"], "random scripts of the R object layer (data, forests, samplers, residuals, random effects, kernels, leaf indices, label mappings, JSON stores) and of its saving and loading; distinct = different object scripts and store entries", "reference-model monitor over scripts of R calls: predictions recomputed from stored trees, round trips compared bit for bit", "finite numbers; every returned array recomputed")
NA = {}
