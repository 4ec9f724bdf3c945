#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that statements are easy to edit).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

F = "featselect/"
prop("C01", "Branch and bound finds the true AICc optimum under every schedule",
 "When the branch-and-bound search runs without reaching its queue limit and with no cutoff, the best model it reports has the lowest AICc of all non-empty models with fewer features than data points, whatever the order in which its concurrent workers run. This holds for every data set with at least three features, with or without a starting model, including when the starting model is itself the optimum. With a positive cutoff the reported best may be worse than the optimum by at most the cutoff.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of the search loop, the score workers and the child workers; every data set (AICc of either sign); every starting model",
 "The one test runs one data set without a starting model under whatever schedule the Go runtime picks; pruning reads the highscore list while it is being filled, so whether a subtree is wrongly discarded depends on the interleaving.",
 [F+"optimize.go", F+"criteria.go", F+"highscore.go", F+"node.go"],
 [("search loop and worker pools", F+"optimize.go: SelectModel, ScoreWorker, CreateChildNodes"), ("pruning test", F+"optimize.go: CreateChild, CleanQueue"), ("bounds", F+"criteria.go: bounds")],
 [("queue", "unexpanded tree nodes", F+"optimize.go"), ("highscore", "best models so far, read by the child workers", F+"highscore.go")],
 ["highscore list after the search returns"])
prop("C02", "Every model in a search's highscore list is genuine",
 "At the end of a branch-and-bound search, each entry with at least one feature carries exactly the score (minus AICc) and the least-squares coefficients of the model it names, no model appears twice, and the entries are ordered from best to worst without exceeding the list's size. This holds under every worker schedule, queue limit, list size and starting model.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of the workers, every data set, list size, queue limit and starting model",
 "Nodes are filled in by one goroutine while others read and expand them; tests look at one list from one run and compare only best scores and coefficient lists.",
 [F+"optimize.go", F+"highscore.go", F+"node.go", F+"fit.go"],
 [("scoring of nodes handed over on channels", F+"optimize.go: ScoreWorker"), ("insertion", F+"highscore.go: Insert"), ("only flipped nodes are new models", F+"optimize.go: isNewNode, node.go: GetChildNode")],
 None, ["highscore list after the search returns"])
prop("C03", "Parallel routines always finish and leave no goroutine behind",
 "The branch-and-bound search, the coordinate-descent lasso path, the Cohen's kappa sequence and the covariance threshold search (with at least one sample) return under every fair schedule of their workers, without deadlock and without a crash such as a send on a closed channel. After the call returns, every goroutine it started ends.",
 ["schedules", "configurations"],
 "every fair interleaving, any number of work items relative to the number of workers, any firing of timers",
 "Tests run each routine once or twice under one schedule, never with fewer items than workers, and never look at what is still running afterwards; a lost or double-counted completion shows only in particular interleavings.",
 [F+"optimize.go", F+"lassoCrdDesc.go", F+"cohens_kappa.go", F+"thresholdCov.go"],
 [("in-progress count and termination test", F+"optimize.go: SelectModel"), ("work and result channels", F+"lassoCrdDesc.go: LassoCrdDescPath"), ("work and result channels", F+"cohens_kappa.go: CalculateCohenSequence"), ("work and result channels", F+"thresholdCov.go: L2ConsistentCovTO")],
 None, ["return of the call", "goroutines alive after return"])
prop("C04", "A limited search queue never loses the start model or what was found",
 "When the search queue is limited, the branch-and-bound search still finishes and never reports a best model that scores worse than the starting model it was given. Discarding subtrees affects only what is explored next: no reported model disappears from the highscore list unless better ones displace it.",
 ["schedules", "inputs", "configurations"],
 "every interleaving, every queue limit from zero upwards, every starting model",
 "No test sets a queue limit or a starting model for a search; which subtrees are discarded depends on the order in which workers deliver them.",
 [F+"optimize.go", "cmd/bnb.go"],
 [("queue limit", F+"optimize.go: SelectModel, RemoveLeastPromising, CleanQueue"), ("starting model", F+"optimize.go: SelectModel; cmd/bnb.go: findOptimalSolution")],
 None, ["highscore list during and after the search"])
prop("C05", "Search progress is read as consistent, forward-moving snapshots",
 "Reading the progress of a search from other goroutines always returns the three values of one single update, never a mixture of two updates, and an update that has completed is seen by every later read. While a search runs, the number of explored models and the pruned count never decrease, the pruned count never exceeds the number of models there are, and once a model has been explored the reported best score is the score of a real model, never better than the best in the highscore list, and never gets worse. When the search ends, its progress accounts for every listed model, except possibly the last one explored.",
 ["schedules", "histories"],
 "every interleaving of concurrent updates and reads; every point of a running search",
 "The only test sets and reads once from a single goroutine.",
 [F+"searchProgress.go", F+"optimize.go"],
 [("read-write lock", F+"searchProgress.go: Set, Get"), ("updates from the search loop", F+"optimize.go: SelectModel")],
 [("BestScore, NumExplored, Log2NumPruned", "one progress state", F+"searchProgress.go")],
 ["return values of progress reads"])
prop("C06", "The highscore list can be shared between goroutines",
 "Insertions into a highscore list and reads of it (size, best score, all scores, JSON) from several goroutines behave as if they happened one at a time in some order that respects real time. Every read shows a state the list really had: ordered best to worst, free of duplicates, within its size, and holding the best of the models inserted so far.",
 ["schedules", "histories"],
 "every interleaving of insertions and reads; every insertion history and list size",
 "Tests use the list from one goroutine only, whereas the search inserts while its workers and the periodic save read it.",
 [F+"highscore.go", F+"optimize.go", "cmd/bnb.go"],
 [("insertion and reads", F+"highscore.go: Insert, Len, BestScore, Scores, MarshalJSON"), ("concurrent readers", F+"optimize.go: CreateChild; cmd/bnb.go: saveHighscoreList")],
 [("Items", "linked list sorted by score", F+"highscore.go")],
 ["results of each list operation"])
prop("C07", "The bnb result file is always a complete list, whatever fails",
 "Once the bnb command has saved a highscore list, its output file at every later instant, including after a failed write or the death of the process, holds one complete JSON list of genuine models with a best score at least as good as in any earlier save; a file left there by a previous run is likewise replaced only by a complete list. A power cut may bring back an earlier complete state of the file, never an incomplete one. While the search runs and its goroutines are scheduled fairly, a save is attempted every minute, each periodic timer tick the command serves leads to an attempt at a fresh save, a normal end leaves the final list with the optimal model in the file, and a failed final save is reported rather than passed over in silence.",
 ["schedules", "crash_points", "fault_sequences"],
 "every interleaving of the search and the periodic save, every instant of a process crash, every sequence of file-system errors (open, write, short write, full disk, rename, close)",
 "cmd has no tests; the save happens on a 60 second timer while the search mutates the list, and partial writes only occur under crashes or disk errors.",
 ["cmd/bnb.go", F+"highscore.go", F+"optimize.go"],
 [("periodic and final save", "cmd/bnb.go: findOptimalSolution, saveHighscoreList"), ("JSON form", F+"highscore.go: MarshalJSON, UnmarshalJSON; node.go: MarshalJSON")],
 None, ["content of the output file at each simulated instant", "command output and exit"])
prop("C08", "Commands announce a result only when it is completely stored",
 "The lasso, sasearch and nested-lasso commands say that results were written only if the named file holds the complete result, computed from the data on disk: every model of the path under the right features, with its coefficients and, where the format has them, its AICc and BIC. If reading the data or storing the result fails, they do not say so and report the failure. The lasso and sasearch commands never leave an earlier result file half overwritten, whether by an error or a crash.",
 ["crash_points", "fault_sequences", "configurations"],
 "every crash point and every sequence of read errors, short reads, write errors, short writes, full disk, open, rename and close errors",
 "The commands have no tests, and file-system errors never occur in the test environment.",
 ["cmd/lasso.go", "cmd/sasearch.go", "cmdDepreciated/goselect-nestedlasso/main.go", F+"csvIO.go"],
 [("result writing", "cmd/lasso.go: lassoFit; cmd/sasearch.go: saSearch; cmdDepreciated/goselect-nestedlasso/main.go: nestedLasso"), ("input", F+"csvIO.go: ReadCSV")],
 None, ["command output", "content of the output file"])
prop("C09", "CSV input is read whole and exactly, or not at all",
 "Parsing a CSV stream gives the same data set however the stream splits its bytes into reads: the header names, every number in its row and column (blank padding around numbers as in the documented format makes no difference), and the chosen target column, counted from the end when negative. If the stream fails before its end, no data set is returned.",
 ["inputs", "fault_sequences"],
 "every split of the bytes into reads (including empty reads and data together with end of file), every position of a read error, every table and target column",
 "Tests parse one in-memory string that arrives in a single read without errors.",
 [F+"csvIO.go"],
 [("stream parsing", F+"csvIO.go: ParseCSV, ReadCSV")],
 None, ["returned data set, or the failure"])
prop("C10", "Stored data sets and lasso results survive a write and read cycle",
 "Writing a data set to a stream and parsing it again gives the same names, target column and values to six decimals, and a lasso result file or a stored highscore list reads back as what was stored, however reads and writes are split. If a write of a data set fails, what was stored is a prefix of the full text and never anything else; if reading a lasso result fails part way, no incomplete result is returned.",
 ["inputs", "fault_sequences"],
 "every split of reads and writes, every position of a write or read error",
 "Tests write one tiny data set into memory and load one valid file; no stream in a test ever fails or delivers data in pieces.",
 [F+"csvIO.go", F+"lassoPlot.go"],
 [("writing", F+"csvIO.go: Save, SaveHandle"), ("reading", F+"csvIO.go: ParseCSV, UnmarshalJSON; lassoPlot.go: LassoLarsPathFromJSON")],
 None, ["stored bytes", "data set or path read back"])
prop("C11", "The coordinate-descent lasso path does not depend on scheduling",
 "A lasso path computed in parallel contains, for each requested regularization value from largest to smallest (only leading empty models being dropped), exactly one node holding that value and the same coefficients as solving it on its own, to within the convergence tolerance. This holds under every worker schedule, for any number of values, repeated or not, and for plain, elastic-net and covariance-corrected lasso alike.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of the workers, any number of regularization values, every correction and covariance estimator",
 "One test checks only the last node of one path under one schedule and with the stateless correction.",
 [F+"lassoCrdDesc.go", F+"lassoCorrections.go", F+"covarianceMatrix.go"],
 [("work distribution and placement of results", F+"lassoCrdDesc.go: LassoCrdDescPath, PerformLassoCrd"), ("stateful correction", F+"lassoCorrections.go: CLasso")],
 [("nodes", "results by position", F+"lassoCrdDesc.go"), ("correction", "shared by the workers", F+"lassoCorrections.go")],
 ["returned path"])
prop("C12", "Cohen's kappa sequence scores every target once and returns the best",
 "For any number of targets and any worker schedule, each target is evaluated exactly once with the requested number of samples, each reported kappa is that of the target it is printed with, and, when some kappa is positive, the returned hyper parameters are those of a target with the highest kappa. In every sample the two groups given to a target are disjoint, differ in size by at most one and together contain every data point once, and a lasso target selects what the lasso selects on that group alone. The cohenlasso command reports every requested regularization value once, with its kappa, and sums them up in order of kappa.",
 ["schedules", "configurations", "histories"],
 "every interleaving of the workers, any number of targets and samples, every random stream",
 "The test has four mock targets, fewer than the workers, and its own outcome depends on the random seed.",
 [F+"cohens_kappa.go", F+"util.go"],
 [("worker pool", F+"cohens_kappa.go: CalculateCohenSequence, CohensKappaWorker"), ("random partition", F+"cohens_kappa.go: GetCohensKappa")],
 None, ["calls received by the targets", "printed summary", "returned hyper parameters"])
prop("C13", "The covariance threshold depends only on data and random partitions",
 "For a given data set, at least one sample and a stream of random numbers, the sparse covariance threshold search returns the same threshold under every worker schedule and every firing of its progress timer. That threshold is the grid value with the smallest deviation averaged over the requested number of random row splits, where every grid value is evaluated exactly once on each split and each split divides the rows of the data without loss or repetition. The sparse covariance estimate is the data's second-moment matrix with exactly the elements below that threshold set to zero.",
 ["schedules", "configurations", "inputs"],
 "every interleaving of the workers, every timer firing, every number of samples and grid size",
 "The test uses one configuration under one schedule and only bounds the result loosely; mixing partitions or losing a grid point shows only as a different threshold in some interleavings.",
 [F+"thresholdCov.go", F+"covarianceMatrix.go"],
 [("work distribution over grid points and partitions", F+"thresholdCov.go: L2ConsistentCovTO"), ("random split", F+"thresholdCov.go: RandomRowSplit")],
 [("meanNormDiff", "average deviation per grid point", F+"thresholdCov.go")],
 ["effect of the returned threshold on a matrix", "returned splits"])
prop("C14", "Annealing ends and reports only real models for any random stream",
 "For at least four data points, at least one sweep and every stream of random numbers that does not stop varying, the simulated annealing search ends, and repeating it with the same stream gives the same result. It selects a non-empty model with fewer than half as many features as data points together with that model's least-squares coefficients; its highscore list names distinct models, each with its own score and coefficients, and its best entry has the best score encountered during the whole search.",
 ["inputs", "histories", "configurations"],
 "every random stream, including extreme and strongly correlated ones; every data set and cost function",
 "The test runs one data set with one fixed seed and looks only at the final selection.",
 [F+"simmulatedAnnealing.go", F+"saScore.go"],
 [("annealing loop", F+"simmulatedAnnealing.go: SelectModelSA"), ("highscore list", F+"saScore.go: Insert, Exists")],
 [("Items, BestItem, WorstItem", "best distinct models so far", F+"saScore.go")],
 ["returned selection, coefficients and highscore list"])
prop("C15", "Concurrent calls do not disturb each other or their input data",
 "Several searches, lasso paths, nested lasso calculations, annealing runs, threshold searches, kappa calculations, power expansions, fits or conversions of data sets running at the same time in one process on the same data give the results each would give alone, under every schedule. None of them changes the data matrix, the target values or the data set it was given, alone or together with others.",
 ["schedules", "configurations"],
 "every interleaving of two or more concurrent library calls, every combination of calls",
 "No test runs two calls at once.",
 [F+"optimize.go", F+"lassoCrdDesc.go", F+"simmulatedAnnealing.go", F+"fit.go", F+"thresholdCov.go", F+"lasso_lars.go", F+"nestedLasso.go"],
 [("no shared mutable state between calls", F+"optimize.go, lassoCrdDesc.go, simmulatedAnnealing.go, fit.go, criteria.go")],
 None, ["results of each call", "data matrix and targets after the calls"])

prop("C16", "Figures are announced only when completely stored",
 "The plotlasso command says that a figure was written only if the named file holds the complete figure of the lasso result it was given, with every stored coefficient or criterion within the requested range. If the stored result cannot be read as a whole or is cut off, it announces no figure, and if a figure cannot be stored, it does not announce that one; in either case it reports the failure, and a run without any failure announces all four figures.",
 ["faults", "crash points", "inputs"],
 "every point of failure of every read and write, every death of the process, every cut of the stored result, every format",
 "No test runs the command or injects a failure.",
 ["cmdDepreciated/goselect-plotlasso/main.go", F+"lassoPlot.go"],
 [("storing and announcing figures", "cmdDepreciated/goselect-plotlasso/main.go: analyseLasso"), ("reading the result", F+"lassoPlot.go: LassoLarsPathFromJSON, LassoLarsPathFromBytes")],
 None, ["lines announcing figures", "files of figures", "exit status and error output"])

# Properties that have no schedule, clock, fault or interleaving in them.
prop("N01", "LARS path nodes are exact lasso solutions",
 "Every node of a LARS path satisfies the lasso optimality conditions for its regularization value, and consecutive nodes have decreasing regularization values.",
 ["inputs"], "every normalized data set", "Two fixed data sets are checked for decreasing covariances only.",
 [F+"lasso_lars.go", F+"lasso_cd.go"], [("LARS steps", F+"lasso_lars.go: LassoLars")])
prop("N02", "Orthogonal matching pursuit returns the fit of its ordered selection",
 "The coefficients returned by orthogonal matching pursuit are the least-squares fit of the features in the reported order, each listed once, and the fit meets the tolerance or uses all features.",
 ["inputs"], "every data set and tolerance", "Two fixed data sets are checked.",
 [F+"orthogonalMatchingPursuit.go"], [("greedy selection", F+"orthogonalMatchingPursuit.go: Omp")])
prop("N03", "Normalization of a data set can be undone exactly",
 "Coefficients fitted on a normalized data set and transformed back predict the same values on the original data as the normalized coefficients do on the normalized data.",
 ["inputs"], "every data set whose columns vary", "One fixed data set is checked.",
 [F+"normalized_dataset.go"], [("linear transformation", F+"normalized_dataset.go")])
prop("N04", "Power expansion contains every product of columns exactly once",
 "Expanding a matrix up to a given power yields its original columns followed by every product of columns of total degree between two and that power, each exactly once.",
 ["inputs"], "every matrix and power", "A matrix with two columns is checked.",
 [F+"lazyPowerMat.go", F+"util.go"], [("Cartesian product", F+"util.go: IterProduct")])
prop("N05", "A fit is the minimum-norm least-squares solution",
 "Fitting returns coefficients whose residual is orthogonal to the design matrix, of smallest norm when the features are linearly dependent.",
 ["inputs"], "every design matrix and target", "Three fixed cases are checked.",
 [F+"fit.go"], [("singular value decomposition", F+"fit.go: Fit")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
