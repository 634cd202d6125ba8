#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
T_NONE = ("The one reliable test runs naive Bayes once and asserts nothing about its output; the other tests need data sets "
          "that are absent or no longer compile. ")
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": T_NONE + why, "anchors": a})

ADA = "src/booster/adaboost/adaboost_algorithm.rs"
ADAV = "src/booster/adaboostv/adaboostv_algorithm.rs"
MADA = "src/booster/madaboost/madaboost_algorithm.rs"
SMOOTH = "src/booster/smoothboost/smoothboost_algorithm.rs"
LP = "src/booster/lpboost/lpboost_algorithm.rs"
LPM = "src/booster/lpboost/lp_model.rs"
ERLP = "src/booster/erlpboost/erlpboost_algorithm.rs"
ERLPM = "src/booster/erlpboost/qp_model.rs"
SOFT = "src/booster/softboost/softboost_algorithm.rs"
SOFTM = "src/booster/softboost/qp_model.rs"
TOTAL = "src/booster/totalboost/totalboost_algorithm.rs"
CERLP = "src/booster/cerlpboost/cerlpboost_algorithm.rs"
MLP = "src/booster/mlpboost/mlpboost_algorithm.rs"
MLPM = "src/booster/mlpboost/perturbed_lp_model.rs"
FW = "src/common/frank_wolfe.rs"
UT = "src/common/utils.rs"
GS = "src/booster/graph_separation_boosting/graph_separation_algorithm.rs"
NA = "src/hypothesis/naive_aggregation.rs"
GBM = "src/booster/gradient_boost/gbm.rs"
LOSS = "src/common/loss_functions.rs"
WM = "src/hypothesis/weighted_majority.rs"
CORE = "src/booster/core.rs"
SS = "src/sample/sample_struct.rs"
SF = "src/sample/feature_struct.rs"
SR = "src/sample/sample_reader.rs"
CV = "src/research/cross_validation.rs"
LOG = "src/research/logger.rs"
OBJ = "src/research/objective_functions.rs"
DT = "src/weak_learner/decision_tree/"
RT = "src/weak_learner/regression_tree/"
NB = "src/weak_learner/naive_bayes/"
BAD = "src/weak_learner/bad_learner/"

p("B01", "Every booster hands the weak learner a probability distribution",
  "In every round of every classification booster (AdaBoost, AdaBoostV, MadaBoost, SmoothBoost, GraphSepBoost, LPBoost, ERLPBoost, SoftBoost, TotalBoost, CERLPBoost, MLPBoost) the slice passed to the weak learner has one finite, non-negative entry per training example, in sample order, and its entries sum to 1 (for AdaBoostV as long as every edge so far exceeds tolerance - 1, below which its margin estimate is undefined). In the first round it is uniform over the examples, except for GraphSepBoost where it is uniform within each class and proportional to the number of examples of the other class.",
  ["inputs", "histories", "configurations"],
  "all binary training samples, all sequences of hypotheses a weak learner may answer with (confidence-rated or ±1, good or adversarial), all hyper-parameter settings, every round",
  "The quantifier is over all weak-learner answers and all rounds; a test fixes one weak learner and never looks at the distribution it is given.",
  [ADA, ADAV, MADA, SMOOTH, GS, LP, ERLP, SOFT, TOTAL, CERLP, MLP, UT],
  [("AdaBoost::update_params (log-space normaliser)", ADA), ("beta2distribution", MADA), ("m / sum(m)", SMOOTH), ("edges / n_edges", GS), ("LP/QP equality constraint sum(d)=1", LPM), ("project_log_distribution_to_capped_simplex", UT)],
  [("dist", "weights on the training examples", ADA)], ["argument of WeakLearner::produce"])

p("B02", "Soft-margin boosters never put more than 1/nu on one example",
  "In every round, the distribution that LPBoost, ERLPBoost, SoftBoost, CERLPBoost and MLPBoost hand to the weak learner gives no example more than 1/nu (up to solver accuracy), for every legal capping parameter nu in [1, number of examples]. A legal nu is never rejected, and it really restricts the distribution: with nu equal to the number of examples every distribution is uniform.",
  ["inputs", "histories", "configurations"],
  "all binary samples, all nu in [1, m] including both ends, all weak-learner answers, every round",
  "No test sets nu on a run that terminates, and none inspects the distribution; the bound has to hold at each of unboundedly many rounds.",
  [LP, LPM, ERLP, ERLPM, SOFT, SOFTM, CERLP, MLP, MLPM, UT],
  [("capping rows/bounds of the LP", LPM), ("capping rows of the QP", ERLPM), ("capping rows of the QP", SOFTM), ("projection onto the capped simplex", UT)],
  None, ["argument of WeakLearner::produce"])

p("B03", "AdaBoost re-weights by the exponential rule and votes with 1/2 ln((1+g)/(1-g))",
  "After a hypothesis h with edge g (|g|<1) under the current distribution d, AdaBoost's next distribution is proportional to d_i*exp(-a*y_i*h(x_i)) with a = 1/2 ln((1+g)/(1-g)), so a ±1-valued h has edge 0 under it; the output weighs every hypothesis returned so far proportionally to its a (negative a included; zero votes drop out, and if all are zero the combination is empty), normalised to total absolute weight 1. A hypothesis with |g|=1 (up to rounding) ends the run at once and the output is that hypothesis alone with the sign of g; otherwise only the round limit ends it. Hence with ±1 hypotheses the fraction of training examples with y*f(x) <= 0 never exceeds the product over rounds of sqrt(1-g^2).",
  ["inputs", "histories", "configurations"],
  "all binary samples, all sequences of hypotheses with confidences in [-1,1], all run lengths including those where some example weights become extremely small",
  "The rule relates consecutive rounds of an arbitrary history; tests only look at the final training error of one run.",
  [ADA, UT, WM], [("update_params", ADA), ("edge.abs() >= 1", ADA), ("from_slices / normalize", WM)],
  [("dist", "weights on examples", ADA), ("weights", "votes", ADA)], ["WeakLearner::produce", "Research::current_hypothesis", "Booster::run result"])

p("B04", "AdaBoostV uses the margin estimate min-edge minus tolerance in its vote",
  "After round t with edge g_t under the current distribution (|g_t|<1), AdaBoostV weighs the hypothesis with 1/2 ln((1+g_t)/(1-g_t)) - 1/2 ln((1+r_t)/(1-r_t)), where r_t = min(g_1..g_t) - tolerance > -1, and its next distribution is proportional to d_i*exp(-weight*y_i*h(x_i)). The output is the normalised vote of all hypotheses returned so far; a hypothesis with |edge| = 1 (up to rounding) ends the run with that hypothesis alone, and otherwise only the round limit ends it. After max_loop rounds against a weak learner that always returns the best hypothesis of a finite class that can separate the sample, the minimum margin of the output is at least the optimal hard margin minus tolerance.",
  ["inputs", "histories", "configurations"],
  "all binary samples, all hypothesis sequences, all tolerances in (0,1), every round; margin guarantee for best-response weak learners over finite classes",
  "No AdaBoostV test compiles; the rule depends on the whole history of edges.",
  [ADAV, UT, WM], [("update_params", ADAV), ("max_loop", ADAV)],
  [("gamma", "smallest edge so far", ADAV), ("rho", "margin estimate", ADAV)], ["WeakLearner::produce", "Research::current_hypothesis", "Booster::run result"])

p("B05", "SmoothBoost: smooth distributions, unit votes, guaranteed margin",
  "SmoothBoost keeps per example the running sum N_i of y_i*h_s(x_i) - theta with theta = gamma/(2+gamma), starting from 0, and queries the weak learner with d_i proportional to M_i = 1 if N_i <= 0 and (1-gamma)^(N_i/2) otherwise; no entry exceeds 1/(kappa*m). It stops as soon as sum M_i < kappa*m, at latest after ceil(2/(kappa*gamma^2*sqrt(1-gamma))) rounds, and outputs the uniform vote over every hypothesis it received. Whenever it stops by the sum criterion, fewer than a kappa fraction of the examples have margin at most theta.",
  ["inputs", "histories", "configurations"],
  "all binary samples of any size, all hypothesis sequences, all kappa in (0,1) and gamma in (0,1/2), every round",
  "No SmoothBoost test compiles; number of rounds and number of examples vary independently, which one sample cannot show.",
  [SMOOTH, WM], [("boost: update n, m", SMOOTH), ("stopping criterion", SMOOTH), ("postprocess", SMOOTH)],
  [("m", "example weights M", SMOOTH), ("n", "accumulated margins N", SMOOTH)], ["WeakLearner::produce", "Booster::run result"])

p("B06", "MadaBoost caps the AdaBoost weights at their initial value",
  "MadaBoost queries the weak learner with weights proportional to min(1, prod_s b_s^(y_i*h_s(x_i))) over the rounds s so far, where b_s = sqrt(e_s/(1-e_s)), e_s = sqrt(eps_s/2) and eps_s = (1 - edge_s)/2 is the error of h_s under the distribution it was trained on. So the first distribution is uniform, and no example ever weighs more than an example that was never classified correctly. The output weighs each h_s proportionally to ln(1/b_s); a hypothesis with |edge| = 1 (up to rounding) ends the run with that hypothesis alone, and otherwise only the round limit ends it.",
  ["inputs", "histories", "configurations"],
  "all binary samples, all hypothesis sequences, every round",
  "The rule relates each round to the whole history; the only MadaBoost test needs an absent data set and looks at the final error only.",
  [MADA, WM], [("update_params", MADA), ("beta2distribution", MADA)],
  [("betas", "log weights of the examples", MADA)], ["WeakLearner::produce", "Research::current_hypothesis", "Booster::run result"])

p("B07", "LPBoost returns a tolerance-optimal soft-margin combination",
  "When LPBoost ends against a weak learner that always returns a hypothesis of largest edge in a class H, its output is a convex combination of returned hypotheses whose soft-margin objective (the mean of the nu smallest margins y*f(x)) is at least the optimum over all convex combinations of H minus the tolerance. In every round the distribution it uses minimises, over the 1/nu-capped distributions, the largest edge among the hypotheses returned so far, and it stops exactly when the smallest edge a hypothesis has had so far exceeds that minimum by at most the tolerance.",
  ["inputs", "histories", "configurations"],
  "all binary samples, all finite hypothesis classes closed under nothing in particular, all nu in [1,m], all tolerances",
  "Optimality is a statement about all convex combinations and all capped distributions; tests compare a final loss on one data set.",
  [LP, LPM, WM], [("LPModel::update (column generation)", LPM), ("stop test on gamma_hat", LP), ("postprocess: dual weights", LP)],
  [("gamma_hat", "smallest edge seen", LP)], ["WeakLearner::produce", "Booster::run result", "Research::current_hypothesis"])

p("B08", "ERLPBoost returns a tolerance-optimal soft-margin combination",
  "When ERLPBoost ends by its own stopping rule (or after max_loop rounds) against a weak learner that returns a hypothesis of largest edge in a class H, its output is a convex combination of returned hypotheses whose soft-margin objective is at least the optimum over convex combinations of H minus the tolerance. In every round its distribution minimises (up to the tolerance) the largest edge among the hypotheses returned so far plus 1/eta times the relative entropy to the uniform distribution over the 1/nu-capped simplex.",
  ["inputs", "histories", "configurations"],
  "all binary samples, finite hypothesis classes, nu in [1,m], tolerances",
  "Optimality quantifies over all combinations; tests use one data set that is absent.",
  [ERLP, ERLPM, WM], [("sequential QP", ERLPM), ("boost: stop test", ERLP), ("max_loop", ERLP)],
  [("dist", "current distribution", ERLP), ("gamma_hat", "smallest objective seen", ERLP)], ["WeakLearner::produce", "Booster::run result"])

p("B09", "SoftBoost and TotalBoost keep every past edge below the current bound",
  "In every round t > 1 SoftBoost's distribution is (up to its tolerance) the 1/nu-capped distribution closest in relative entropy to uniform among those giving each hypothesis returned so far an edge at most the bound g, where g is derived from the smallest edge achieved so far minus the tolerance; TotalBoost is the case nu = 1. It stops when no such distribution exists or at max_loop, and its output is a convex combination of returned hypotheses. When it ends against a weak learner returning a largest-edge hypothesis of a class H, the soft-margin objective of the output is at least the optimum over convex combinations of H minus the tolerance.",
  ["inputs", "histories", "configurations"],
  "all binary samples, finite hypothesis classes, nu in [1,m], tolerances, histories of returned hypotheses",
  "The constraint must hold for every past hypothesis in every round of every history.",
  [SOFT, SOFTM, TOTAL, WM], [("QPModel::update", SOFTM), ("gamma_hat update, postprocess LP", SOFT), ("delegation to SoftBoost", TOTAL)],
  [("gamma_hat", "bound on the edges", SOFT)], ["WeakLearner::produce", "Booster::run result"])

p("B10", "CERLPBoost: distribution is the capped exponential projection of its vote",
  "In every round CERLPBoost's distribution is the 1/nu-capped distribution minimising 1/eta times relative entropy to uniform plus the expected margin of its current convex combination, that is d_i = min(1/nu, c*exp(-eta*margin_i)). Its combination stays convex under every Frank-Wolfe rule it offers, each round that goes on raises the entropy-regularised objective at least as far as the step of its rule does, and when it stops by its own rule against a weak learner returning a largest-edge hypothesis of a class H, the soft-margin objective of the output is at least the optimum over H minus the tolerance.",
  ["inputs", "histories", "configurations"],
  "all binary samples, finite hypothesis classes, nu in [1,m], tolerances, all four Frank-Wolfe rules, every round",
  "No CERLPBoost test compiles; the relation must hold in every round of every history.",
  [CERLP, FW, UT, WM], [("exp_distribution", UT), ("FrankWolfe::next_iterate", FW), ("stop test", CERLP)],
  [("weights", "current convex combination", CERLP)], ["WeakLearner::produce", "Research::current_hypothesis", "Booster::run result"])

p("B11", "MLPBoost returns a tolerance-optimal soft-margin combination",
  "In every round MLPBoost's distribution is the capped exponential projection of its current convex combination, and that combination is never worse, in the entropy-regularised soft-margin objective, than the better of the Frank-Wolfe step and the LP-corrected step from the previous one, where the LP-corrected step is an optimal soft-margin combination of the hypotheses returned so far up to the small perturbation of its LP. When it stops by its own rule against a weak learner returning a largest-edge hypothesis of a class H, the soft-margin objective of the output is at least the optimum over convex combinations of H minus the tolerance.",
  ["inputs", "histories", "configurations"],
  "all binary samples, finite hypothesis classes, nu in [1,m], tolerances, all Frank-Wolfe rules, every round",
  "Relations between consecutive rounds and optimality over all combinations cannot be sampled by a final-loss test.",
  [MLP, MLPM, FW, UT, WM], [("secondary_update LP", MLPM), ("better_weight", MLP), ("exp_distribution", UT)],
  [("weights", "current convex combination", MLP), ("gamma", "best objective", MLP)], ["WeakLearner::produce", "Research::current_hypothesis", "Booster::run result"])

p("B12", "Frank-Wolfe rules step along the promised direction by the promised size",
  "In CERLPBoost, after the first hypothesis became the initial combination, the classic rule moves the combination in round t by the factor 2/(t+1) towards the newest hypothesis, the short-step rule by the clipped ratio of the gap to eta times the squared sup-norm of the margin difference, and the line-search rule to the minimiser of the entropy-regularised objective on the segment. The blended-pairwise rule either moves weight, among the hypotheses of positive weight, from the one of smallest edge to the one of largest edge, or line-searches towards the newest hypothesis; under every rule all weights stay non-negative with sum 1.",
  ["inputs", "histories", "configurations"],
  "all samples, hypothesis sequences, nu, eta and the four rules, every round",
  "Step sizes depend on the whole history; no test touches a Frank-Wolfe rule in a build that compiles.",
  [FW, CERLP, MLP], [("classic / short_step / line_search / blended_pairwise", FW)],
  None, ["Research::current_hypothesis", "WeakLearner::produce"])

p("B13", "Boosters drive the game by the protocol and runs are repeatable",
  "Running a booster is preprocess, then boosting rounds 1, 2, ... until the first one that signals a stop, then postprocess; each round asks the weak learner for at most one hypothesis, the signalled round is never followed by another, and no more hypotheses are requested than the round limit (force_quit_at if set, else max_loop). Every hypothesis in the output was returned by the weak learner in this run, in the order received. Running the same booster again, or a fresh one with the same settings, on the same answers yields the same distributions and the same output.",
  ["histories", "inputs", "configurations"],
  "all boosters, samples, settings, weak-learner behaviours, numbers of consecutive runs on one booster object",
  "The claim is about every history of calls on one object; tests call run once.",
  [CORE, ADA, ADAV, MADA, SMOOTH, GS, LP, ERLP, SOFT, TOTAL, CERLP, MLP, GBM],
  [("Booster::run", CORE), ("preprocess resets the state", ADA), ("max_iter test", ADA)],
  None, ["WeakLearner::produce", "Booster::run/preprocess/boost/postprocess"])

p("B14", "A combined hypothesis evaluates as the weighted vote of its parts",
  "For every row of every sample, a weighted majority's confidence (or regression value) is the sum of weight times member confidence (value), its predicted label is +1 exactly when the confidence is >= 0 and -1 otherwise, and the predict_all/confidence_all forms agree row by row; appending and normalising keep weights and hypotheses paired and make absolute weights sum to 1. Building one from weights and hypotheses keeps every pair with non-zero weight, and is empty if all weights are zero. Combined and base hypotheses survive serialisation unchanged.",
  ["inputs", "histories"],
  "all weight vectors, member hypotheses, rows, and sequences of append/normalise/build operations",
  "Quantifies over all operation sequences and all weights, including negative and zero ones.",
  [WM, "src/hypothesis/hypothesis_traits.rs", UT], [("from_slices, push, normalize", WM), ("Classifier::predict default", "src/hypothesis/hypothesis_traits.rs")],
  None, ["WeightedMajority API", "Classifier/Regressor traits"])

p("B15", "GraphSepBoost separates every pair of differently labelled examples it can",
  "GraphSepBoost keeps exactly the pairs of differently labelled examples that no hypothesis so far predicts differently, and gives each example weight proportional to its number of such pairs. It continues while pairs remain and every hypothesis separates at least one more, stops as soon as none remain or a hypothesis separates none, and never returns in more rounds than the number of initial pairs plus one. Its output predicts + for a row exactly when some positive training example has the same vector of predictions by the returned hypotheses, so if no pairs remain it has zero training error.",
  ["inputs", "histories"],
  "all binary samples, all sequences of weak hypotheses, all query rows",
  "Needs every sequence of hypotheses; no test runs GraphSepBoost to an asserted result.",
  [GS, NA], [("update_params", GS), ("dist from degrees", GS), ("NaiveAggregation::new / predict", NA)],
  [("edges", "unseparated pairs", GS)], ["WeakLearner::produce", "Booster::run result"])

p("B16", "GBM's output is the additive model it accumulated, with optimal steps",
  "In each round GBM shows the weak learner the current additive model's predictions (0 at the start), and adds the returned regressor times the coefficient that minimises the training loss along it (least squares for L2, weighted median of residual ratios for L1), so the training loss never increases. The returned function equals that additive model on every row, with coefficients of either sign. It stops when the optimal coefficient is 0 or after its round limit (100 unless set otherwise).",
  ["inputs", "histories", "configurations"],
  "all regression samples, L1 and L2 losses, all sequences of regressors",
  "The step optimality and additivity must hold for every sequence of regressors; the GBM test needs an absent data set and only prints.",
  [GBM, LOSS, WM], [("best_coefficient", LOSS), ("boost / postprocess", GBM), ("gradient / hessian", LOSS)],
  [("predictions", "current model values", GBM)], ["WeakLearner::produce", "Booster::run result"])

p("B19", "A booster tells the round its game ended in",
  "The boosting round that ends a game signals Break with its own number, or, when it is the round after the last one allowed, with the round limit (the number of rounds played). LPBoost, ERLPBoost and MLPBoost tell the same number through terminated(): 0 before the first game of the object, and afterwards the number of rounds in which the weak learner was asked in the last game. The number never exceeds the round limit, however often the object is run.",
  ["histories", "inputs", "configurations"],
  "all twelve boosters (GBM included), samples, settings, weak-learner behaviours, ways to end (criterion before or after the query, perfect hypothesis, zero coefficient, round limit, forced quit), numbers of consecutive games on one object",
  "Which round ends depends on the whole history of answers; tests never look at the number.",
  [CORE, ADA, ADAV, MADA, SMOOTH, GS, LP, ERLP, SOFT, TOTAL, CERLP, MLP, GBM],
  [("ControlFlow::Break(terminated_iter)", CORE), ("terminated()", MLP), ("terminated()", ERLP), ("terminated()", LP)],
  None, ["Booster::boost", "LPBoost/ERLPBoost/MLPBoost::terminated"])

p("S01", "Reading a CSV file preserves every cell, its column and the target",
  "Reading a rectangular CSV file (with or without header) yields one example per data line in file order; each feature keeps its header name as written (or its position when there is no header) and its numeric values, and the column chosen as target becomes the target and not a feature. Lookups by row and by feature name return the numbers that the file holds in that line and column.",
  ["inputs", "configurations"],
  "all rectangular numeric CSV files, header or none, every choice of target column, including zeros, negative values, exponents and surrounding blanks",
  "Quantifies over all files and target positions; the CSV tests need absent data sets.",
  [SR, SS, SF], [("Sample::from_reader / from_csv", SS), ("set_target", SS)],
  None, ["SampleReader::read", "Sample::at/target/features/index"])

p("S02", "Reading an SVMLight file equals reading the dense table it denotes",
  "Reading an SVMLight-format file yields one example per line with the leading number as target; the feature of index k has for an example the value given by its k:value entry and 0 when the line has no entry for k. Every index that occurs in the file has its feature, whatever line it first occurs on and whatever order entries are written in; an index that occurs on no line may be left out.",
  ["inputs"],
  "all well-formed SVMLight files: any sparsity pattern, index order, first-occurrence line, explicit zeros, blanks",
  "Quantifies over all sparsity patterns; no test reads an SVMLight file.",
  [SR, SS, SF], [("from_svmlight", SS), ("SparseFeature::append", SF)],
  None, ["SampleReader::read", "Sample::at"])

p("S03", "Sparse and dense samples with equal values behave identically",
  "Two samples holding the same numbers, one with sparse and one with dense features, give the same values for every lookup by row, by feature and by feature name, the same distinct-value counts, the same weighted statistics, and lead every weak learner and booster to hypotheses that predict the same on every row.",
  ["inputs", "configurations"],
  "all numeric matrices with zeros in any positions, all weight vectors, all weak learners",
  "Quantifies over all sparsity patterns and both representations.",
  [SF, SS, DT + "bin.rs", RT + "bin.rs"], [("SparseFeature index / statistics", SF), ("cut_sparse", DT + "bin.rs")],
  None, ["Feature/Sample API", "WeakLearner::produce"])

p("S04", "Weighted means and variances follow their definition",
  "For any distribution over the examples (non-negative weights of sum 1), the weighted mean of a feature is sum w_i*x_i, its weighted variance is the weighted mean of squared deviations from that mean, and the per-label forms are, for any non-negative weights, the mean and variance over the examples with that label only, normalised by their (positive) weight; sample-level calls return these per feature in feature order.",
  ["inputs", "configurations"],
  "all samples (sparse or dense), labels and weight vectors of positive total weight",
  "Quantifies over weights, labels and sparsity patterns; no test calls these.",
  [SF, SS], [("weighted_mean*/weighted_variance*", SF), ("weighted_mean_for_label", SS)],
  None, ["Sample::weighted_*", "Feature::weighted_*"])

p("S05", "Cross validation splits partition the rows and copy them faithfully",
  "For every fold, the training and test parts together contain every row of the original sample exactly once, with all feature values, names and targets unchanged and paired as in the original, for dense and sparse features and with or without shuffling. The test part of fold i is rows [min(i*t,n), min((i+1)*t,n)) of the (possibly shuffled) order with t = n - floor(ratio*n), so test parts of different folds are disjoint, and there are as many folds as requested.",
  ["inputs", "configurations", "histories"],
  "all samples (dense or sparse), training ratios, fold counts, seeds, shuffling or not, every fold",
  "Quantifies over sizes and sparsity patterns; the cross-validation test needs an absent data set.",
  [CV, SS, SF], [("fold_at", CV), ("Sample::split", SS), ("shuffle", CV)],
  None, ["CrossValidation iterator", "Sample::at"])

p("W01", "Decision trees are depth-bounded partitions with weighted-majority leaves",
  "For any sample and any distribution, the tree returned has at most the configured number of splits on any path, routes a row left exactly when its feature value is below the node's threshold, and each leaf answers with the label-weighted mean of the training examples routed to it (a value in [-1,1] whose sign is the weighted majority label). Examples of zero weight do not influence the tree.",
  ["inputs", "configurations"],
  "all samples (dense or sparse), all distributions including sparse-support ones, depths, bin counts and criteria",
  "Quantifies over samples and distributions; no tree test compiles.",
  [DT + "decision_tree_algorithm.rs", DT + "node.rs", DT + "train_node.rs", DT + "bin.rs"], [("full_tree", DT + "decision_tree_algorithm.rs"), ("confidence_and_loss", DT + "decision_tree_algorithm.rs"), ("Splitter::split", "src/weak_learner/common/split_rule.rs")],
  None, ["WeakLearner::produce", "serialised DecisionTreeClassifier"])

p("W02", "Decision trees split at the best threshold for the chosen criterion",
  "A feature's bins have equal width between its smallest and largest training value, and a node's candidate thresholds lie midway between neighbouring bins that its examples occupy; at every inner node, the chosen feature and threshold are, among all candidates of all features, optimal for the configured criterion (entropy, edge, Gini, TwoClass... as documented) computed on the weighted examples reaching the node. A node is a leaf only at the depth bound, when its examples agree, or when no candidate improves the criterion. A depth-one tree with the edge criterion therefore has, as a ±1 classifier, the largest edge among all candidate stumps.",
  ["inputs", "configurations"],
  "all samples, distributions, bin settings and criteria",
  "Optimality quantifies over all candidate splits on all inputs.",
  [DT + "criterion.rs", DT + "bin.rs", DT + "decision_tree_algorithm.rs"], [("best_split", DT + "criterion.rs"), ("Bins::pack", DT + "bin.rs")],
  None, ["serialised DecisionTreeClassifier"])

p("W03", "Regression trees take regularised Newton steps at leaves and best-gain splits",
  "For any sample and current predictions, each leaf of the tree answers -G/(H+lambda), where G and H are the sums of the loss's gradients and Hessians over the examples routed to it (H+lambda > 0; any subgradient of the absolute loss at 0); every inner node splits at the bin boundary with the largest gain in G^2/(H+lambda). No path has more splits than the configured depth allows, and a node above that depth is a leaf only when its gradients are all 0 or no boundary has positive gain. The result does not depend on examples' order.",
  ["inputs", "configurations"],
  "all regression samples (dense or sparse), predictions, losses, depths, bins and lambda",
  "Quantifies over all samples, predictions and settings; no regression-tree test asserts anything.",
  [RT + "regression_tree_algorithm.rs", RT + "bin.rs", RT + "node.rs"], [("full_tree", RT + "regression_tree_algorithm.rs"), ("leaf prediction", RT + "regression_tree_algorithm.rs"), ("best_split", RT + "bin.rs")],
  None, ["serialised RegressionTreeRegressor"])

p("W04", "Gaussian naive Bayes predicts the label of largest weighted posterior",
  "For any sample and distribution, the naive Bayes hypothesis predicts, on every row, the label of positive total weight maximising the log of the label's total weight plus the sum over features of the Gaussian log-density with that label's weighted mean and variance (at least a negligible floor) of the feature. Features contribute independently of how many features there are, and reported label probabilities are in proportion to these posteriors.",
  ["inputs", "configurations"],
  "all samples (dense or sparse) with positive within-label variance, all distributions giving both labels weight, all query rows",
  "The one passing test runs this learner and asserts nothing; the claim is about all data and weights.",
  [NB + "nbayes.rs", NB + "probability.rs", NB + "nbayes_classifier.rs"], [("Gaussian::log_probability", NB + "probability.rs"), ("produce", NB + "nbayes.rs"), ("predict", NB + "nbayes_classifier.rs")],
  None, ["NBayesClassifier::predict/confidence"])

p("W05", "The worst-case base learner answers with its best hypothesis of a bad class",
  "For every distribution, the worst-case base learner returns a hypothesis of largest edge among its fixed class (for tolerance <= 1), and every hypothesis of the class is confidence-rated (values in [-1,1]) on every row. On every sample of even size n with tolerance small enough and 4*nu <= n, LPBoost run against it needs a number of rounds linear in the sample size: at least 1 + ceil((n/2+1-nu)/ceil(nu)).",
  ["inputs", "configurations", "histories"],
  "all binary samples, distributions, tolerances and capping parameters",
  "Quantifies over all distributions; the only test needs gurobi-free LP runs on absent data.",
  [BAD + "worstcase_lpboost.rs", BAD + "worstcase_classifier.rs", BAD + "builder.rs"], [("produce", BAD + "worstcase_lpboost.rs"), ("confidence", BAD + "worstcase_classifier.rs")],
  None, ["WeakLearner::produce"])

p("R01", "The logger runs the same boosting game and logs one faithful row per round",
  "Running a booster through the logger drives the booster exactly as running it directly does (same distributions, same output), until the first stop signal or until the accumulated time exceeds the time limit. The log file holds the header and then exactly one row per executed round, in order, whose objective value, training loss and test loss are those of the booster's combination after that round on the training and test samples, with non-decreasing time.",
  ["inputs", "histories", "configurations"],
  "all boosters with loggable state, samples, losses, objectives, printing intervals and time limits",
  "Tests print the log; no assertion ties a row to the state it reports.",
  [LOG, "src/research/logger_builder.rs"], [("Logger::run", LOG)],
  None, ["log file", "WeakLearner::produce", "Logger::run result"])

p("R02", "Objective functions compute soft margin, hard margin and exponential loss",
  "The soft-margin objective of a hypothesis on a sample is the smallest value of sum d_i*y_i*f(x_i) over distributions with entries at most 1/nu (the average of the nu smallest margins, fractionally for non-integral nu); the hard-margin objective is the smallest margin; the exponential loss is the mean of exp(-y_i*p_i) over the predicted labels p_i.",
  ["inputs", "configurations"],
  "all samples, hypotheses with arbitrary confidences, and nu in [1,m], integral or not",
  "Quantifies over margins and capping parameters; no test evaluates an objective.",
  [OBJ], [("SoftMarginObjective::eval", OBJ), ("HardMarginObjective", OBJ), ("ExponentialLoss", OBJ)],
  None, ["ObjectiveFunction::eval"])

NN = "src/weak_learner/neural_network/"
p("N01", "A network's training step follows the derivative of its loss",
  "One training step of a neural network on a batch of examples moves every weight and bias by minus the rate times the sum, over the batch, of the error at the outputs (output minus wanted output) carried back through the layers by the chain rule, for identity, ReLU, sigmoid and softmax activations in any layer. For an identity, sigmoid or softmax output (of scale 1) this is the derivative of the squared or cross-entropy loss of the batch. The output wanted of a single output unit is 1 for label +1 and 0 for label -1, of two output units the unit vector of the label's class (-1 first).",
  ["inputs", "configurations"],
  "all shapes, activations, parameters, batches and rates, away from the threshold of a ReLU",
  "Quantifies over all architectures and parameters; no neural-network test compiles, and parameters start at random.",
  [NN + "nn_hypothesis.rs", NN + "layer.rs", NN + "activation.rs", NN + "nn_loss.rs", "src/common/task.rs"],
  [("NNHypothesis::train", NN + "nn_hypothesis.rs"), ("backward", NN + "layer.rs"), ("vectorize", "src/common/task.rs")],
  None, ["network parameters (feature verif)"])

p("N02", "A network computes its layers and reads its outputs with the right sign",
  "A neural network computes, layer by layer, activation(W x + b): identity, ReLU (values at most the threshold become 0), sigmoid 1/(1+exp(-eta u)) and softmax exp(eta u_i)/sum. For a binary task the confidence of the classifier is 2z-1 for a single output z, and for two outputs -z_1 if z_1 is the larger and z_2 otherwise, so it is positive for the class the outputs favour.",
  ["inputs", "configurations"],
  "all shapes, activations, parameters and inputs, away from the threshold of a ReLU",
  "Quantifies over all architectures, parameters and inputs.",
  [NN + "nn_hypothesis.rs", NN + "layer.rs", NN + "activation.rs", "src/common/task.rs"],
  [("NNHypothesis::eval", NN + "nn_hypothesis.rs"), ("binarize", "src/common/task.rs")],
  None, ["NNClassifier::confidence", "network outputs (feature verif)"])

p("N03", "The network learner trains the network asked for on the examples it is given",
  "The learner returns a network with the layers that were appended, in order, for any sample size; and a network of one identity layer, trained for enough iterations on batches that hold every example of more than negligible weight, ends at the least-squares fit of those examples alone (examples are drawn by weight), wherever its random parameters started.",
  ["inputs", "configurations", "histories"],
  "all samples, layer lists and distributions; fits: designs on which 15000 steps suffice",
  "The initial parameters are random; the tests only print losses.",
  [NN + "nn_weak_learner.rs", NN + "layer.rs"],
  [("produce", NN + "nn_weak_learner.rs")],
  None, ["WeakLearner::produce", "network parameters (feature verif)"])

p("B17", "Edges, margins, entropies and capped projections follow their definitions",
  "The margin of an example under a hypothesis is its label times the confidence, under a weighted combination (weights of any sign) its label times the weighted sum; an edge is the mean of the margins under the distribution. Entropy is the sum of d ln d (0 for d = 0), plus ln(m) relative to uniform; normalising divides by the sum of absolute values. Projecting weights exp(l_i), such as exp(-eta * margin_i), onto the distributions with entries at most 1/nu gives d_i = min(1/nu, c*exp(l_i)) for one c with sum 1, for every nu in [1, m] and all magnitudes of l.",
  ["inputs"],
  "all labels, confidences, weights, distributions, logarithmic weights and legal nu",
  "Quantifies over all vectors; the corrective boosters rely on these for every distribution they compute.",
  ["src/common/utils.rs", "src/common/checker.rs"],
  [("project_log_distribution_to_capped_simplex", "src/common/utils.rs"), ("exp_distribution", "src/common/utils.rs"), ("edge_of_weighted_hypothesis", "src/common/utils.rs")],
  None, ["utility functions (feature verif)", "distributions of CERLPBoost and MLPBoost"])

p("S08", "A column's views tell the same cells",
  "Whatever a sample came from and however a column is stored, its views agree: its name is the sample's name for it; iterating a dense column gives its cells in row order, iterating a sparse column gives rows in ascending order with their cells, every cell left out being zero; len and is_empty are about the cells iterated; indexing by position or name gives the cell of that row as the row lookup does; of a sparse column, zero_counts is the number of rows whose cell is zero and has_zero says whether there is one, whether or not zeros were written out. A column built by hand cell by cell tells the same of the cells appended.",
  ["inputs", "histories"],
  "all columns, dense or sparse, of samples from files, frames and cross validation, and built by hand",
  "Quantifies over sparsity patterns, stored zeros and sources; no test looks at a column.",
  [SF, SS], [("SparseFeature", SF), ("Index for Feature", SF)],
  None, ["Feature::{name,len,is_empty}", "SparseFeature::{iter,has_zero,zero_counts}", "DenseFeature::iter", "Index"])

p("L01", "Losses, their gradients, Hessians and best steps belong together",
  "For all predictions p and targets y: the L1 loss of an example is |p-y| and the L2 loss (p-y)^2, a sample's loss is the mean over its examples; the gradient of L1 is a subgradient of |p-y| per example (-1, 1, or anything between where p = y) and that of L2 is p-y (of half the squared error), with Hessians 0 and 1; and the best coefficient for residuals r along predictions p minimises the sum of losses of c*p against r over all real c (0 if all p are 0).",
  ["inputs"],
  "all vectors of predictions and targets of equal length",
  "Quantifies over all pairs of vectors, including ties, zeros, equal ratios and predictions of both signs.",
  ["src/common/loss_functions.rs"],
  [("GBMLoss", "src/common/loss_functions.rs"), ("best_coefficient", "src/common/loss_functions.rs"), ("weighted_median", "src/common/loss_functions.rs")],
  None, ["LossFunction methods"])

p("S06", "Unusable samples and parameters are refused, usable ones are accepted",
  "Classification boosters refuse (panic before the weak learner is asked) samples whose labels do not fit the rows, are no integers, or are not of exactly two kinds, and accept all others; capping parameters are accepted exactly in [1, number of examples] (also by the soft-margin objective and the worst-case learner), SmoothBoost's gamma in [0,1/2) and tolerance in (0,1), training ratios in (0,1), tree depths from 1. Unknown feature names, a wrong number of names, files that do not exist, CSV files with a cell that is no number or a line of wrong length, and SVMLight files with malformed entries are refused. A refused request changes nothing. Sample::dummy(n) has n rows, the first n/2 labelled +1 and the others -1.",
  ["inputs", "histories"],
  "all samples, files, parameters and sequences of requests",
  "Quantifies over all files, label vectors and parameter values; the tests only use valid ones.",
  ["src/sample/sample_struct.rs", "src/sample/sample_reader.rs", "src/common/checker.rs", SMOOTH, "src/research/cross_validation.rs", "src/weak_learner/decision_tree/builder.rs", "src/weak_learner/regression_tree/builder.rs", "src/weak_learner/bad_learner/builder.rs"],
  [("is_valid_binary_instance", "src/sample/sample_struct.rs"), ("check_nu", "src/common/checker.rs"), ("check_preconditions", SMOOTH)],
  None, ["panics and Err values of builders, readers and Booster::run"])

p("W06", "The drawing of a tree shows exactly the tree",
  "The file written for a decision or regression tree is a dot graph with one vertex per node: following it from its root, answering each question 'feature < threshold ?' along the edge Yes or No, one passes the features and thresholds (to two decimals) of the tree and ends at a leaf showing its answer (to two decimals). Nothing else is drawn, and feature names may hold any characters.",
  ["inputs"],
  "all trees, feature names, thresholds and answers",
  "Quantifies over all tree shapes and names; no test looks at a drawing.",
  ["src/weak_learner/decision_tree/node.rs", "src/weak_learner/regression_tree/node.rs", "src/weak_learner/decision_tree/decision_tree_classifier.rs", "src/weak_learner/regression_tree/regression_tree_regressor.rs"],
  [("to_dot_info", "src/weak_learner/decision_tree/node.rs"), ("to_dot_file", "src/weak_learner/decision_tree/decision_tree_classifier.rs")],
  None, ["to_dot_file"])

p("B18", "The settings in force are the last ones given, reported, and bound the rounds",
  "Every booster setting has the documented default (nu 1, tolerance as derived from the sample size, Frank-Wolfe rule short-step, loss L2, no forced quit); a setter puts its setting to the given value and leaves all others alone, in whatever order and however often setters are called, so a booster behaves as a fresh one given only the last values. info() reports the examples and features, each setting in force, nu also in percent of the examples, and the round limit; the round limit follows from sample size and settings in force (e.g. ln m / tol^2 for AdaBoost, max(8/tol, 32 ln(m/nu)/tol^2) for ERLP-like boosters, 100 for GBM), and no run plays more rounds.",
  ["inputs", "histories"],
  "all boosters, samples and sequences of setter calls with legal values, including repeated and extreme ones",
  "Quantifies over all call sequences; tests set each parameter at most once and never look at the report or the limit.",
  [ERLP, SOFT, CERLP, MLP, SMOOTH, "src/booster/adaboost/adaboost_algorithm.rs", "src/booster/adaboostv/adaboostv_algorithm.rs", "src/booster/madaboost/madaboost_algorithm.rs", "src/booster/totalboost/totalboost_algorithm.rs", "src/booster/gradient_boost/gbm.rs"],
  [("max_loop", CERLP), ("nu", ERLP), ("info", SOFT)],
  None, ["info()", "max_loop()", "queries of runs"])

p("W07", "A weak learner's settings in force are the last ones given, and are reported",
  "Tree learners start with depth 2, entropy (regression: lambda 0.01, and a loss that must be given) and one bin per distinct value but at most 255; networks with 100 epochs, 200 iterations and batches of 128 halved until no larger than the sample. A setter changes its setting (or the bins of its feature) only, in any order and number of calls, so the learner grows the trees of a fresh one given only the last values. info() reports what is in force (largest number of bins, depth, lambda, layers, ...); the printed learner lists each feature once with its number of bins, and the bins are intervals of equal width between the smallest and largest value, the first and last reaching to -inf and +inf.",
  ["inputs", "histories"],
  "all samples (dense, sparse, constant columns, more than 255 values) and sequences of setter calls",
  "Quantifies over call sequences and columns; tests use one fixed set-up.",
  ["src/weak_learner/decision_tree/builder.rs", "src/weak_learner/regression_tree/builder.rs", "src/weak_learner/decision_tree/decision_tree_algorithm.rs", "src/weak_learner/regression_tree/regression_tree_algorithm.rs", "src/weak_learner/decision_tree/bin.rs", "src/weak_learner/regression_tree/bin.rs", "src/weak_learner/neural_network/nn_weak_learner.rs"],
  [("set_nbins", "src/weak_learner/decision_tree/builder.rs"), ("cut", "src/weak_learner/decision_tree/bin.rs"), ("build", "src/weak_learner/regression_tree/builder.rs")],
  None, ["info()", "Display of tree learners", "produce"])

p("R03", "The logger's console report shows the settings in force and the run",
  "The logger and its builder use, for every component and number, the value given last (time limits in milliseconds, seconds or minutes), and refuse to be built only when a component is missing. A run first prints booster, weak learner, objective, their settings as they report them, and the time limit; then, unless silenced, a status line for every round divisible by the interval, and one closing line [FIN] for the last round; if the time limit ends the run, the closing line is [TLE], also when silenced. Each line shows its round's number, objective, training and test loss (to five decimals) and time, the same as the log file; nothing is printed out of order or for a round not played.",
  ["inputs", "histories", "schedules"],
  "all boosters, sequences of setter calls, intervals, time limits from 0 to 2^64 minutes, and games",
  "Quantifies over call sequences, intervals, limits and run lengths; no test runs the logger.",
  ["src/research/logger.rs", "src/research/logger_builder.rs"],
  [("print_stats", "src/research/logger.rs"), ("run", "src/research/logger.rs"), ("time_format", "src/research/logger.rs"), ("build", "src/research/logger_builder.rs")],
  None, ["standard output of a process running the logger, and its log file"])

p("H01", "A trained hypothesis is a value: its answer depends on the row's cells alone",
  "The answer of a trained hypothesis (of any learner, or a vote or aggregation returned by a booster) on a row is settled once it is trained and depends on the cells of that row only: not on the sample the row stands in, its position, the other rows, the labels, dense or sparse storage, the reader the sample came from, or what was asked before. Trees, and votes of trees, find cells by the name of the column, whatever the order of the columns and whatever other columns there are. Answers for all rows are those row by row, a label is the sign of the answer. A clone, and a hypothesis written with serde and read back, equals the original and answers the same, and outlives it; storing again gives the same document.",
  ["inputs", "histories"],
  "all learners and boosters, histories of training, copying, dropping, storing, loading and asking, and all samples having the columns trained on",
  "Quantifies over histories and over samples other than the training sample; tests predict on the training sample only and never clone, store or load.",
  ["src/hypothesis/weighted_majority.rs", "src/hypothesis/naive_aggregation.rs", "src/hypothesis/hypothesis_traits.rs", "src/weak_learner/common/split_rule.rs", "src/weak_learner/decision_tree/node.rs", "src/weak_learner/regression_tree/node.rs", "src/weak_learner/naive_bayes/nbayes_classifier.rs", "src/weak_learner/neural_network/nn_hypothesis.rs"],
  [("split", "src/weak_learner/common/split_rule.rs"), ("confidence", "src/hypothesis/weighted_majority.rs"), ("confidence", "src/weak_learner/naive_bayes/nbayes_classifier.rs"), ("confidence_all", "src/hypothesis/hypothesis_traits.rs")],
  None, ["confidence, predict, confidence_all, predict_all, Clone, Serialize, Deserialize, PartialEq of hypotheses"])

p("S07", "Readers and cross validations do what their last calls say",
  "A sample reader reads the file, header setting and target column given last, in whatever order the calls were made, and the file as it is when it is read; only a file with extension csv is read as CSV (needing a target column), any other as SVMLight; a missing file is reported as an error, an unset file, an unknown target or an unreadable line is refused, and a sample already read never changes. A cross validation uses the training ratio, number of folds and verbosity given last (defaults 0.8, 5, off), also when given between folds; it hands out exactly that many folds, the i-th testing the i-th stretch of rows in the current order and training on all others in order. The order is that of the sample until it is shuffled; shuffling uses the seed given last before it (default 1234), equal calls give equal orders, whatever other settings there are, different seeds different ones. If verbose, each fold prints one line with its number and the sizes of its parts; otherwise nothing is printed.",
  ["inputs", "histories"],
  "all sequences of file changes, reader calls, cross-validation calls and folds drawn, on all samples, ratios, seeds and numbers of folds",
  "Quantifies over call sequences and seeds; no test builds a cross validation, and readers are built in one fixed order.",
  ["src/sample/sample_reader.rs", "src/sample/sample_struct.rs", "src/research/cross_validation.rs"],
  [("read", "src/sample/sample_reader.rs"), ("shuffle", "src/research/cross_validation.rs"), ("next", "src/research/cross_validation.rs"), ("fold_at", "src/research/cross_validation.rs"), ("split", "src/sample/sample_struct.rs")],
  None, ["SampleReader, CrossValidation as an iterator, Sample lookups, standard output of a process drawing folds"])

p("P01", "Equal questions get equal answers, on any number of threads",
  "What is asked of the library about the same data with the same settings is answered alike every time: producing a hypothesis from a sample and weights (decision tree with any criterion, regression tree, Gaussian naive Bayes), running a booster over one of these, reading a file, shuffling a cross validation with a seed, training a given network on given batches, weighted statistics of a sample, the confidences of a hypothesis and the objective functions. The answer does not depend on the number of threads of the pool it is asked on, on how the work is cut into pieces, on what was asked before, on other questions under way at the same time, or on the process: ties between features, thresholds and labels are settled the same way each time. Only what is documented as random (initial parameters of a network, an unseeded generator) is exempt.",
  ["inputs", "schedules", "histories"],
  "all samples, weights, settings, pool sizes, divisions of the work into pieces, and orders in which several askers begin and finish",
  "Quantifies over schedules and repeated calls; no test asks twice or sets a number of threads, and hash orders and divisions of work change from call to call.",
  ["src/weak_learner/decision_tree/criterion.rs", "src/weak_learner/decision_tree/bin.rs", "src/weak_learner/decision_tree/decision_tree_algorithm.rs", "src/weak_learner/regression_tree/regression_tree_algorithm.rs", "src/weak_learner/naive_bayes/probability.rs", "src/sample/sample_struct.rs", "src/sample/feature_struct.rs", "src/common/utils.rs", "src/research/cross_validation.rs"],
  [("best_split", "src/weak_learner/decision_tree/criterion.rs"), ("pack", "src/weak_learner/decision_tree/bin.rs"), ("confidence_and_loss", "src/weak_learner/decision_tree/decision_tree_algorithm.rs"), ("best_split", "src/weak_learner/regression_tree/regression_tree_algorithm.rs"), ("weighted_mean_and_variance", "src/sample/sample_struct.rs"), ("inner_product", "src/common/utils.rs")],
  None, ["hypotheses as JSON, their confidences, combined hypotheses of all boosters, samples read, folds, statistics; asked from several threads on rayon pools of 1 to 8 threads"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
