#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os
S = "src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                          observe_at=observe or [], hook_needed=hook))
    P.append(d)

T_ABSENT = ("The tests that exercise this read dataset files that are not in the repository, so only the "
            "toy naive-Bayes test runs at all; ")

prop("P01", "Reading a CSV file is faithful",
 "Reading a comma-separated file yields exactly its table: one example per data line in file order, each number equal to the "
 "parsed cell, the designated column as target and every other column a feature in file order under its header name (without a header "
 "the columns are named `Feat. [1]`, `Feat. [2]`, ...). Shape, access by name, access by position and access by example all agree, and a "
 "table built in memory from the same columns is the same sample. A file whose lines disagree in the number of fields is rejected, "
 "never loaded misaligned, and so is one with a cell that is not a number; a file that cannot be opened or read to its end (missing, a directory, not text) "
 "is returned as an error.",
 ["inputs"], "every well-formed or ragged CSV file, any column order, header or none, any target column, any number of rows and columns",
 T_ABSENT + "no test checks what was read cell by cell, and the space of layouts is unbounded.",
 [S+"sample/sample_struct.rs", S+"sample/sample_reader.rs", S+"sample/feature_struct.rs"],
 [("CSV parser", "Sample::from_csv"), ("target extraction", "Sample::set_target"), ("reader front end", "SampleReader::read"), ("in-memory construction", "Sample::from_dataframe")],
 ["SampleReader::read", "Sample::{shape,target,features,at,index,unique_target,replace_names}"])

prop("P02", "Reading a SVMLight file is faithful",
 "Reading a sparse `target index:value ...` file yields one example per line in file order with that target, the given value at every "
 "listed index and zero everywhere else; index j is feature `Feat. [j+1]`, and features that no line mentions are omitted without "
 "disturbing the others. Shape, access by name, by position and by example agree, and the counts of stored, zero and total entries of each "
 "feature are consistent with the file. A label, index or value that is not a number is refused, never read as something else, as is a pair with a third part, and a file that cannot be opened or "
 "read to its end is returned as an error.",
 ["inputs"], "every SVMLight file: index gaps, unordered indices in a line, empty lines of features, 0- or 1-based indices",
 T_ABSENT + "no test reads the sparse format and compares values.",
 [S+"sample/sample_struct.rs", S+"sample/feature_struct.rs"],
 [("SVMLight parser", "Sample::from_svmlight"), ("dropping empty features", "Sample::remove_allzero_features"), ("sparse lookup", "Index<usize> for SparseFeature")],
 ["SampleReader::read", "Sample::{shape,target,features,at,index}", "SparseFeature::{len,has_zero,zero_counts,iter}"])

prop("P03", "Weighted feature statistics equal their definition",
 "For every sample and every weighting of its examples, the per-feature weighted mean and variance equal sum w*x and sum w*(x-mean)^2, and the "
 "per-label versions equal the same quantities computed on the examples of that label only and divided by their total weight. "
 "The results do not depend on whether the data is stored densely or sparsely.",
 ["inputs"], "all samples (dense, sparse, any sparsity, any label set), all probability / non-negative weight vectors, all labels",
 "The one passing test feeds a single dense three-feature table; sparse storage and uneven weights are never observed.",
 [S+"sample/sample_struct.rs", S+"sample/feature_struct.rs", S+"common/utils.rs"],
 [("mean/variance", "Feature::weighted_mean_and_variance"), ("per-label mean/variance", "Feature::weighted_mean_and_variance_for_label"), ("label mass", "utils::total_weight_for_label")],
 ["Sample::{weighted_mean,weighted_mean_and_variance,weighted_mean_for_label,weighted_mean_and_variance_for_label}"])

prop("P04", "Cross validation partitions the data exactly",
 "Every fold splits the sample into a training and a test part that together contain each original example exactly once, with its exact "
 "feature values, label, feature names and storage kind. With the chosen train ratio r on n examples the test parts are consecutive blocks of n - floor(r*n) "
 "examples (the last possibly shorter or empty) of one fixed order, so they are pairwise disjoint; the requested number of folds is produced, "
 "shuffling only permutes the order, the same seed gives the same folds in whatever order the settings were made, and other seeds give others.",
 ["inputs", "configurations"], "all samples (dense, sparse), sizes, ratios, fold counts, seeds, shuffled or not",
 T_ABSENT + "nothing tests cross validation.",
 [S+"research/cross_validation.rs", S+"sample/sample_struct.rs"],
 [("fold boundaries", "CrossValidation::fold_at"), ("row distribution", "Sample::split"), ("seeded shuffle", "CrossValidation::shuffle")],
 ["CrossValidation iterator", "Sample::{at,shape,target,features}"])

prop("P05", "Every weighting given to the weak learner is a probability vector",
 "In every round, every boosting algorithm for classification hands the weak learner the original sample and a weight vector with one "
 "finite, non-negative entry per example that sums to one. In the first round the weights are uniform (except for the graph-separation "
 "booster, whose weights are proportional to the number of still-confused pairs of each example).",
 ["inputs", "histories", "configurations"], "all binary samples, all sequences of hypotheses with positive edge a weak learner may return, all boosters and parameters",
 T_ABSENT + "tests look at final losses only, never at what the learner is given.",
 [S+"booster/adaboost/adaboost_algorithm.rs", S+"booster/adaboostv/adaboostv_algorithm.rs", S+"booster/madaboost/madaboost_algorithm.rs",
  S+"booster/smoothboost/smoothboost_algorithm.rs", S+"booster/lpboost/lpboost_algorithm.rs", S+"booster/erlpboost/erlpboost_algorithm.rs",
  S+"booster/cerlpboost/cerlpboost_algorithm.rs", S+"booster/mlpboost/mlpboost_algorithm.rs", S+"booster/softboost/softboost_algorithm.rs",
  S+"booster/totalboost/totalboost_algorithm.rs", S+"booster/graph_separation_boosting/graph_separation_algorithm.rs", S+"common/utils.rs"],
 [("initial weights", "Booster::preprocess of each booster"), ("re-weighting", "Booster::boost of each booster"), ("projection", "utils::project_log_distribution_to_capped_simplex")],
 ["WeakLearner::produce(sample, dist) of a recording learner"])

prop("P06", "AdaBoost follows its reweighting law and error bound",
 "If round t returned a hypothesis with edge g_t in (0,1) on the weights of that round, the next round's weights are proportional to the current "
 "ones times exp(-a_t*y*h_t(x)) with a_t = ln((1+g_t)/(1-g_t))/2, and the final vote gives each collected hypothesis weight a_t / sum a. "
 "Hence the training error of the final vote is at most the product of sqrt(1-g_t^2). A hypothesis with edge 1 ends the run and is returned alone.",
 ["inputs", "histories"], "all samples and all sequences of positive-edge hypotheses, binary or confidence-rated",
 T_ABSENT + "and they only print a loss for one dataset.",
 [S+"booster/adaboost/adaboost_algorithm.rs", S+"hypothesis/weighted_majority.rs"],
 [("weight update", "AdaBoost::update_params"), ("vote", "AdaBoost::postprocess"), ("early exit on perfect hypothesis", "AdaBoost::boost")],
 ["WeakLearner::produce", "Booster::run result", "Research::current_hypothesis"])

prop("P07", "AdaBoostV follows the adaptive-margin reweighting law",
 "AdaBoostV keeps r_t = min over past edges minus the tolerance and uses a_t = ln((1+g_t)/(1-g_t))/2 - ln((1+r_t)/(1-r_t))/2 as the coefficient of "
 "round t: the next weights are proportional to exp(-y * sum of a*h), and the final vote weights are the normalised coefficients. "
 "A hypothesis with edge 1 ends the run and is returned alone.",
 ["inputs", "histories", "configurations"], "all samples, sequences of positive-edge hypotheses and tolerances",
 T_ABSENT + "no test observes the distributions.",
 [S+"booster/adaboostv/adaboostv_algorithm.rs"],
 [("margin estimate and update", "AdaBoostV::update_params"), ("vote", "AdaBoostV::postprocess")],
 ["WeakLearner::produce", "Booster::run result"])

prop("P08", "MadaBoost never raises an example above its initial weight",
 "In MadaBoost every example's weight before normalisation is min(1, product over past rounds t of exp(-a_t*y*h_t(x))), where a_t > 0 is the (unnormalised) "
 "vote weight of round t's hypothesis and grows with that hypothesis' edge: weights start uniform, examples the vote so far gets wrong stay capped at the initial weight, "
 "and the returned vote is proportional to the a_t.",
 ["inputs", "histories"], "all samples and sequences of positive-edge hypotheses",
 T_ABSENT + "no test observes the distributions.",
 [S+"booster/madaboost/madaboost_algorithm.rs"],
 [("cap and update", "MadaBoost::update_params"), ("vote", "MadaBoost::postprocess")],
 ["WeakLearner::produce", "Booster::run result"])

prop("P09", "SmoothBoost weightings are smooth and its margin guarantee holds",
 "With smoothness parameter k on n examples no weight SmoothBoost hands out exceeds 1/(k*n) while it has not terminated, and each round's raw weight is "
 "min(1, (1-g)^(N/2)) with N the example's accumulated y*h(x) minus theta per past round, theta = g/(2+g). If every round's hypothesis has the "
 "assumed advantage g, then when it terminates fewer than a k fraction of the examples have margin below theta in the final uniform vote over "
 "all the collected hypotheses.",
 ["inputs", "histories", "configurations"], "all samples, k in (0,1), g in (0,1/2), sequences of hypotheses with edge at least 2g (in particular more rounds than examples)",
 T_ABSENT + "a loss print on one dataset says nothing on smoothness or margins.",
 [S+"booster/smoothboost/smoothboost_algorithm.rs"],
 [("weight update", "SmoothBoost::boost"), ("termination", "SmoothBoost::boost"), ("uniform vote", "SmoothBoost::postprocess")],
 ["WeakLearner::produce", "Booster::run result"])

prop("P10", "Soft-margin boosters respect the weight cap 1/nu",
 "LPBoost, ERLPBoost, C-ERLPBoost, MLPBoost and SoftBoost with capping parameter nu in [1, n] never give any example a weight above 1/nu.",
 ["inputs", "histories", "configurations"], "all samples, nu in [1,n] including both ends, sequences of positive-edge hypotheses, Frank-Wolfe variants",
 T_ABSENT + "the cap is invisible in the final loss they print.",
 [S+"booster/lpboost/lp_model.rs", S+"booster/erlpboost/qp_model.rs", S+"booster/softboost/qp_model.rs", S+"booster/mlpboost/perturbed_lp_model.rs", S+"booster/cerlpboost/cerlpboost_algorithm.rs", S+"common/utils.rs"],
 [("cap constraints of the linear/quadratic programs", "LPModel::new / QPModel::new / build_constraint_matrix"), ("capped projection", "utils::project_log_distribution_to_capped_simplex")],
 ["WeakLearner::produce"])

prop("P11", "Soft-margin boosters reach an epsilon-optimal soft margin",
 "When the weak learner always returns the best hypothesis of a finite pool, LPBoost, ERLPBoost, C-ERLPBoost, MLPBoost and SoftBoost stop with a combined "
 "hypothesis whose soft-margin objective (average of the nu smallest margins) is within the requested tolerance of the best achievable by any convex "
 "combination of the pool. MLPBoost's combination is after every round, up to its regularisation, no worse than LPBoost's over the hypotheses received so far.",
 ["inputs", "histories", "configurations"], "all finite pools (closed under negation or with positive value), samples, nu and tolerances",
 T_ABSENT + "optimality needs an independent certificate, which no test has.",
 [S+"booster/lpboost/lpboost_algorithm.rs", S+"booster/erlpboost/erlpboost_algorithm.rs", S+"booster/cerlpboost/cerlpboost_algorithm.rs", S+"booster/mlpboost/mlpboost_algorithm.rs", S+"booster/softboost/softboost_algorithm.rs"],
 [("stopping criterion", "Booster::boost of each"), ("primal weights from the solver", "LPModel / QPModel"), ("secondary algorithm", "common/frank_wolfe.rs")],
 ["Booster::run result", "WeakLearner::produce"])

prop("P12", "Hard-margin boosters reach a near-maximal margin",
 "When the weak learner always returns the best hypothesis of a finite pool whose best convex combination has minimum margin r > 0, AdaBoostV and TotalBoost stop "
 "with a combined hypothesis of minimum margin at least r minus the tolerance.",
 ["inputs", "histories", "configurations"], "all finite pools and samples that are separable with positive margin, all tolerances",
 T_ABSENT + "they never compute a margin.",
 [S+"booster/adaboostv/adaboostv_algorithm.rs", S+"booster/totalboost/totalboost_algorithm.rs", S+"booster/softboost/softboost_algorithm.rs"],
 [("round budget and margin estimate", "AdaBoostV::preprocess / update_params"), ("quadratic program with margin target", "softboost/qp_model.rs")],
 ["Booster::run result"])

prop("P13", "Gradient boosting is an additive model with non-increasing loss",
 "In every round gradient boosting shows the weak learner the current predictions of its model on the training sample, then adds the returned regressor with the "
 "coefficient that fits the loss best along it. The training loss never increases from round to round, and the returned model predicts exactly the sum of coefficient "
 "times regressor, on the training data and on new data.",
 ["inputs", "histories", "configurations"], "all regression samples, both losses, all sequences of regressors (including zero, constant and negatively correlated ones)",
 T_ABSENT + "tests print a loss for one dataset.",
 [S+"booster/gradient_boost/gbm.rs", S+"common/loss_functions.rs"],
 [("coefficient search", "LossFunction::best_coefficient"), ("model update", "GBM::boost"), ("output", "GBM::postprocess")],
 ["WeakLearner::produce", "Booster::run result", "Research::current_hypothesis"])

prop("P14", "Graph separation boosting separates the training set",
 "The graph-separation booster weights every example by the share of opposite-label pairs, not yet distinguished by the predicted signs of the "
 "collected hypotheses, that it takes part in, and stops exactly when no such pair is left or the last hypothesis distinguished none of them. If no "
 "such pair is left, the returned aggregation classifies the whole training set correctly.",
 ["inputs", "histories"], "all binary samples and sequences of hypotheses",
 T_ABSENT + "no test looks at the weights.",
 [S+"booster/graph_separation_boosting/graph_separation_algorithm.rs", S+"hypothesis/naive_aggregation.rs"],
 [("edge removal", "GraphSepBoost::boost"), ("aggregation", "NaiveAggregation::new / confidence")],
 ["WeakLearner::produce", "Booster::run result"])

prop("P15", "Decision trees are greedy-optimal, bounded in depth, and honest in their leaves",
 "A decision tree trained on weighted examples has at most the requested number of splits on any root-to-leaf path, sends an example left exactly when its feature "
 "value is below the threshold, and each leaf's confidence equals the weighted label average of the training examples that reach it. Each split is the best "
 "one for the chosen criterion (entropy, Gini, edge, twoing) among the splits available at bin boundaries; examples of zero weight have no influence, "
 "scaling all weights changes nothing, and dense and sparse storage of the same data give the same classifier.",
 ["inputs", "configurations"], "all binary samples, weightings, depths, bin counts, criteria; constant, tied, tiny-range and huge-range features; dense and sparse",
 T_ABSENT + "the tree tests check one dataset's loss.",
 [S+"weak_learner/decision_tree/decision_tree_algorithm.rs", S+"weak_learner/decision_tree/bin.rs", S+"weak_learner/decision_tree/criterion.rs", S+"weak_learner/decision_tree/train_node.rs", S+"weak_learner/decision_tree/node.rs", S+"weak_learner/common/split_rule.rs"],
 [("binning", "Bins::cut / pack"), ("split search", "Criterion::best_split"), ("growth", "DecisionTree::full_tree"), ("leaf value", "TrainNode::leaf")],
 ["DecisionTree::produce", "Classifier::{confidence,predict}", "serde / dot output of the tree"])

prop("P16", "Regression trees make the loss-optimal splits and leaf values",
 "Given the current predictions, a regression tree's leaf predicts -G/(H+lambda) for the gradients and Hessians of the loss summed over the "
 "training examples reaching it, each split maximises G_L^2/(H_L+lambda)+G_R^2/(H_R+lambda) among the bin-boundary splits, and the depth limit is respected. "
 "Dense and sparse storage of the same data give the same regressor.",
 ["inputs", "configurations"], "all regression samples, current predictions, losses, depths, regularisation and bin settings",
 T_ABSENT + "no regression-tree test checks a leaf.",
 [S+"weak_learner/regression_tree/regression_tree_algorithm.rs", S+"weak_learner/regression_tree/bin.rs", S+"weak_learner/regression_tree/train_node.rs", S+"weak_learner/regression_tree/node.rs", S+"common/loss_functions.rs"],
 [("gradient/Hessian", "LossFunction::gradient_and_hessian"), ("split search", "RegressionTree::best_split"), ("leaf value", "TrainNode::leaf")],
 ["RegressionTree::produce", "Regressor::predict"])

prop("P17", "Gaussian naive Bayes equals the textbook classifier",
 "The Gaussian naive Bayes learner predicts, for every example including ones far from the training data, the label with the larger weighted class prior times the product over features "
 "of normal densities with that class's weighted mean and variance. Dense and sparse storage give the same predictions.",
 ["inputs"], "all samples with non-degenerate per-class variances, all weightings, all query points",
 "The only passing test is six-row, uniform-weight and three features; the density formula is wrong in ways that table cannot show.",
 [S+"weak_learner/naive_bayes/nbayes.rs", S+"weak_learner/naive_bayes/nbayes_classifier.rs", S+"weak_learner/naive_bayes/probability.rs"],
 [("densities", "Gaussian::log_probability"), ("prediction", "NBayesClassifier::confidence")],
 ["GaussianNB::produce", "Classifier::{confidence,predict}"])

prop("P18", "Neural network learning follows the true gradient",
 "A training step of the neural network moves every weight and bias by the learning rate times the negative gradient of the loss summed over the minibatch at the current parameters (cross entropy "
 "for SoftMax and Sigmoid outputs, squares for the identity), for every element-wise hidden activation and layer shape; training is n_epoch epochs of n_iter steps, every epoch on one minibatch of the configured number of distinct examples drawn by weight (none of zero weight), every step with the learning rate over the size of the minibatch. A trained network computes the "
 "composition of its affine layers and activations, and classifies by the class of the largest output (a single output is the confidence to be +1).",
 ["inputs", "configurations"], "all architectures, activations (element-wise), losses, parameters, samples and weightings",
 T_ABSENT + "the gradient is never compared with a finite difference.",
 [S+"weak_learner/neural_network/layer.rs", S+"weak_learner/neural_network/activation.rs", S+"weak_learner/neural_network/nn_loss.rs", S+"weak_learner/neural_network/nn_hypothesis.rs", S+"common/task.rs"],
 [("back propagation", "NNHypothesis::train / Layer::backward"), ("activation derivatives", "Activation::diff"), ("loss gradients", "NNLoss::diff"), ("schedule", "NeuralNetwork::produce")],
 ["NeuralNetwork::produce", "NNHypothesis prediction"], "read/write access to the private parameters, one training step, and a record of the training steps (cfg vp_hooks)")

prop("P19", "The worst-case learner is a best-response learner that stalls LPBoost",
 "The worst-case base learner always returns, from its fixed family, a hypothesis whose edge under the given weights is the largest in the family, all of whose values lie in [-1,1]. "
 "Boosted by LPBoost with capping parameter nu (at most n/4) on its dummy sample of n examples (n even) it makes LPBoost use at least (n/2)/ceil(nu) rounds.",
 ["inputs", "histories", "configurations"], "all even sample sizes, gap and cap parameters, all weightings",
 "No test runs it.",
 [S+"weak_learner/bad_learner/worstcase_lpboost.rs", S+"weak_learner/bad_learner/worstcase_classifier.rs", S+"weak_learner/bad_learner/builder.rs"],
 [("family", "BadClassifier::confidence"), ("best response", "BadBaseLearner::produce")],
 ["BadBaseLearner::produce", "Booster::run"])

prop("P20", "Combined hypotheses mean what they say",
 "A weighted vote's confidence (or prediction, for regressors) is the weighted sum of its members', predictions are the sign of the confidence with zero counting as +1, and the "
 "whole-sample calls agree with the per-example calls. Building a vote from weights and members keeps exactly the positive-weight members "
 "with weights rescaled to sum to one, and storing and reloading any learned hypothesis (trees, naive Bayes, votes of them) leaves every prediction unchanged. "
 "The naive aggregation predicts +1 exactly when some positive training example has the same sign pattern.",
 ["inputs"], "all samples, weight vectors, hypothesis sets, serialised models",
 T_ABSENT + "none round-trips a model or checks a combination.",
 [S+"hypothesis/weighted_majority.rs", S+"hypothesis/hypothesis_traits.rs", S+"hypothesis/naive_aggregation.rs"],
 [("vote", "WeightedMajority::confidence / predict / from_slices / push / normalize"), ("aggregation", "NaiveAggregation")],
 ["Classifier", "Regressor", "serde round trip"])

prop("P21", "The logger reports the true history of a run",
 "The experiment logger writes one line per boosting round whose objective value, training loss and test loss are those of the algorithm's current combined hypothesis after that round, and whose "
 "time column is the time spent in boosting so far (in milliseconds, without the time spent evaluating the losses) and never decreases. Logging does not change the result: the returned hypothesis equals that of an unlogged run, except that a time limit (in seconds or minutes), once boosting itself has taken longer, ends the run. "
 "What is printed at the chosen interval repeats the logged lines of exactly those rounds (and the settings that are in force), and the largest interval silences it. "
 "A log file that cannot be created, or a write to it that fails at any point, is returned as an error.",
 ["inputs", "histories", "configurations"], "all samples, boosters that support it, learners, loss functions, time limits, print intervals",
 T_ABSENT + "no test runs the logger.",
 [S+"research/logger.rs", S+"research/logger_builder.rs"],
 [("round loop", "Logger::run"), ("loss evaluation", "Logger"), ("time limit", "LoggerBuilder::time_limit_as_secs")],
 ["Logger::run output file and result"])

prop("P22", "Reported objective values equal their definitions",
 "The hard-margin objective of a vote is its smallest normalised margin, the soft-margin objective with parameter nu is the minimum over weightings capped at 1/nu of the weighted average margin (the average of the nu smallest margins), and "
 "the exponential loss is the average of exp(-margin) over the sample, where the margin is the label times the confidence.",
 ["inputs", "configurations"], "all samples, votes, nu in [1,n] including non-integers",
 "Nothing tests the objective functions.",
 [S+"research/objective_functions.rs"],
 [("objectives", "ObjectiveFunction::eval")],
 ["ObjectiveFunction::eval"])

prop("P23", "Runs are reproducible",
 "Running a booster again on the same object, or a fresh one with the same parameters, sample and deterministic learner gives the same sequence of weightings and the "
 "same combined hypothesis, a weak learner gives the same hypothesis for the same weights, and the number of worker threads does not change the result beyond rounding (and what rounding decides: ties).",
 ["schedules", "histories", "configurations"], "all boosters, samples, learners; thread counts; interleavings of the parallel loops",
 T_ABSENT + "no test runs anything twice.",
 [S+"booster", S+"weak_learner/decision_tree/decision_tree_algorithm.rs", S+"weak_learner/regression_tree/regression_tree_algorithm.rs"],
 [("state reset", "Booster::preprocess of each booster"), ("parallel reductions", "rayon par_iter uses")],
 ["Booster::run", "WeakLearner::produce"])

prop("P24", "Runs stay within their round budget and output only what was learned",
 "With hypotheses of positive edge every booster terminates within its documented round budget (or forced limit), calling the learner at most once per round. Combined votes consist only of hypotheses the learner "
 "returned in this run, with positive weights that sum to one.",
 ["inputs", "histories", "configurations"], "all boosters, samples, parameters, forced limits, learner behaviours",
 T_ABSENT + "the budget is not observable in a final loss.",
 [S+"booster"],
 [("budgets", "max_loop / max_iter computation in Booster::preprocess"), ("vote construction", "Booster::postprocess")],
 ["Booster::run", "WeakLearner::produce"])

prop("P25", "No data race, memory error or undefined behaviour in any workload",
 "Loading data, training with every booster and weak learner from any number of threads, evaluating, cross-validating and logging never race on memory, access it out of bounds or after release, or overflow.",
 ["schedules", "inputs"], "all workloads and thread interleavings of the library including its solver dependency",
 "Tests run without instrumentation and cannot observe a race.",
 [S+"weak_learner", S+"sample", S+"booster", S+"common"],
 [("safe Rust and rayon", "whole crate")],
 ["AddressSanitizer / ThreadSanitizer reports over the other properties' workloads"])

prop("P26", "Invalid training sets and parameters are rejected",
 "Starting a classification booster on a sample whose labels are missing, not (32-bit) integers or not exactly two kinds is refused, as is a capping parameter outside [1, n] or an out-of-range ratio, and "
 "a valid one is accepted.",
 ["inputs", "configurations"], "all label vectors and parameter values at and around the boundaries",
 "No test feeds invalid input.",
 [S+"sample/sample_struct.rs", S+"common/checker.rs", S+"booster"],
 [("label check", "Sample::is_valid_binary_instance"), ("parameter checks", "checker::check_nu and asserts in setters")],
 ["Booster::run / setters"])

prop("P27", "Corrective boosters play the entropy-regularised optimum",
 "Each weighting the corrective regularised boosters play is the capped exponential weighting exp(-eta*margin) of their current convex combination (C-ERLPBoost, MLPBoost), or minimises the largest past edge plus relative "
 "entropy over eta within the cap to solver accuracy (ERLPBoost); SoftBoost and TotalBoost play, as long as such weightings exist with room to spare, the least-relative-entropy weighting under which every past hypothesis has an edge of at most the smallest edge so far minus the tolerance.",
 ["inputs", "histories", "configurations"], "all samples, nu, eta/tolerance, sequences of hypotheses",
 T_ABSENT + "the weightings are never observed.",
 [S+"common/utils.rs", S+"booster/erlpboost/qp_model.rs", S+"booster/softboost/qp_model.rs", S+"booster/cerlpboost/cerlpboost_algorithm.rs", S+"booster/mlpboost/mlpboost_algorithm.rs"],
 [("capped projection", "utils::project_log_distribution_to_capped_simplex"), ("sequential quadratic programming", "QPModel::update")],
 ["WeakLearner::produce", "Research::current_hypothesis"])

prop("P28", "Drawings of trees show the tree that predicts",
 "The DOT text written for a decision or regression tree is a well-formed graph whatever the feature names are and draws exactly the tree that predicts: every split with its feature's name and threshold, every leaf with "
 "its value (numbers rounded to two decimals), an edge `Yes` to the side taken by values below the threshold and `No` to the other, so that following the drawing gives every row the tree's answer. "
 "An older file is replaced; a file that cannot be created, or a write that fails at any point, is returned as an error, without a panic.",
 ["inputs", "fault_sequences"], "all trees, feature names (quotes, backslashes, braces, non-ASCII), states of the file, points at which a write fails",
 T_ABSENT + "nothing draws a tree.",
 [S+"weak_learner/decision_tree/decision_tree_classifier.rs", S+"weak_learner/decision_tree/node.rs", S+"weak_learner/regression_tree/regression_tree_regressor.rs", S+"weak_learner/regression_tree/node.rs"],
 [("DOT writer", "to_dot_file / to_dot_info of both tree types")],
 ["DecisionTreeClassifier::to_dot_file", "RegressionTreeRegressor::to_dot_file"])

prop("P29", "Editing a sample changes what was asked and nothing else",
 "Designating a target moves exactly that column out of the features into the target, and renaming the features renames them in order and returns the old names; after any sequence of such edits every remaining feature is found under its name and its position with its values, old names "
 "are gone, copies made before are untouched, and unknown targets and wrong numbers of names are refused without a change. "
 "A tree finds its features by name: the same rows with columns in another order, with further columns, or stored otherwise get the same answers.",
 ["inputs", "histories"], "all samples read from files or built in memory, dense or sparse, all sequences of edits",
 T_ABSENT + "no test edits a sample.",
 [S+"sample/sample_struct.rs", S+"sample/feature_struct.rs", S+"weak_learner/common/split_rule.rs"],
 [("edits", "Sample::set_target / replace_names"), ("lookup by name", "Index<&str> for Sample, Splitter::split")],
 ["Sample::{set_target,replace_names,features,target,at,index}", "Classifier / Regressor of trees"])

prop("P30", "Boosters and learners describe themselves truthfully",
 "The parameters a booster or weak learner states (tolerance, capping in units and percent, Frank-Wolfe rule, forced limit, depth, criterion, loss, ...) are those in force whatever the order in which they were set, its iteration bound is the one its runs obey, and its defaults are the documented ones; "
 "the round a run reports to have ended in is the round in which it ended, and the documented initial value before any run.",
 ["configurations", "histories"], "all boosters and learners, parameter values, orders of setters, before and after runs",
 T_ABSENT + "nothing reads a description.",
 [S+"booster", S+"weak_learner", S+"research/logger.rs"],
 [("self description", "Research/Booster/WeakLearner info() and name()"), ("bounds", "max_loop / terminated")],
 ["Booster::{name,info}", "WeakLearner::{name,info}", "max_loop", "terminated"])

prop("P31", "Frank-Wolfe strategies take the steps they promise",
 "With the classic strategy C-ERLPBoost's combination moves in round t by 2/(t+1) of the way to the new hypothesis; with the short step by edge gain / (eta * squared largest margin difference), clipped to [0, 1]; with line search to the best point of the smoothed objective on the way; "
 "with blended pairwise steps, whenever the gap between the best and the worst active hypothesis is at least the gain of the new one, it instead shifts weight from the worst to the best active one, as much as is best for the smoothed objective and at most all of it. The last three never worsen the smoothed objective. "
 "MLPBoost's new combination is never worse in the smoothed objective than this step alone.",
 ["inputs", "histories", "configurations"], "all samples, sequences of positive-edge hypotheses (repeated ones included), nu, tolerances, the four strategies",
 T_ABSENT + "a wrong step size still converges, only later or elsewhere.",
 [S+"common/frank_wolfe.rs", S+"booster/cerlpboost/cerlpboost_algorithm.rs", S+"booster/mlpboost/mlpboost_algorithm.rs"],
 [("step sizes", "FrankWolfe::{classic,short_step,line_search,blended_pairwise}"), ("choice between primary and secondary update", "MLPBoost::better_weight")],
 ["WeakLearner::produce", "Research::current_hypothesis"])

prop("P32", "Totally corrective boosters use all they have seen and stop when due",
 "After every round LPBoost's weighting and combination are the optimum of the soft-margin linear program over the hypotheses so far, and so are SoftBoost's and TotalBoost's combinations (of LPBoost's program; ERLPBoost's: up to its regularisation ln(n/nu)/eta). "
 "A run ends in the first round in which the booster's own certificate allows it, not earlier (its iteration bound excepted) and not later: LPBoost, SoftBoost, TotalBoost when the smallest edge received is within the tolerance of that optimum; "
 "with half the tolerance, ERLPBoost when the smallest regularised edge is so close to the largest regularised edge of the past hypotheses, C-ERLPBoost when the new edge exceeds the combination's edge by no more, MLPBoost when the smallest edge exceeds the smoothed objective of its combination by no more.",
 ["inputs", "histories", "configurations"], "all samples, sequences of positive-edge hypotheses, nu, tolerances from 0.02 to 0.9",
 T_ABSENT + "a booster that stops too early or too late, or forgets a hypothesis, still returns a plausible vote.",
 [S+"booster/lpboost", S+"booster/erlpboost", S+"booster/softboost", S+"booster/totalboost", S+"booster/cerlpboost", S+"booster/mlpboost"],
 [("stopping rules", "Booster::boost of the corrective boosters"), ("solutions", "lp_model.rs / qp_model.rs update()")],
 ["WeakLearner::produce", "Research::current_hypothesis", "Booster::boost"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
