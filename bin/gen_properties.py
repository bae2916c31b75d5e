#!/usr/bin/env python3
"""Writes /verif/properties.jsonl; statements are edited here."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":["src/"+f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    assert len(title)<=80,(id,title)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
C="core/"; M="methods/"; O="core/optimizer/"
p("C01","KD-tree k-nearest-neighbour search is exact",
 "For every data set, leaf size, metric (euclidean, manhattan, chebyshev) and k between 1 and the number of points, a KD-tree kNN query returns for each query row k distinct training indices with their true distances in non-decreasing order, and no training point left out is strictly closer than the farthest one returned; a k beyond the number of points is refused. The answer does not depend on the leaf size, on earlier queries or on the other rows of the query batch, and a copy of a tree and its original answer alike whichever of them outlives the other.",
 ["inputs","configurations","histories"],"all finite data matrices, leaf sizes, metrics, ks, query batches and query sequences",
 "kd_tree_test prints one query's result and asserts nothing; a pruning error shows only for particular point/box geometries.",
 [C+"tree/kd_tree.hpp",C+"common.hpp",C+"metric.hpp"],[("median split on the axis of largest spread","KDTree construction"),("bounded priority queue pruned by box distance","KDTree::query")],
 [("tree","boxes, leaf data and leaf indices","KDTree")],["KDTree::query"])
p("C02","KD-tree radius search returns exactly the closed ball",
 "For every data set, leaf size, metric, query batch and radius r >= 0, a radius query reports for each query row every training point at distance at most r exactly once, with its index and true distance, and nothing else. Query rows whose ball is empty contribute no list, and the remaining lists stay in query order.",
 ["inputs","configurations"],"all finite data matrices, leaf sizes, metrics, query batches and radii, including points exactly on the boundary and radius 0",
 "kd_tree_test prints one radius query; boundary points, duplicates and empty balls are never exercised and nothing is asserted.",
 [C+"tree/kd_tree.hpp",C+"common.hpp"],[("box/ball intersection prune then leaf scan","KDTree::query_radius")],None,["KDTree::query_radius"])
p("C03","k-nearest-neighbour classifier predicts the majority of the k nearest",
 "For every training set, every k up to the number of training rows, leaf size, metric and query batch, and for both the kd-tree and the brute-force solver, the label predicted for a query is one that occurs most often among the labels of some valid choice of the query's k nearest training points (ties in distance or in votes may be broken either way). Predictions of one row do not depend on other rows, on earlier predictions or on an earlier fit, and predicting with a larger k is refused.",
 ["inputs","configurations","histories"],"all labelled data sets, ks, solvers, metrics, query batches and fit/predict histories",
 "The two classifier tests do not even compile at the pinned commit; nothing asserts a prediction.",
 [M+"neighbors/k_nearest_neighbors.hpp",C+"tree/kd_tree.hpp",C+"math/ops.hpp"],[("vote over neighbour labels","KNearestNeighbors::predict")],None,["KNearestNeighbors::predict"])
p("C04","Hash-tree support counts equal the number of matching additions",
 "For every history of insertions, support additions and frequency reports, a stored itemset's reported support is exactly the number of support additions made for that itemset after it was inserted, whatever its hash collisions, its length and the lengths of the others, the leaf capacity and the modulus. A report at threshold t lists exactly the stored itemsets whose support is at least t, each once, and repeating a report without additions gives the same answer.",
 ["histories","inputs","configurations"],"all finite histories of insert / add-support / report calls over itemsets of any sizes, all leaf capacities and moduli",
 "hash_tree_test runs one fixed history and prints it; collisions, splits at each depth and repeated reports are not asserted.",
 [C+"tree/hash_tree.hpp"],[("bucket split when a leaf overflows","HashTree::insert"),("count in the leaf bucket","HashTree::add_support")],
 [("tree","hash nodes with itemset->count buckets","HashTree")],["HashTree::insert","HashTree::add_support","HashTree::compute_frequency_itemsets"])
p("C05","Apriori finds exactly the confident rules of the frequent itemsets",
 "For every transaction database and thresholds, mining generates each association rule A => B exactly once, with confidence count(A and B)/count(A), for exactly those disjoint non-empty A and B whose union occurs in at least floor(min_support * number of transactions) transactions (and at least one) and whose confidence reaches the minimum. The result depends neither on the order of transactions, nor on the order or repetition of items in a transaction, nor on an earlier fit, and mining fails only when no single item is frequent.",
 ["inputs","configurations","histories"],"all transaction databases, minimum supports, minimum confidences and fit histories",
 "apriori_test mines one small database and prints; order dependence, empty levels and refits are never exercised.",
 [M+"rule_model/apriori.hpp",C+"tree/hash_tree.hpp",C+"preprocessing/transaction_encoder.hpp",C+"common.hpp"],[("level-wise join of frequent itemsets and counting in a hash tree","Apriori::fit_transform"),("rule generation by confidence","Apriori rule generation")],None,["Apriori::fit_transform","Apriori::get_rules"])
p("C06","Transaction encoding is a lossless sparse item matrix",
 "For every list of transactions the encoder returns one row per transaction and one column per distinct item in ascending item order; the entry of a row and column is the column's item exactly when the transaction contains it (however often) and zero otherwise, each position being stored at most once. The encoding depends only on the transactions passed to that call.",
 ["inputs","histories"],"all transaction lists, with empty transactions, repeated items and unsorted items, and all call histories",
 "transaction_encoder_test prints one encoding.",
 [C+"preprocessing/transaction_encoder.hpp"],[("item to column map","TransactionEncoder::fit_transform")],None,["TransactionEncoder::fit_transform"])
p("C07","Shuffling and splitting keep rows paired and partition the data",
 "For every data set and seed state, shuffling a data set returns its rows in some order, each still paired with its own label, shuffling a matrix along an axis permutes its columns (0) or rows (1), and a random permutation holds every index once; every order is possible and no input is changed. A train/test split puts every (row, label) pair in exactly one part, the training part having the floor of size times train_size rows, and keeps the order of the data when shuffling is off. Dividing on a feature lists, in order, the rows at most the threshold on one side and all others on the other. Uniform and integer draws have the requested shape and stay in the requested range.",
 ["inputs","configurations","schedules"],"all data sets, ratios, shuffle flags, thresholds and random permutations",
 "No test asserts any split; pairing errors need specific sizes and ratios.",
 [C+"math/shuffle.hpp",C+"math/random.hpp",C+"data/split.hpp"],[("one permutation applied to both arrays","shuffle"),("head/tail split","train_test_split")],None,["random::shuffle_data","random::permutation","random::rand","random::randint","data::train_test_split","data::divide_on_feature"])
p("C08","Loading a text data set reproduces every number of the file",
 "For every well-formed file of whitespace-separated numbers, loading returns one row per line and one column per field with each value equal to the number written there, in order, the last field being the label exactly when labels are requested; nothing the caller held in the outputs before is part of the result. With labels, blank lines are skipped and an empty or ragged file is an error; without labels every line is a row of its own length. A missing file is always an error.",
 ["inputs","histories"],"all files (line counts, column counts, number formats, blank lines, missing files) and loading histories",
 "Tests load the same five clean files and assert nothing about the contents.",
 [C+"data/load.hpp"],[("line splitting and conversion","loadtxt")],None,["data::loadtxt"])
p("C09","Stochastic gradient descent visits each epoch's rows in whole batches",
 "In every epoch of the stochastic optimizers each full batch consists of exactly batch-size distinct (row, label) pairs of the data, no pair is used twice in one epoch and the number of batches is the number of full batches that fit; without shuffling batches come in data order. Every update moves the weights by the (policy-transformed) gradient of the current batch at the current weights with the current epoch's learning rate.",
 ["inputs","configurations","schedules"],"all data sizes, batch sizes, epochs, shuffle outcomes, update and decay policies and loss functions",
 "sgd_test checks that one run of a convex problem finishes; batch composition is never observed.",
 [O+"sgd/sgd.hpp",O+"sgd/sag.hpp",O+"sgd/tg.hpp",C+"math/shuffle.hpp"],[("epoch and batch loops","SGD::optimize")],None,["LossFunctionType::gradient/evaluate arguments"])
p("C10","Iterative optimizers stop and report by their convergence rule",
 "Each stochastic gradient optimizer (SGD, SAG, truncated gradient) stops exactly at the first epoch in which the summed batch loss has failed to improve on its best earlier value by at least tolerance times batch size for the configured number of consecutive epochs, returning the weights it holds then, and signals non-convergence with an exception if that never happens within the epoch limit. Whatever the losses do, it terminates within the epoch limit.",
 ["histories","configurations"],"all sequences of per-epoch loss values, tolerances, patience values and epoch limits",
 "Tests run one loss sequence per optimizer; the counter/best-loss logic has many orderings they never reach.",
 [O+"sgd/sgd.hpp",O+"sgd/sag.hpp",O+"sgd/tg.hpp"],[("no-improvement counter and best loss","optimize loops")],None,["return value / exception of optimize"])
p("C11","Stochastic average gradient steps along the mean of stored gradients",
 "At every step of the stochastic average gradient optimizer the weights move against the average, over all batches of the data, of the most recent gradient computed for each batch (zero for batches not yet visited), with exactly the visited batch's entry replaced. The step equals learning rate times that average.",
 ["inputs","histories","schedules"],"all gradient sequences, batch visiting orders, batch counts and learning rates",
 "sag_test only runs to completion on one data set.",
 [O+"sgd/sag.hpp"],[("gradient table and running sum","SAG::optimize")],None,["successive weights passed to the loss"])
p("C12","Truncated gradient penalty shrinks weights without crossing zero",
 "After each truncated-gradient penalty step every weight lies between zero and the value it had after the gradient step, so a penalty never changes a weight's sign nor grows its magnitude. Each weight is moved towards zero by the penalty accumulated over all steps so far less the net penalty it has already received, stopping at exactly zero, so the net penalty a weight has received never exceeds the accumulated penalty.",
 ["inputs","histories","configurations"],"all gradient sequences, learning rates, penalty strengths and batch counts",
 "truncated_gradient_test runs one problem and prints weights.",
 [O+"sgd/tg.hpp"],[("cumulative l1 penalty bookkeeping","TruncatedGradient::optimize")],None,["successive weights passed to the loss"])
p("C13","Stochastic coordinate descent changes one coordinate per step, downhill",
 "Every step of stochastic coordinate descent changes at most one weight, the one whose own soft-thresholded change promises the largest decrease of the regularised quadratic bound, by exactly that change computed from the gradient at the current weights, the curvature bound and the regularisation strength.",
 ["inputs","histories","configurations"],"all gradient vectors, curvature bounds, regularisation strengths and iteration counts",
 "scd_test only runs one problem.",
 [O+"sgd/scd.hpp"],[("soft-threshold coordinate choice","SCD::optimize")],None,["successive weights passed to the loss"])
p("C14","Learning-rate decay and update policies follow their recurrences",
 "Step decay and exponential decay give for every epoch the learning rate of their documented formulas, never negative and never larger than the initial rate. Vanilla updates subtract rate times gradient; momentum updates keep a velocity v = mu*v + rate*gradient across the whole run and subtract it; Nesterov updates keep the same velocity and subtract it plus mu times its last change.",
 ["histories","configurations"],"all epochs, decay parameters, momentum coefficients and gradient sequences",
 "The tests use default policies and never look at a rate or a velocity; one policy is never instantiated.",
 [O+"sgd/decay_policies/exponential_decay.hpp",O+"sgd/decay_policies/step_decay.hpp",O+"sgd/update_policies/momentum_update.hpp",O+"sgd/update_policies/nesterov_momentum_update.hpp",O+"sgd/update_policies/vanilla_update.hpp"],[("policy formulas","policy classes")],None,["policy results"])
p("C15","L-BFGS makes monotone progress and honours its line-search conditions",
 "Every step accepted by L-BFGS satisfies the configured line-search condition (Armijo, Wolfe or strong Wolfe) along a descent direction, so the objective never increases between accepted points; directions are the limited-memory quasi-Newton directions of the most recent correction pairs, a search accepts the first trial step that satisfies its condition, and the run stops as soon as, and only when, the gradient test, the relative-decrease test, the iteration limit or a line-search failure says so. The weights returned are the last accepted point, and a start that is already stationary is returned unchanged.",
 ["inputs","histories","configurations"],"all smooth objectives, starting points, memory sizes, line-search policies and parameter settings",
 "lbfgs_test prints one logistic-regression fit; line-search conditions are never checked.",
 [O+"lbfgs/lbfgs.hpp",O+"lbfgs/params.hpp",O+"lbfgs/search_policies/backtracking.hpp",O+"lbfgs/search_policies/bracketing.hpp"],[("two-loop recursion and line search","LBFGS::optimize"),("step acceptance tests","search policies")],None,["LossFunctionType::evaluate/gradient call sequence"])
p("C16","Loss functions: value, gradient and finiteness agree",
 "For every data set and weight vector each loss (logistic, squared, hinge, Huber, softmax) returns its documented value - the mean over the samples, for the hinge loss the sum, plus the regularisation term where the loss has one -, finite even for very large scores, and each gradient is the exact derivative of that value (a subgradient at kinks). Evaluating a loss never depends on earlier evaluations and never modifies its arguments.",
 ["inputs","histories"],"all data matrices, labels, weights and regularisation strengths, including saturated scores",
 "Loss tests compare nothing; gradients are printed for one data set.",
 [C+"loss/log_loss.hpp",C+"loss/hinge_loss.hpp",C+"loss/mean_squared_error.hpp",C+"loss/softmax_loss.hpp",C+"loss/huber_loss.hpp"],[("evaluate/gradient pairs","loss classes")],None,["evaluate","gradient"])
p("C17","Linear regressors solve their normal equations and predict affinely",
 "Linear and ridge regression return coefficients that satisfy their (regularised) normal equations for every design for which these have one solution - the intercept, when configured, being the last coefficient, that of a constant feature 1 -, lasso regression run to convergence meets the optimality conditions of its l1-penalised mean squares, and ridge never lengthens the coefficient vector as the penalty grows. Every linear regressor's prediction equals the affine function of its reported coefficients.",
 ["inputs","configurations","histories"],"all designs, targets, penalties, intercept settings and fit/predict histories",
 "Tests print coefficients for one data set.",
 [M+"linear_model/linear_regression.hpp",M+"linear_model/ridge_regression.hpp",M+"linear_model/lasso_regression.hpp",M+"linear_model/base.hpp"],[("closed-form solvers","fit"),("affine prediction","predict")],None,["get_coef/get_intercept/predict"])
p("C18","Linear classifiers predict the class their own scores favour",
 "For logistic, softmax and perceptron models every predicted label is the class with the largest probability or score (either of tied classes), reported probabilities lie in [0,1], sum to one per row, come in ascending order of the class labels, and are the logistic/softmax function of the affine score of the reported coefficients, whose last row is the intercept when one is configured. Trained on classes that are separated by a wide margin, a classifier labels its training rows with their own labels, whatever the solver.",
 ["inputs","configurations","histories"],"all data sets, coefficients reached by training, solvers, intercept settings and query batches",
 "Tests print predictions of one data set; an inverted decision is invisible.",
 [M+"linear_model/logistic_regression.hpp",M+"linear_model/softmax_regression.hpp",M+"linear_model/perceptron.hpp",M+"linear_model/base.hpp",C+"math/extmath.hpp"],[("decision function and argmax","predict/predict_prob")],None,["predict","predict_prob","coefficients"])
p("C19","Naive Bayes models are the exact Bayes rule of their counted statistics",
 "After fitting, the class list (ascending), class priors, per-class means and variances (Gaussian: population variance plus the smoothing portion of the largest one) or feature counts (multinomial) equal those counted from the training data; posterior probabilities follow Bayes' rule from these statistics (additively smoothed feature frequencies for the multinomial model) and sum to one, and predictions are the label of a class of largest posterior. Refitting forgets the earlier data.",
 ["inputs","configurations","histories"],"all labelled data sets, smoothing parameters, given priors, label values and fit/predict histories",
 "Both tests abort at the pinned commit; nothing asserts a posterior.",
 [M+"naive_bayes/base.hpp",M+"naive_bayes/gaussian_naive_bayes.hpp",M+"naive_bayes/multinomial_naive_bayes.hpp"],[("sufficient statistics and joint log likelihood","fit/predict_prob")],None,["get_* accessors","predict","predict_prob"])
p("C20","Decision-tree classification follows a greedy impurity-minimising tree",
 "For every training set and parameters, the predictions are those of some tree grown by recursively choosing a (feature, threshold) split that maximises the impurity decrease (gini or entropy) among splits allowed by the minimum-samples, minimum-decrease and depth limits, a threshold lying halfway between two neighbouring feature values of the node's rows. Leaves answer with their rows' class frequencies and predictions are the most frequent class's label; a node stays a leaf only when a limit or the lack of an impurity-decreasing split says so, and refits forget earlier data.",
 ["inputs","configurations","histories"],"all labelled data sets, criteria, stopping parameters, tie-breaks and fit/predict histories",
 "The test aborts at the pinned commit; split choice and stopping rules are never asserted.",
 [M+"tree/base.hpp",M+"tree/decision_tree_classifier.hpp",C+"math/extmath.hpp"],[("best split search and recursion","DecisionTree::build_tree")],None,["predict","predict_prob"])
p("C21","Decision-tree regression predicts leaf means of a greedy variance tree",
 "For every training set and parameters, the predictions are those of some tree grown by recursively choosing the split with the largest reduction of the configured criterion among the allowed ones, each leaf answering the mean of its rows' targets; a node is a leaf only when a limit (samples, depth, decrease, deviation of its targets) or the lack of a reducing split says so. Every prediction lies between the smallest and largest training target, and refits forget earlier data.",
 ["inputs","configurations","histories"],"all regression data sets, criteria, stopping parameters, tie-breaks and fit/predict histories",
 "The test aborts at the pinned commit; nothing asserts a prediction.",
 [M+"tree/base.hpp",M+"tree/decision_tree_regressor.hpp"],[("best split search and recursion","DecisionTreeRegressor")],None,["predict"])
p("C22","k-means assigns to nearest centroids and converges to a Lloyd fixed point",
 "Every k-means prediction is a nearest centroid of the fitted centroids; fitted centroids are reached from initial centres that are data rows (different rows for random initialisation; for kmeans++ rows at different positions as long as there are any) by repeating exact assign-and-average steps, stopping at the first step whose total movement is below the tolerance or at the iteration limit; no step increases the total within-cluster distance. A cluster that receives no point keeps its centroid, and refits forget earlier data.",
 ["inputs","configurations","schedules"],"all data sets, cluster counts, initialisation methods and outcomes, tolerances and iteration limits",
 "The test aborts at the pinned commit.",
 [M+"cluster/kmeans.hpp"],[("Lloyd iteration","KMeans::fit"),("kmeans++ / random initialisation","KMeans initialisation")],None,["KMeans::predict"])
p("C23","Gaussian mixtures keep a valid model and never lose likelihood",
 "After every fit the mixture weights are positive and sum to one, means lie in the data's range, covariances are symmetric positive definite, and responsibilities are the Bayes posterior of exactly these parameters, sum to one per row and make the prediction the most responsible component. Apart from the regularisation added to the covariances, an EM iteration never decreases the data likelihood, for every covariance type; the reported lower bound is the likelihood the last E step saw, and of several initialisations the one with the best bound is kept. Refits forget earlier data.",
 ["inputs","configurations","histories","schedules"],"all data sets, component counts, covariance types, initial responsibilities and fit histories",
 "gmm_test fits one data set with one covariance type and prints.",
 [M+"mixture/gaussian_mixture.hpp"],[("E and M steps","GMM::fit")],None,["accessors","predict","predict_prob"])
p("C24","Decompositions return ordered orthonormal components of the data",
 "Principal component analysis returns orthonormal components with non-increasing non-negative explained variances that equal the variance of the training data along them, ratios that are the variances over the total, and transforms any row by subtracting the training mean and projecting; each component is signed so that the training row projecting farthest along it is on its positive side; covariance, precision and score are those of the probabilistic model made of the components and the mean discarded variance. Truncated SVD returns orthonormal right directions with non-increasing singular values, the leading ones of the matrix when its random sketch captures them, refuses a sketch larger than the matrix, and transforms by projecting, whatever was transformed before.",
 ["inputs","configurations","histories"],"all data matrices, component counts, solvers and fit/transform histories",
 "Tests print components of one data set; transforming new data is never asserted.",
 [M+"decomposition/pca.hpp",M+"decomposition/truncated_svd.hpp",M+"decomposition/base.hpp",C+"math/linalg.hpp"],[("covariance eigen/SVD solvers","fit"),("projection","transform")],None,["accessors","transform","get_covariance","get_precision","score"])
p("C25","Estimators are pure functions of their last fit",
 "For every estimator, a query (predict, probability, transform, accessor) never changes the model: repeating it gives the same answer, and predicting a batch gives the same rows as predicting its rows one by one. Fitting again leaves a model that answers like a fresh estimator fitted on the same data, no matter what was fitted or asked before. A copy of an estimator answers as its original does, and neither is affected by what is then done to the other.",
 ["histories"],"all finite histories of fit, query and copy calls on every estimator",
 "Each test performs one fit and one query per object.",
 [M+"linear_model/base.hpp",M+"naive_bayes/base.hpp",M+"tree/base.hpp",M+"cluster/kmeans.hpp",M+"mixture/gaussian_mixture.hpp",M+"decomposition/base.hpp",M+"neighbors/k_nearest_neighbors.hpp"],[("fit resets state, queries are read-only","all estimators")],None,["all public estimator methods"])
p("C26","Array ordering and selection utilities meet their contracts",
 "Sorting along an axis permutes each line into the requested order; argsort returns, per line, a permutation of the indices that realises that order; argmax/argmin name a position of an extreme; unique, row de-duplication, row sorting, slicing, combinations, set difference, equality and containment return exactly the elements their documentation names, for every size including one and for repeated values.",
 ["inputs"],"all shapes, axes, orders and values, including ties, single lines and empty inputs",
 "No test calls most of them; those that do print one example.",
 [C+"common.hpp"],[("utility functions","common namespace")],None,["common::*"])
p("C27","Statistical reductions equal their definitions along every axis",
 "Sum, mean, variance, median, mode, cumulative sum, covariance, centring, norms and the impurity and information measures equal their definitions along the requested axis for every shape, with probabilities from softmax, sigmoid and log-sum-exp finite and normalised even for extreme scores. None of them modifies its input.",
 ["inputs"],"all shapes, axes and values, including single rows or columns, negative values, ties and extreme magnitudes",
 "Only indirectly used by tests, none of which asserts a value.",
 [C+"math/ops.hpp",C+"math/extmath.hpp",C+"math/proba.hpp",C+"math/linalg.hpp",C+"metric.hpp"],[("reduction functions","math namespace")],None,["math::*","metric::*"])
p("C28","Matrix factorisations reproduce the matrix they factor",
 "LU with row pivoting returns a permutation (or the permuted lower factor when asked), a unit lower factor with entries of at most one and an upper factor, QR an orthonormal and an upper factor (thin or full), the exact SVD orthonormal U and V and non-negative descending singular values (thin or full), each multiplying back to the matrix for every shape and rank; the randomized SVD returns the leading triplets whenever its sketch is as wide as the rank and refuses sketches wider than the matrix. Cholesky factors exactly the positive definite matrices and refuses indefinite ones, the pseudo-inverse meets the four Penrose conditions with small singular values cut off, logdet is the logarithm of a positive determinant and minus infinity otherwise, eig returns real eigenpairs with the spectrum of the matrix, never refuses a symmetric matrix and refuses complex spectra, and sign flipping changes the signs of matching columns only.",
 ["inputs","configurations"],"all shapes, ranks, entries, and factorisation options",
 "Tests print factors of one matrix; a factor that is wrong for tall, wide, rank-deficient or pivoted matrices is invisible.",
 [C+"math/linalg.hpp",C+"math/extmath.hpp"],[("lu/qr/exact_svd/randomized_svd/pinv/logdet/cholesky/eig","math namespace"),("svd_flip","math::svd_flip")],None,["math::lu","math::qr","math::exact_svd","math::randomized_svd","math::pinv","math::logdet","math::cholesky","math::eig","math::svd_flip"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
