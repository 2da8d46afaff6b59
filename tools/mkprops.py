#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)"""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": mech, "where": ", ".join(files)}]}}
    P.append(d)
RU = "src/learning/toolkit/rand_utils.rs"
p("C01", "Shuffling returns exactly the given elements",
  "Shuffling a slice, either into a new vector or in place, gives back exactly the elements it was given, each exactly as often as it occurred, for every length (0 and 1 included) and every sequence of random draws. The call never panics, never changes the input of the copying form, and every element of the result is one that was given (no uninitialised or stale memory is ever read or returned).",
  ["inputs", "histories"], "all slices of every element type and length, and all sequences of draws the random source may deliver",
  "The tests shuffle one 5-element vector a single time with an unseeded source and check membership or nothing but the length; a lost, duplicated or uninitialised element that needs another length or another draw sequence is never seen.",
  [RU], "one loop per shuffle: draw an index among the positions not yet settled, then move or swap one element; the copying form works on a vector whose length is set before it is filled")
p("C02", "Shuffling can reach every order, each equally likely",
  "If the random source delivers independent uniform indices, every one of the n! arrangements of n elements is produced with the same probability, by the copying shuffle and by the in-place shuffle alike: each step draws uniformly from a range such that different sequences of draws give different arrangements and the sequences are n! in number.",
  ["inputs", "histories"], "all lengths and all sequences of draws",
  "The tests draw once from an unseeded source and cannot see a distribution; a shuffle that never leaves an element in place, or never moves the last one, passes them.",
  [RU], "the range of each draw and the way the drawn index selects the element to move")
p("C03", "A reservoir sample consists of distinct positions of the pool",
  "Sampling k items from a pool of n >= k returns exactly k items, and they are the items at k different positions of the pool (so an item never appears more often than it does in the pool), whatever the random draws; k = n returns the pool's items and k = 0 returns nothing. A request for more items than the pool holds is refused by a panic, and no other call panics.",
  ["inputs", "histories"], "all pools, element types, sample sizes and sequences of draws",
  "The one test samples 3 out of 5 once with an unseeded source and checks only the length and membership.",
  [RU], "the reservoir is filled with the first k items; every later item replaces at most one slot")
p("C04", "A reservoir sample is uniform over the pool",
  "If the random source delivers independent uniform indices, every item of a pool of n items is in a sample of k with the same probability k/n, wherever it stands in the pool: the i-th item seen after the first k is accepted with probability k/i and, once accepted, replaces each of the k held items with equal probability.",
  ["inputs", "histories"], "all pool and sample sizes and all positions in the pool",
  "A single unseeded draw cannot show a probability; an off-by-one in the range of the draw passes the tests.",
  [RU], "the range of the draw made for each item past the first k, and the slot it selects")
AF = "src/learning/toolkit/activ_fn.rs"
p("C05", "Each activation function's gradients are its derivative",
  "For the sigmoid, linear, exponential and hyperbolic-tangent activations, the gradient evaluated at x is the derivative of the activation at x, for every real x, up to floating-point rounding. The gradient computed from an output y equals the gradient at any x whose activation is y.",
  ["inputs"], "all real inputs x (rounding and overflow of f64 aside)",
  "No test evaluates an activation gradient; the neural network tests train on data sets and accept almost any slope of the right sign.",
  [AF], "each activation is a struct with closed-form value, gradient, gradient-from-output and inverse")
p("C06", "Activation values have the documented form and invert",
  "The sigmoid returns 1/(1+e^-x), always strictly between 0 and 1; the linear activation returns x; the exponential returns e^x, always positive; the hyperbolic tangent returns tanh(x), always strictly between -1 and 1. Each is strictly increasing, and its inverse function applied to the activation of x gives back x for every real x, up to floating-point rounding and saturation.",
  ["inputs"], "all real inputs x (rounding, overflow and saturation of f64 aside)",
  "No test evaluates an activation value or an inverse.", [AF],
  "closed-form functions of one real variable")
p("C07", "The exponential distribution is consistent",
  "For every rate lambda > 0 and x >= 0 the density is lambda*e^(-lambda*x), its log-density is the natural logarithm of the density, and its cumulative function is 1 - e^(-lambda*x): 0 at x = 0, non-decreasing, below 1, with the density as its derivative. A negative x is refused by a panic in all three, samples are the source's standard exponential variate divided by lambda (so they have rate lambda), and the rate is reported as given (1 by default).",
  ["inputs"], "all rates lambda > 0 and all x (rounding of f64 aside)",
  "The tests print one value of each function and check nothing; no test relates the three functions to each other.",
  ["src/stats/dist/exponential.rs", "src/stats/dist/mod.rs"], "three closed-form functions over one stored rate")
p("C08", "The normal distribution is consistent",
  "For every mean and variance v > 0, the density is e^(-(x-mean)^2/(2v))/sqrt(2*pi*v), the log-density is its natural logarithm, and both constructors (from variance, from standard deviation s with v = s^2) and the default (mean 0, variance 1) agree on this. The cumulative function is the approximation 1/2*(1 + sgn(x-mean)*sqrt(1 - e^(-2(x-mean)^2/(pi*v)))) : it lies in [0,1], is symmetric about the mean with value 1/2 there, and never decreases. Samples are mean + sqrt(v) times the source's standard normal variate.",
  ["inputs"], "all means, variances v > 0 and x (rounding of f64 aside)",
  "The tests check two values of the cumulative function and print the rest; they use a single parameter pair.",
  ["src/stats/dist/gaussian.rs", "src/stats/dist/mod.rs"], "closed-form functions over a stored mean, variance and standard deviation that must stay in step")
p("C09", "Cross-validation folds partition the samples",
  "k-fold cross-validation of n samples (2 <= k <= n) tests every sample in exactly one fold; in each fold the training set is exactly all the other samples, with every input row paired with its own target row, and the sizes of the k test sets differ by at most one. One score per fold is returned, k < 2 or k > n is refused by a panic, and the first error of training or prediction is returned.",
  ["inputs", "histories"], "all sample counts n, fold counts k, data, models and random draws",
  "The tests check the fold arithmetic for a few (n, k) on the unshuffled order and never run the whole procedure.",
  ["src/analysis/cross_validation.rs"], "a shuffled index vector is cut into k consecutive blocks; each fold hands out prefix+suffix for training and the block for testing")
p("C10", "The confusion matrix counts every labelled pair once",
  "The entry in row i and column j of the confusion matrix is the number of positions where the target is the i-th label and the prediction is the j-th label; with no label list given, the labels are the distinct values that occur, in increasing order, so that the entries sum to the number of samples. Slices of different lengths and label lists with a repeated label are refused by a panic; samples whose target or prediction is not a given label are left out.",
  ["inputs"], "all prediction and target slices and all label lists", "The tests sample four small label sets.",
  ["src/analysis/confusion_matrix.rs"], "a label-to-index map and one counting pass over the pairs")
p("C11", "Classification scores are the textbook ratios",
  "Accuracy is the fraction of positions where output and target are equal; for 0/1 data precision is tp/(tp+fp), recall is tp/(tp+fn) and the F1 score is 2*tp/(2*tp+fp+fn), where tp, fp and fn count true positives, false positives and false negatives. Sequences of different lengths, and labels other than 0 and 1 in the two-class scores, are refused by a panic.",
  ["inputs"], "all output and target sequences of every length", "The tests evaluate each score on two or three short hand-made vectors.",
  ["src/analysis/score.rs"], "counting loops over the zipped sequences, then one division")
p("C12", "Cost gradients are the derivatives of the cost functions",
  "Mean squared error is the sum of squared differences over 2n, and cross entropy is -(1/n) times the sum of t*ln(y) + (1-t)*ln(1-y), where n is the number of samples; both exist for matrices (n rows) and vectors (n entries). The gradient of each, entry by entry, is n times the partial derivative of the cost by that output, and has the shape of the outputs; the negative-mean-squared-error score is -2 times the first cost.",
  ["inputs"], "all outputs and targets of equal shape (outputs strictly between 0 and 1 for cross entropy), rounding aside",
  "Costs are evaluated in tests only through one score; no test looks at a gradient.",
  ["src/learning/toolkit/cost_fn.rs", "src/analysis/score.rs"], "elementwise matrix algebra followed by a sum")
p("C13", "Regularization gradients match the regularization costs",
  "With n rows, the L1 penalty of weight x costs x*sum|w|/(2n) and its gradient is sign(w)*x/(2n) entry by entry; the elastic net is the sum of an L1 part with its first weight and an L2 part with its second, in cost and gradient alike; no regularization costs 0 and has a zero gradient. The L2 gradient is x*w/n, and every gradient has the shape of the weights.",
  ["inputs"], "all weight matrices with at least one row and all penalty weights", "The tests evaluate one 3x4 matrix with a single weight.",
  ["src/learning/toolkit/regularization.rs"], "one match over the kind of penalty in the cost and one in the gradient")
p("C14", "Kernels have their closed forms, are symmetric and compose",
  "Each kernel returns its documented closed form of the two points for all parameter values, with lengths and alpha other than 0 where they divide, and is symmetric in its two arguments; the squared exponential and exponential kernels (non-negative amplitude) and the rational quadratic (positive alpha) are largest at zero distance (the amplitude, or 1 for the rational quadratic). The sum and the product of two kernels evaluate to the sum and the product of their values, and points of different lengths are refused by a panic where the kernel compares them entry by entry.",
  ["inputs", "configurations"], "all points of equal length, all parameters, all compositions of kernels", "The tests evaluate each kernel on one pair of points with one set of parameters.",
  ["src/learning/toolkit/kernel.rs"], "a kernel trait, eight closed forms and two combinators")
T = "src/data/transforms/"
p("C15", "Min-max scaling maps each column onto the target range and inverts",
  "A scaler fitted on data maps that data column by column by an increasing affine function (for a target range lo < hi) that sends the column's minimum to lo and its maximum to hi, and leaves every entry in [lo, hi]; the inverse transformation gives back the original entries. Data with a constant column, or a non-finite entry, is refused with an error when fitting, and data with a different number of columns is refused with an error by both directions, never a panic.",
  ["inputs"], "all finite data matrices and target ranges, rounding aside", "The tests transform one 2x3 matrix and compare with printed values.",
  [T + "minmax.rs"], "per-column minimum and maximum, turned into a scale and an offset applied to every row")
p("C16", "Standardization gives each column the requested mean and deviation and inverts",
  "A scaler fitted on data maps that data column by column by x -> (x - mean)/sqrt(var)*s + m, with the column's sample mean and variance, so that the result has mean m and sample standard deviation s; the inverse transformation gives back the original entries. Fitting on fewer than two rows or on non-finite data, and transforming data with a different number of columns, is refused with an error and never a panic.",
  ["inputs"], "all finite data matrices with at least two rows and no constant column, all target means and deviations, rounding aside",
  "The tests standardize one 2x2 matrix.", [T + "standardize.rs"], "column means and variances kept in the fitted scaler and applied row by row")
p("C17", "Normalization scales each row to unit norm",
  "Normalization divides each row of the data by that row's own norm, so that every non-zero row ends with norm 1 and keeps its direction, and a zero row is left unchanged. Data with a row whose norm is not finite is refused with an error, and the shape is kept.",
  ["inputs"], "all matrices and norms, rounding aside", "The tests normalize one 2x3 matrix with two norms.",
  [T + "normalize.rs"], "row norms are collected, then each row is divided by its own")
p("C18", "Row shuffling only reorders whole rows, uniformly",
  "The row shuffler returns a matrix of the same shape whose rows are exactly the given rows, each as often as it occurred and with its entries unchanged, for every sequence of random draws, and never panics. Under independent uniform draws every order of the rows has the same probability.",
  ["inputs", "histories"], "all matrices (no rows and one row included) and all sequences of draws", "The tests check two seeded runs against recorded output.",
  [T + "shuffle.rs"], "one loop drawing an index among the rows not yet settled and swapping two rows")
K = "src/learning/knn/"
p("C19", "Exhaustive nearest-neighbour search returns the true k nearest",
  "After building on n rows, exhaustive search for k <= n neighbours returns k different row numbers and their exact distances to the query, in non-decreasing order of distance, and no other row is strictly closer than the last one returned. A search before building returns an error.",
  ["inputs"], "all data sets, queries and k <= n", "The tests query one small integer data set at a few points.",
  [K + "brute_force.rs", K + "mod.rs"], "a bounded sorted list of the best pairs, updated row by row")
p("C20", "Tree-based nearest-neighbour search equals exhaustive search",
  "KD-tree and ball-tree search return, for every data set, query, leaf size and k <= n, k different row numbers with their exact distances in non-decreasing order, such that no other row is strictly closer than the last one returned: the distances are those of exhaustive search. A subtree is skipped only when nothing in it can be closer than the neighbours already held.",
  ["inputs", "configurations"], "all data sets with pairwise different rows, queries, leaf sizes >= 2 and k <= n", "The tests query one small integer data set and iris with the default leaf size.",
  [K + "binary_tree.rs", K + "mod.rs"], "a recursive split by coordinate, a bounding box or ball per branch, and a bounded sorted list of the best pairs")
p("C21", "The nearest-neighbour classifier returns a majority label",
  "The class predicted for a query row is a label that occurs among the training targets of the k neighbours returned by the search, with no other label occurring more often among them (the smallest label wins a tie). One class is returned per query row; training with a different number of rows and targets, predicting untrained, or asking for more neighbours than there are rows is refused with an error or panic as documented.",
  ["inputs"], "all training sets, query rows, k and search methods", "The tests classify three points.",
  [K + "mod.rs"], "labels of the neighbours are counted and the most frequent is picked")
p("C22", "K-means assigns every row to a nearest centroid",
  "Prediction assigns every row to a centroid at minimal Euclidean distance; after training there are exactly k centroids with the columns of the data, and one iteration replaces each centroid by the mean of the rows assigned to it (a centroid with no rows stays where it is). Untrained prediction is an error.",
  ["inputs", "histories"], "all data sets, k, initialisations and random draws", "The tests cluster three or four points.",
  ["src/learning/k_means.rs"], "distance matrix by expansion of squares, row-wise argmin, means per cluster")
p("C23", "DBSCAN clusters are density-connected and complete",
  "Two core points (rows with at least the minimum number of rows within eps) get the same cluster if and only if they are linked by a chain of core points each within eps (a distance below eps) of the next; a row that is not a core point and within eps of none gets no cluster, every core point has one. This also holds when a model is trained again on other data. Cluster numbers are consecutive from 0.",
  ["inputs"], "all data sets, eps > 0 and minimum counts", "The tests cluster six points on a line.",
  ["src/learning/dbscan.rs"], "a visited flag per row and a recursive expansion from each unvisited core point")
p("C24", "Naive Bayes fits class frequencies and predicts the most probable class",
  "After training, the prior of each class is its share of the rows, and each class's parameters are computed from that class's rows only; prediction returns, per row, a one-hot row marking a class of maximal posterior. Rows of targets with no class are refused with an error, and untrained prediction is an error.",
  ["inputs"], "all data sets, one-hot targets and the three distributions", "The tests fit one data set per distribution.",
  ["src/learning/naive_bayes.rs"], "rows are grouped by class, one distribution update per class, then argmax of joint log likelihoods")
p("C25", "Linear and logistic regression compute their documented gradient and prediction",
  "Prediction of linear regression is the bias plus the weighted sum of the features, logistic prediction the sigmoid of it; the gradient used in training is the derivative of the cost it reports, for all parameters and data. Prediction before training is an error.",
  ["inputs"], "all data sets and parameter vectors", "The tests fit lines through a handful of points.",
  ["src/learning/lin_reg.rs", "src/learning/logistic_reg.rs"], "a column of ones is put before the data; cost and gradient are matrix expressions")
p("C26", "GLM families and links are mutually consistent",
  "For each link the inverse undoes the link and the reported gradient is the derivative of the link; away from the ends of their range the variance functions are those of the named families (Bernoulli and binomial mu(1-mu), normal 1, Poisson mu), and the working weights and adjustments used in training (Bernoulli, normal, Poisson) are 1/(Var(mu) g'(mu)^2) and g'(mu)(y-mu). Prediction is the inverse link of the linear predictor b0 + b.x, and untrained prediction is an error.",
  ["inputs"], "all means in the link's domain and all data", "The tests fit one data set per family.",
  ["src/learning/glm.rs"], "link and criterion traits, iteratively reweighted least squares")
p("C27", "Gradient-descent optimisers follow their update rule on every sample",
  "Plain gradient descent subtracts alpha times the gradient in every iteration until the cost stops changing or the iteration count is reached. The stochastic optimisers visit every row of the data exactly once per pass, in some order, always pairing an input row with its own target row, and apply their documented update (Nesterov momentum, AdaGrad, RMSProp) to the parameters; with zero iterations all return the start.",
  ["inputs", "histories"], "all models, data, starting points, hyperparameters and random draws", "The tests minimise x^2-like functions from one starting point.",
  ["src/learning/optim/grad_desc.rs"], "an outer loop of passes, an inner loop over a shuffled index vector")
p("C28", "Conjugate gradient never returns a worse point",
  "The parameters returned by the conjugate-gradient optimiser never have a higher cost than the starting parameters, for every model with finite costs, every start and gradient function, and every setting with rho >= 0, 0 <= int <= 1, ext >= 1 and ratio >= 0; the returned vector has the length of the start.",
  ["inputs", "configurations"], "all models (arbitrary finite cost and gradient functions), starts and settings", "The tests minimise one quadratic.",
  ["src/learning/optim/fmincg.rs"], "each line search either succeeds with a sufficient decrease or restores the saved point")
p("C29", "Neural-network gradients are exact and layers tile the weight vector",
  "Every layer's parameters occupy their own consecutive block of the weight vector, the blocks are disjoint and cover it, and every use of a block stays inside the vector; the gradient returned by backpropagation is, entry by entry, the derivative of the criterion by that weight.",
  ["inputs", "configurations"], "all layer lists, weights and data", "The tests train two networks on toy data and check that training ends.",
  ["src/learning/nnet/mod.rs", "src/learning/nnet/net_layer.rs"], "running offsets into one weight vector in the forward and backward pass")
p("C30", "Gaussian mixture responsibilities and weights are probabilities",
  "After training, the mixture weights are non-negative and sum to 1, and the membership weights predicted for each row are non-negative and sum to 1; covariances are symmetric. Untrained prediction is an error and invalid initial weights are refused.",
  ["inputs", "histories"], "all data sets, component counts and covariance options", "The tests check construction only.",
  ["src/learning/gmm.rs"], "E step and M step on matrices")
p("C31", "Gaussian-process regression interpolates with the kernel",
  "The posterior mean at a query is the prior mean plus k(x, X)(K + noise I)^-1 (y - mean) for the kernel and noise given; with zero noise it reproduces the training targets. Mismatched shapes are refused and untrained prediction is an error.",
  ["inputs"], "all data, kernels, means and noise levels", "The tests predict one constant.",
  ["src/learning/gp.rs"], "kernel matrix, Cholesky factorisation, triangular solves")
p("C32", "SVM predictions are signs of the kernel expansion",
  "Prediction of the support vector machine is +1 or -1 according to the sign of the kernel expansion over the stored training rows, for every trained model; untrained prediction is an error.",
  ["inputs", "histories"], "all data, kernels, regularisation constants and draws", "The tests train once on eight points.",
  ["src/learning/svm.rs"], "Pegasos sub-gradient steps on per-row coefficients")
p("C33", "PCA components are orthonormal and reconstruct the data",
  "The components (columns of the component matrix, or its rows when the model was trained on data with more columns than rows) are the leading right singular vectors of the training data, centred by its column means if asked, hence orthonormal, whatever the model was trained on before; transformed data is the data, centred by the training means if asked, times the components; with all components kept on data with at least as many rows as columns, the projection determines the data. A model asked for more components than features is refused with an error, as are untrained use and rows of another width.",
  ["inputs"], "all data matrices and component counts", "The tests use two fixed matrices.",
  ["src/learning/pca.rs"], "singular value decomposition of the centred data, optionally transposed")
p("C34", "Untrained models refuse to predict",
  "Every supervised or unsupervised model asked to predict before a successful training returns the documented untrained-model error and never panics.",
  ["histories"], "all models, inputs and histories without a successful training", "A handful of models have one such test.",
  ["src/learning/k_means.rs", "src/learning/lin_reg.rs", "src/learning/logistic_reg.rs", "src/learning/glm.rs", "src/learning/gp.rs", "src/learning/svm.rs", "src/learning/gmm.rs", "src/learning/naive_bayes.rs", "src/learning/dbscan.rs", "src/learning/knn/mod.rs", "src/learning/pca.rs"],
  "an optional field holds what training produced")
p("C35", "Unchecked memory accesses stay inside their buffers",
  "Every unchecked row, element or raw-slice access in the library stays inside the buffer it refers to, and memory whose length was set before it was filled is never read before it is written, for every input accepted by the public interface.",
  ["inputs"], "all public calls", "Out-of-bounds reads usually pass unnoticed in a test.",
  ["src/learning/k_means.rs", "src/learning/dbscan.rs", "src/learning/knn/binary_tree.rs", "src/learning/nnet/mod.rs", "src/learning/toolkit/rand_utils.rs", "src/learning/gmm.rs"],
  "unsafe blocks around unchecked indexing and raw slices")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
