"""Which contracts and harness decide each property."""
PAR = 'parametricity: code generic in T: Copy treats items by position only, so distinct items stand for all inputs'
PIG = 'pigeonhole: an injective map from n positions to n positions is a bijection'
EXPLN = 'axiom instances: exp and ln are inverse, exp turns sums into products, both increase; sqrt, tanh by their defining equations'
CALC = 'symbolic differentiation rules (vf/diff.py)'
NAMED = 'decimal constants within 4e-16 of pi, sqrt(2 pi), ln(2 pi), e denote those reals'
PROPS = {
    'C01': {'area': 'shuffle', 'part': True, 'mods': ['rand_utils'], 'assumptions': [PAR, PIG]},
    'C02': {'area': 'shuffle', 'part': True, 'mods': ['rand_utils'], 'assumptions': [PAR, PIG, 'on paper: injective map from n! equally likely histories to n! arrangements is a bijection']},
    'C03': {'area': 'shuffle', 'part': True, 'mods': ['rand_utils'], 'assumptions': [PAR]},
    'C04': {'area': 'shuffle', 'part': True, 'mods': ['rand_utils'], 'assumptions': [PAR, 'on paper: induction over the proved step gives probability k/i for every item']},
    'C05': {'area': 'activ', 'part': True, 'mods': ['activ_fn'], 'axioms': [EXPLN, CALC]},
    'C06': {'area': 'activ', 'part': True, 'mods': ['activ_fn'], 'axioms': [EXPLN]},
    'C07': {'area': 'dist', 'part': True, 'mods': ['stats::dist'], 'axioms': [EXPLN, CALC], 'assumptions': ["rand's Exp1 is a standard exponential variate"]},
    'C08': {'area': 'dist', 'part': True, 'mods': ['stats::dist'], 'axioms': [EXPLN, NAMED], 'assumptions': ["rand's StandardNormal is a standard normal variate"]},
    'C12': {'area': 'toolkit', 'mods': ['cost_fn', 'score'], 'axioms': [CALC]},
    'C13': {'area': 'toolkit', 'mods': ['regularization']},
    'C14': {'area': 'toolkit', 'mods': ['kernel'], 'axioms': [EXPLN]},
    'C26': {'area': 'glm', 'mods': ['learning::glm'], 'axioms': [EXPLN, CALC]},
    'C15': {'area': 'transforms', 'mods': ['transforms::minmax']},
    'C16': {'area': 'transforms', 'mods': ['transforms::standardize'], 'axioms': ["a column's sum is finite exactly if its entries are (overflow left out)"],
            'assumptions': ['the columns of the fitted data are not constant (variance > 0), the requested deviation is positive']},
    'C17': {'area': 'transforms', 'mods': ['transforms::normalize'], 'assumptions': ["any norm M: an arbitrary function of the row; rulinalg's Euclidean norm is the square root of the sum of squares"]},
    'C18': {'area': 'transforms', 'mods': ['transforms::shuffle'], 'assumptions': [PAR, PIG, 'on paper: injective map from n! equally likely histories to n! orders is a bijection']},
    'C11': {'area': 'score', 'mods': ['analysis::score']},
    'C09': {'area': 'crossval', 'mods': ['cross_validation'], 'assumptions': ["the shuffle returns the positions it was given in some order (its contract, decided by C01); a failing model's error is followed as one opaque value"]},
    'C10': {'area': 'score', 'mods': ['analysis::confusion_matrix']},
    'C19': {'area': 'knn', 'mods': ['learning::knn']},
    'C20': {'area': 'knn', 'mods': ['learning::knn'], 'assumptions': ['pigeonhole: fewer than k pairwise different rows cannot be all the rows of data that has at least k', 'triangle inequality of the Euclidean distance; distances below f64::MAX', 'induction over the tree: split satisfies its contract on smaller row sets (its recursive calls are checked against the contract)', 'the fitted rows are pairwise different, leaf size at least 2']},
    'C21': {'area': 'knn', 'mods': ['learning::knn'], 'assumptions': ["the search returns k row numbers of the data it was built on (its contract, decided by C19 and C20)"]},
    'C22': {'area': 'kmeans', 'mods': ['learning::k_means'], 'assumptions': ['an initialiser is any function that returns a matrix or an error']},
    'C23': {'area': 'dbscan', 'mods': ['learning::dbscan'], 'assumptions': ['the Euclidean distance is symmetric', 'on paper: a list without repetitions that holds exactly the rows within eps has their number as its length; a number kept by every numbering that agrees on core rows within eps of each other is that of their chains', 'induction over the depth of the recursion: expand_cluster satisfies its contract in the calls it makes (checked against the contract)', 'at least one row']},
    'C24': {'area': 'bayes', 'mods': ['learning::naive_bayes'], 'axioms': [EXPLN, NAMED], 'assumptions': ['at least one row and one class; as many target rows as input rows; log posteriors are numbers']},
    'C31': {'area': 'gp', 'mods': ['learning::gp'], 'assumptions': ["rulinalg's Cholesky: decomposing M is an error or a lower triangular L with L L^T = M; the triangular solves solve their system", 'the kernel and the mean are any functions; on paper: L L^T a = b is (K + noise I) a = b, so with zero noise the targets are reproduced']},
    'C33': {'area': 'pca', 'mods': ['learning::pca'], 'assumptions': ["rulinalg's svd of M with n rows and c columns: M = U S V^T, the columns of V (c x min(n, c)) are orthonormal; on paper: then M V V^T = M for n >= c"]},
    'C32': {'area': 'svm', 'mods': ['learning::svm'], 'assumptions': ['the regularisation constant is positive, at least one iteration; the kernel is any function of its two arguments']},
    'C34': {'area': 'models', 'mods': ['learning'], 'assumptions': ['models a training attempt failed on are covered by the bounded replay only']},
    'C25': {'area': 'regress', 'mods': ['learning::lin_reg', 'learning::logistic_reg'], 'axioms': [EXPLN, CALC],
            'assumptions': ["the linear predictor of row i grows by x_ij per unit of parameter j; the derivative of a sum is the sum of the derivatives"]},
    'C27': {'area': 'optim', 'mods': ['learning::optim::grad_desc'], 'axioms': [EXPLN],
            'assumptions': ["the shuffle returns the row numbers it was given in some order (its contract, decided by C01)", "the model's cost and gradient depend on its arguments alone; one gradient entry per parameter; as many target rows as input rows, at least one"]},
    'C28': {'area': 'optim', 'mods': ['learning::optim::fmincg'],
            'assumptions': ["the model's cost depends on the parameters alone and is finite; one gradient entry per parameter; the gradient is any function", "iters and max below 2^31"]},
}
NOT_APPLICABLE = {
    'C29': 'the layers are trait objects that slice one weight vector through raw pointers and call user-supplied activation and criterion code through further trait objects; the verifier has no contract language for that composition, so only the pieces are decided (activations C05, costs C12)',
    'C30': 'the E and M step turn on the determinant and inverse of covariance matrices by LU; whether the densities are positive and the covariance invertible is exactly what would have to be assumed of rulinalg, so the deductive part would restate its assumption',
    'C35': 'decided piecewise: each unchecked access inside a function under contract is an obligation of the claimed properties (kinds unsafe, bounds, uninit in the evidence); over the whole library it would also need the functions of C29 and C30',
}
