NA = {}
LEVEL = {}
EXTRA = {}

S_ = "synthetic/"
K = "common/"
FA_ = "factoranalysis/"

prop("C22", "Polychoric correlations maximise the likelihood of the right contingency table",
     "contingency_table counts, for every pair of response values in the given range, the persons "
     "who gave exactly that pair; rows and columns with zero total are dropped before the "
     "correlation of a pair is estimated; the estimate is the bounded minimiser over (-0.999, 0.999) "
     "of the negative bivariate-normal log-likelihood of that table with thresholds from its "
     "margins; the serial correlation matrix is symmetric with unit diagonal and holds the "
     "pairwise value at each entry.",
     ALLIN, "all ordinal data sets, ranges and pairs of items",
     "tests look at a few random data sets with categories all present", [K + "polychoric.py"],
     [("contingency_table", K + "polychoric.py"),
      ("validate_contingency_table", K + "polychoric.py"),
      ("_polychoric_correlation_value", K + "polychoric.py"),
      ("polychoric_correlation_serial", K + "polychoric.py")])
prop("C24", "Hyperspherical vectors and angles follow the spherical coordinate map",
     "hyperspherical_vector maps n angles to the n+1 products cos(t_k) sin(t_0)...sin(t_(k-1)) (last: "
     "all sines), and hyperspherical_angles gives the angles of a vector: arccos of each coordinate "
     "over the norm of the tail starting there, the last one reflected when the final coordinate is "
     "negative, and 0 or pi for a zero tail.",
     ALLIN, "all angle vectors and all vectors of two or more coordinates, zeros included",
     "tests sample a handful of vectors without zero tails or other special cases",
     [K + "hypersphere.py"],
     [("hyperspherical_vector", K + "hypersphere.py"),
      ("hyperspherical_angles", K + "hypersphere.py")])
prop("C26", "Cronbach's alpha follows its formula with missing responses ignored",
     "cronbach_alpha of items by persons is n/(n-1) * (1 - sum of item sample variances / (n^2 * the "
     "sample variance of person means)), every mean and variance taken over valid responses only.",
     ALLIN, "all data sets with at least two valid responses per item and one per person",
     "tests compare one data set without missing entries", [K + "cronbach_alpha.py"],
     [("cronbach_alpha", K + "cronbach_alpha.py")])
prop("C27", "Entropy of loadings sums squared-share entropies along the chosen axis",
     "entropy(array, axis) is minus the sum of p log(p + 1e-23), where p is each squared entry's "
     "share of the squared total along the given axis, and the caller's array is unchanged.",
     ALLIN, "all loading matrices, both axes", "tests use fixed matrices", [K + "entropy.py"],
     [("entropy", K + "entropy.py")])

prop("C08", "Category probabilities form a probability distribution",
     "For every item and ability the category probabilities used to simulate and to fit polytomous "
     "data are non-negative and sum to one (graded with ordered thresholds, partial credit, "
     "unfolding, two-category; for the fitted graded model the sum telescopes to P(above the first "
     "threshold) - P(above the last)), and each equals the model's closed form.",
     ALLIN, "all thresholds, discriminations, abilities and numbers of categories",
     "tests check a few parameter values per model",
     [S_ + "polytomous.py", Y + "partial_integrals_poly.py", D + "partial_integrals.py"],
     [("_graded_func", S_ + "polytomous.py"), ("_credit_func", S_ + "polytomous.py"),
      ("_unfold_func", S_ + "polytomous.py"),
      ("_credit_partial_integral", Y + "partial_integrals_poly.py"),
      ("_unfold_partial_integral", Y + "partial_integrals_poly.py")])
prop("C09", "Dichotomous synthetic data draw each response from the model probability",
     "create_synthetic_irt_dichotomous with a seed returns an items-by-persons integer array whose "
     "entry is 1 exactly when that entry's uniform draw of the seeded stream is at most "
     "g + (1-g)/(1+exp(-a(theta-b))) (multidimensional: a.theta + b), scalar discrimination and "
     "guessing applying to every item.",
     ALLIN, "all item parameters (scalar or per item, integer or real), abilities and seeds",
     "tests compare one or two seeds", [S_ + "dichotomous.py"],
     [("create_synthetic_irt_dichotomous", S_ + "dichotomous.py")])
prop("C10", "Polytomous synthetic data follow the model; bad thresholds are refused",
     "create_synthetic_irt_polytomous with a seed returns, for every item and person, the category "
     "1..K whose slice of the cumulated category probabilities of the chosen model holds that "
     "entry's uniform draw; graded thresholds that do not increase strictly, and unfolding "
     "thresholds that are not odd in number and symmetric about their centre, are refused.",
     ALLIN, "all models, thresholds, discriminations (scalar or per item), abilities and seeds",
     "tests compare a few seeds and one invalid example per rule", [S_ + "polytomous.py"],
     [("create_synthetic_irt_polytomous", S_ + "polytomous.py"),
      ("_check_difficulty_parameters", S_ + "polytomous.py")])

prop("C06", "Estimation options are merged over the defaults or refused",
     "validate_estimation_options returns every documented default overridden by the caller's values "
     "(all other defaults kept), and refuses a non-dictionary, an unknown option or a value of the "
     "wrong type or range (iterations >= 1, quadrature sizes >= 8, samples >= 5, ordered bounds, "
     "boolean flags, callable density).",
     ALLIN, "all option values, alone and together", "tests try a few valid and invalid values",
     [U + "girth_options.py"],
     [("validate_estimation_options", U + "girth_options.py"),
      ("default_options", U + "girth_options.py")])
prop("C25", "Procrustes rotation is the orthogonal polar factor of collected' target",
     "procrustes_rotation(target, collected) is U V' where U S V' is the singular value "
     "decomposition of collected' target, which is the orthogonal matrix minimising the sum of "
     "squares of target - collected @ rotation; the inputs are unchanged.",
     ALLIN, "all pairs of matrices with as many rows", "tests rotate one random matrix",
     [K + "procrustes.py"], [("procrustes_rotation", K + "procrustes.py")])
prop("C28", "Principal components and principal axis loadings come from the eigenpairs",
     "principal_components_analysis returns the n_factors largest eigenvalues in decreasing order, "
     "loadings eigenvector * sqrt(eigenvalue) in the same order, and zero unique variances; "
     "principal_axis_factor returns the fixed point of u -> diag(R) - communalities of the "
     "principal components of R - diag(u), from zeros or the given start with the given tolerance "
     "and iteration limit, and the components extracted at it. Inputs are unchanged.",
     ALLIN, "all symmetric matrices, numbers of factors and starts",
     "tests compare a few correlation matrices", [FA_ + "pca.py", FA_ + "paf.py"],
     [("principal_components_analysis", FA_ + "pca.py"), ("principal_axis_factor", FA_ + "paf.py"),
      ("_paf_fixed_point_iterate", FA_ + "paf.py")])
prop("C29", "Minimum rank factor analysis minimises the discarded singular values",
     "minimum_rank_factor_analysis minimises, over item scales in [1, 100] from 1/sqrt of the "
     "start (default: the principal axis unique variances), the sum of the discarded singular "
     "values over the least one of the scaled root of the matrix, with the matching gradient; "
     "unique variances are (least singular value / scale)^2 and the loadings and eigenvalues are "
     "the principal components of the matrix less those variances.",
     ALLIN, "all correlation matrices, numbers of factors and starts",
     "tests compare a few matrices", [FA_ + "minimum_rank.py"],
     [("minimum_rank_factor_analysis", FA_ + "minimum_rank.py"),
      ("_mrfa_min_func", FA_ + "minimum_rank.py")])
prop("C30", "Sparsified loadings are the loadings in the bases that minimise entropy",
     "sparsify_loadings returns bases whose rows are the unit vectors of the angles minimising "
     "entropy(loadings @ inv(bases)) + alpha * cond(bases) (alpha 50 when orthogonal is asked), "
     "from the given or a seeded random start, and loadings @ inv(bases) for those bases, without "
     "changing the caller's loadings.",
     ALLIN, "all loadings, starts, weights and seeds", "tests look at a couple of seeds",
     [FA_ + "rotation.py"],
     [("sparsify_loadings", FA_ + "rotation.py"), ("_sparse_min_func", FA_ + "rotation.py"),
      ("_oblique_matrix", FA_ + "rotation.py")])
prop("C14", "Threshold solvers invert the expected proportion above a threshold",
     "The observed ratios of an item are its proportions of responses above each category; "
     "_solve_integral_equations returns for each ratio the threshold in [-6, 6] whose expected "
     "proportion sum_k w_k/(1+exp(-a(theta_k-b))) is nearest to it; and the look-up table returns "
     "the interpolated inverse of that proportion, linear in the discrimination between the two "
     "neighbouring table rows and clamped to the table's thresholds.",
     ALLIN, "all responses, ratios, discriminations, grids, densities and quadrature settings",
     "tests compare a few points", [U + "look_up_table.py", U + "polytomous_utils.py"],
     [("_array_LUT", U + "look_up_table.py"), ("create_beta_LUT", U + "look_up_table.py"),
      ("_solve_for_constants", U + "polytomous_utils.py"),
      ("_solve_integral_equations", U + "polytomous_utils.py")])
prop("C15", "Latent density is the fixed density or the fitted moment-constrained spline",
     "The cubic spline over n knots equally spaced on +-stop (n-1)/(n+3) sums the B-splines of its "
     "coefficients; without estimation every round of a fit uses the option's density times the "
     "quadrature weights; with estimation, round 0 does and each later round the spline whose "
     "non-negative coefficients maximise the likelihood of the given integrand under total 1, mean "
     "0 and variance 1, started from the previous round's. AIC and BIC follow their formulas.",
     ALLIN, "all options, integrands, numbers of knots and nodes",
     "tests evaluate one fixed spline and one fit", [U + "latent_ability_distribution.py"],
     [("CubicSplinePDF", U + "latent_ability_distribution.py"),
      ("LatentPDF", U + "latent_ability_distribution.py"),
      ("_parameter_constraints", U + "latent_ability_distribution.py")])
prop("C17", "Rasch and 1PL marginal estimators minimise the marginal likelihood",
     "For given or estimated common discrimination a, every difficulty is the b in [-6, 6] whose "
     "expected proportion correct under the prior is the item's proportion among valid answers; "
     "onepl_mml's a minimises over [0.25, 10] minus the sum over persons of the log of the "
     "integral of the product of response probabilities, missing answers contributing a factor 1.",
     ALLIN, "all response matrices, missing patterns, densities, bounds and node counts",
     "tests recover the parameters of a few seeds", [D + "rasch_mml.py", D + "partial_integrals.py"],
     [("rasch_mml", D + "rasch_mml.py"), ("onepl_mml", D + "rasch_mml.py"),
      ("_compute_partial_integral", D + "partial_integrals.py")])

prop("C19", "Joint estimators alternate the two stages until difficulties settle",
     "rasch_jml, onepl_jml and twopl_jml start from the MML approximation and repeat: abilities "
     "(each in [-6, 6], minimising the pattern's negative log likelihood given the items, then "
     "standardised), then item parameters minimising the count-weighted negative log likelihood; "
     "all-wrong and all-correct patterns are left out, missing answers carry no information.",
     ALLIN, "all response matrices, missing patterns and iteration limits",
     "tests recover the parameters of a few seeds", [D + "jml_methods.py"],
     [("rasch_jml", D + "jml_methods.py"), ("onepl_jml", D + "jml_methods.py"),
      ("twopl_jml", D + "jml_methods.py"), ("_jml_abstract", D + "jml_methods.py")])
prop("C18", "Polytomous MML estimators alternate full-likelihood item updates until settled",
     "pcm_mml and gum_mml recode the answers per item, start from the documented values and repeat: "
     "every item's parameters minimise the negative log marginal likelihood of all answers given "
     "the other items' current parameters, until no discrimination moves by 1e-3 or max_iteration; "
     "missing answers carry no information; abilities are posterior means and AIC/BIC come from "
     "the fitted and the null likelihood.",
     ALLIN, "all response matrices, item sizes, missing patterns and iteration limits",
     "tests recover the parameters of a few seeds", [Y + "pcm_mml.py", Y + "gum_mml.py",
                                                     Y + "partial_integrals_poly.py"],
     [("pcm_mml", Y + "pcm_mml.py"), ("gum_mml", Y + "gum_mml.py"),
      ("_unfold_partial_integral", Y + "partial_integrals_poly.py")])
