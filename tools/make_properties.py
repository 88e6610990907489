"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

M = "irtorch/models/"
ALLM = [M+f for f in ["base_irt_model.py","one_parameter_logistic.py","two_parameter_logistic.py","three_parameter_logistic.py","generalized_partial_credit.py","graded_response.py","nominal_response.py","nested_logit.py","monotone_nn.py","monotone_polynomial.py","monotone_b_spline.py","surprisal_spline.py","model_mix.py"]]

p("C01","Item probabilities are valid category distributions for every model",
  "For every model, every admissible parameter setting and every finite theta, the item probabilities have shape (respondents, items, largest category count), are finite, lie in [0, 1] and sum to one over the categories of each item. Categories an item does not have get probability exactly zero, and every response the model samples is a category the item has.",
  ["inputs","configurations"],"all model classes x latent dimensions x (mixed) category counts x item/latent masks x parameter values x thetas (also far from zero)",
  "Tests check shapes and a few hand-set outputs at one small configuration; items with different category counts, masks, several latent variables and extreme thetas combine into configurations no test samples.",
  ALLM+["irtorch/torch_modules/b_spline.py"],
  [("output to probabilities","irtorch/models/*.py probabilities_from_output / item_probabilities"),("missing categories set to -inf / zero","irtorch/models/*.py forward"),("response sampling","irtorch/models/base_irt_model.py sample_test_data")])

p("C02","Parametric models follow their documented response functions",
  "The item probabilities of the 1PL, 2PL, 3PL, graded response, generalized partial credit, nominal response and nested logit models equal the response functions given in their documentation, evaluated at the values the model reports as its item parameters, including slopes, intercepts, guessing and the difficulty (IRT) format. Latent variables that an item is declared unrelated to carry zero weight; for the spline, polynomial and network models the documented log-odds (surprisals) add up over latent variables and are splines or polynomials of the stated degree and knots.",
  ["inputs","configurations"],"all parameter values, latent dimensions, category counts, masks, thetas, and both parameter formats",
  "Tests compare single hand-computed values; the per-item bookkeeping between free parameters, masks, padded categories and reported parameters only shows up for mixed category counts and partial masks.",
  ALLM[1:8],
  [("logits","irtorch/models/*.py forward"),("reported parameters","irtorch/models/*.py item_parameters")])

p("C03","Respondents are evaluated independently and evaluation has no side effects",
  "Probabilities, expected scores, log-likelihoods, gradients and information of a batch of thetas equal those of each theta evaluated alone, in any order, batch size or repetition of calls. Evaluating a model leaves its parameters, their trainability, and the caller's theta and data tensors unchanged, so earlier evaluations never influence later ones.",
  ["inputs","histories"],"all models x batches and permutations of thetas x sequences of evaluation calls",
  "Tests call one method once on one batch; cached state, broadcasting across respondents, or in-place edits of arguments only show in permuted batches and in call sequences.",
  ALLM,[("batch evaluation","irtorch/models/base_irt_model.py item_probabilities, expected_scores, probability_gradients, expected_item_score_gradients, information"),("cached basis","irtorch/models/monotone_b_spline.py, surprisal_spline.py, nested_logit.py precompute_basis")])

p("C04","Log-likelihood is the log probability of the observed, non-missing responses",
  "For every model the log-likelihood of a data set equals the sum of the log probabilities the model assigns to the observed responses; the unreduced form has one entry per response, and missing ones are NaN. Responses coded NaN and -1 are equally treated as missing and contribute nothing, whatever value stands in the data, and the evaluator's sums, means, and per-item, per-respondent and unreduced log-likelihoods are the corresponding reductions of the same (respondents x items) matrix.",
  ["inputs","configurations"],"all models (mixes included) x data sets x missing patterns and codings x reductions and levels",
  "Tests check one or two fixed response matrices per model; agreement between likelihood and probability code is needed for all parameters and missing patterns because every estimator builds on it.",
  ALLM+["irtorch/evaluator.py","irtorch/_internal_utils.py"],
  [("likelihoods","irtorch/models/*.py log_likelihood"),("evaluator reductions","irtorch/evaluator.py log_likelihood"),("missing mask","irtorch/_internal_utils.py get_missing_mask")])

p("C05","Reported gradients are the derivatives of probabilities and expected scores",
  "Expected item scores are the probability-weighted category scores (the correct-response probability for multiple-choice items) and the expected sum score is their total. The probability gradients and expected-score gradients of every model equal the derivatives of those functions with respect to theta, optionally normalised by the maximum item score; difficulty and discrimination summaries are the stated population averages.",
  ["inputs","configurations"],"all models x parameters x thetas x multiple-choice keys x normalisation options",
  "Tests only check gradient shapes or mocked linear models; analytic B-spline derivatives and custom autograd functions must agree with the forward pass everywhere.",
  ALLM+["irtorch/torch_modules/b_spline.py","irtorch/activation_functions.py"],
  [("gradients","irtorch/models/base_irt_model.py probability_gradients, expected_item_score_gradients"),("scores","irtorch/models/base_irt_model.py expected_scores, population_difficulty, population_discrimination"),("B-spline derivative","irtorch/torch_modules/b_spline.py, splinetorch"),("custom activation","irtorch/activation_functions.py BoundedELU")])

p("C06","Fisher information is the sum of squared probability slopes over probabilities",
  "For every model, item information is the matrix whose entries sum, over the item's categories, the product of probability slopes divided by the probability; it is symmetric and positive semidefinite, and test information is the sum over items. Directional information in stated angles is the quadratic form of that matrix with the direction cosines, and maximum-likelihood standard errors are the inverse square roots of the diagonal test information.",
  ["inputs","configurations"],"all models x parameters x thetas x directions x item/test level",
  "Tests mock the gradients and use one theta; the identity quantifies over parameters, directions and models.",
  ["irtorch/models/base_irt_model.py"],[("information","irtorch/models/base_irt_model.py information"),("standard errors","irtorch/models/base_irt_model.py latent_scores")])

p("C07","Monotone models are monotone in the directions they report",
  "For the models that promise monotonicity (logistic, graded response and partial credit models in the direction of their slopes; the monotone neural network, polynomial and B-spline models; the correct response of multiple-choice monotone networks), the expected item score and every probability of scoring at or above a category are monotone in each latent variable. The direction is the sign the model reports for that item and latent variable.",
  ["inputs","configurations"],"all admissible parameters x pairs of thetas differing in one coordinate x latent dimensions x layer sizes, degrees and knots",
  "Tests evaluate an initialised network on a handful of increasing thetas; monotonicity must survive every value the optimiser may reach.",
  [M+"monotone_nn.py",M+"monotone_polynomial.py",M+"monotone_b_spline.py",M+"graded_response.py",M+"generalized_partial_credit.py","irtorch/torch_modules/softplus_linear.py","irtorch/torch_modules/negation_layer.py","irtorch/torch_modules/monotone_polynomial.py","irtorch/activation_functions.py"],
  [("positivity constraints","irtorch/torch_modules/softplus_linear.py, monotone_polynomial.py"),("direction reporting","irtorch/models/*.py item_theta_relationship_directions")])

p("C08","Items depend only on the latent variables they are declared to relate to",
  "When a model is built with an item-to-latent relationship mask, changing a latent variable that an item is not related to leaves that item's probabilities, its expected score, its gradients and its information along that variable unchanged or zero, for all parameter values. Every item reacts to the latent variables it is related to (to all of them without a mask) through parameters of its own: changing one item's parameters never changes another item's probabilities.",
  ["inputs","configurations"],"all models accepting a mask x all masks with at least one relation per item x parameters x thetas",
  "Tests use one mask and initial parameters; mask bookkeeping is per item, per category, and per hidden unit.",
  [M+f for f in ["two_parameter_logistic.py","three_parameter_logistic.py","generalized_partial_credit.py","graded_response.py","nominal_response.py","nested_logit.py","monotone_nn.py","monotone_polynomial.py","surprisal_spline.py"]]+["irtorch/torch_modules/softplus_linear.py","irtorch/torch_modules/negation_layer.py","irtorch/torch_modules/monotone_polynomial.py"],
  [("masks","irtorch/models/*.py __init__ (free_weights, spline_mask, zero_outputs)")])

p("C09","Scale transformations compose, invert and differentiate consistently",
  "A model's transformed theta is its scale transformations applied one after another in the order they were added; its inverse transformation undoes the whole chain whenever every scale is invertible, and its Jacobian is the derivative of the whole chain at each theta. Reversal and rotation are exactly the sign flips and the linear map they are built from, and detaching the scales restores the original theta.",
  ["inputs","histories","configurations"],"all sequences of scale transformations (reverse, rotate, spline flow, links) x thetas x latent dimensions",
  "Existing tests exercise single scales; order of composition, inversion and the chain rule are only visible with two or more different scales.",
  ["irtorch/models/base_irt_model.py","irtorch/rescale/scale.py","irtorch/rescale/reverse.py","irtorch/rescale/rotate.py","irtorch/rescale/flow.py","irtorch/rescale/link_common_items.py"],
  [("chain","irtorch/models/base_irt_model.py add_scale_transformation, transform_theta, inverse_transform_theta, theta_transform_jacobian"),("single scales","irtorch/rescale/*.py transform, inverse, jacobian")])

p("C10","Rescaled gradients, information and errors obey the change of variables",
  "With invertible scale transformations attached, gradients with respect to the rescaled latent variables times the transformation Jacobian give back the gradients on the theta scale, and the information matrices satisfy the corresponding congruence, for items and for the whole test. Asking for unrescaled results gives exactly what the model gives without scales, and standard errors are consistent with the rescaled information; item probabilities, likelihoods and expected scores never change when scales are attached.",
  ["inputs","configurations"],"all models x scale chains x thetas x item/test level",
  "Tests compare shapes with mocked scales; the transpose and inverse of the Jacobian only matter for non-diagonal, non-symmetric chains in several dimensions.",
  ["irtorch/models/base_irt_model.py"],[("change of variables","irtorch/models/base_irt_model.py _rescale_gradients, information, probability_gradients, latent_scores")])

p("C11","Bit scores accumulate item entropy change from the starting point",
  "Bit scores equal, up to the grid resolution, the total absolute change of item entropy (in bits, summed over the selected items) from the start theta to theta along each latent variable in the direction of increasing sum score: they are zero at or below the start, never decrease with theta, add up over disjoint sets of items, and do not depend on which other respondents are transformed together. The one-dimensional Jacobian is the slope of that function.",
  ["inputs","configurations"],"all models x item subsets x start points x population samples x thetas x latent dimensions",
  "Tests check shapes and mocked entropies; monotonicity, additivity and batch independence quantify over parameters and thetas.",
  ["irtorch/rescale/bit.py","irtorch/_internal_utils.py","irtorch/outlier_detector.py"],
  [("bit integration","irtorch/rescale/bit.py transform, transform_to_1D, jacobian"),("entropy","irtorch/_internal_utils.py entropy")])

p("C12","Splines and flows are increasing bijections with exact derivatives",
  "The rational quadratic spline is continuous and strictly increasing on the whole line for all parameter values and bounds, its inverse undoes it, and the log-determinant it reports is the log of its derivative (negated for the inverse) inside and outside the bounds. Flow densities are therefore the base density times that derivative and integrate to one, and fitted flow and linking transformations keep these properties, with the link mapping decreasing exactly when it is declared inverted and fitted with whatever batch and stopping options; a flow's fit does not depend on the unit and origin of the thetas or on earlier fits.",
  ["inputs","configurations"],"all spline parameters, bounds, bin counts, endpoint options and inputs (inside, outside and on the knots)",
  "Tests check shapes, finiteness and a single inverse on an initialised spline; bins, boundaries and unequal widths need arbitrary parameters.",
  ["irtorch/torch_modules/rational_quadratic_spline.py","irtorch/torch_modules/neural_spline_flow.py","irtorch/rescale/flow.py","irtorch/rescale/link_common_items.py"],
  [("spline","irtorch/torch_modules/rational_quadratic_spline.py forward"),("density","irtorch/torch_modules/neural_spline_flow.py log_prob")])

p("C13","Rank, quantile and mixture density utilities match their definitions",
  "Rank-based rescaling sends every calibration theta to the reference quantile of its (tie-averaged) rank over n+1, is non-decreasing for new thetas, and treats each latent variable on its own. The quantile multivariate normal and Gaussian mixture densities equal their defining formulas, mixture fitting never decreases the data log-likelihood and keeps valid weights and covariances, and the outlier detector flags exactly the points outside the interquartile fences.",
  ["inputs"],"all samples (ties included for ranks), distributions, new points, component counts and fence factors",
  "Tests use one random sample and check shapes or rough agreement; ties, extrapolation, and monotone likelihood over iterations quantify over samples.",
  ["irtorch/rescale/rank_cdf.py","irtorch/latent_variable_functions.py","irtorch/quantile_mv_normal.py","irtorch/torch_modules/gaussian_mixture_model.py","irtorch/outlier_detector.py"],
  [("ranks","irtorch/rescale/rank_cdf.py"),("quantiles and interpolation","irtorch/latent_variable_functions.py"),("EM","irtorch/torch_modules/gaussian_mixture_model.py fit"),("fences","irtorch/outlier_detector.py")])

p("C14","Latent scores are the ML, MAP and EAP estimates of the model",
  "For a given model and response data, ML and MAP scores maximise each respondent's log-likelihood (plus log prior) wherever that maximum is interior, and EAP scores are the posterior means over the model's latent grid and prior. Scores ignore missing responses however they are coded, do not depend on the other respondents or their order, come back in the rows of the data, and are rescaled by the attached scales only when asked.",
  ["inputs","configurations"],"all models x response patterns x missing patterns x estimation methods x latent dimensions x priors",
  "Tests check output shapes on mocked algorithms; optimality against an independent search needs many response patterns and parameters.",
  ["irtorch/models/base_irt_model.py"],[("scores","irtorch/models/base_irt_model.py latent_scores"),("optimiser","irtorch/models/base_irt_model.py _ml_map_theta_scores"),("EAP","irtorch/models/base_irt_model.py _eap_theta_scores")])

p("C15","Marginal maximum likelihood fitting optimises the stated marginal likelihood",
  "The loss recorded at each step of marginal maximum likelihood is minus the marginal log-likelihood of the non-missing responses under the chosen integration rule and covariance matrix; fitting ends with finite parameters whose marginal likelihood is not worse than at the start, and stops after the requested number of learning rate reductions. The result depends only on seed, start values and data up to row order: not on the missing coding, and never on state left by earlier use, and the caller's data are unchanged.",
  ["inputs","configurations","histories"],"all models x data sets with missing responses x integration methods x covariance matrices x latent dimensions",
  "Tests assert that training runs and the loss attribute exists; that the loss is the marginal likelihood has to hold for any model and data.",
  ["irtorch/estimation_algorithms/mml.py","irtorch/models/base_irt_model.py","irtorch/utils.py"],
  [("marginal likelihood","irtorch/estimation_algorithms/mml.py _train_step"),("integration grids","irtorch/estimation_algorithms/mml.py _quasi_mc, irtorch/utils.py gauss_hermite")])

p("C16","Joint maximum likelihood fitting optimises the joint likelihood it reports",
  "The loss recorded at each step of joint maximum likelihood is minus the log-likelihood of the non-missing responses (of the current batch) at the current thetas and parameters, starting from the given start thetas or the standardised sum scores. Training thetas come back one row per respondent in data order; fitting improves the joint likelihood, is reproducible, stops after the requested number of learning rate reductions, and ignores missing responses however they are coded.",
  ["inputs","configurations"],"all models x data sets with and without missing responses x start thetas x batch sizes",
  "Tests check shapes and that history is non-empty on complete data.",
  ["irtorch/estimation_algorithms/jml.py","irtorch/_internal_utils.py"],
  [("joint likelihood","irtorch/estimation_algorithms/jml.py _training_loop"),("start values","irtorch/estimation_algorithms/jml.py fit, irtorch/_internal_utils.py sum_score")])

p("C17","Autoencoder fitting trains the stated losses and stores consistent scores",
  "The autoencoder minimises the mean negative log-likelihood of the non-missing responses at the encoder's thetas, and the variational autoencoder the negative (importance-weighted) evidence bound with the analytic normal divergence when one sample is used. After fitting, the stored training thetas are the encoder's scores of the training data in row order and equal the NN latent scores of that data; imputation only affects the encoder input, training stops after the requested number of learning rate reductions, and every documented encoder configuration trains.",
  ["inputs","configurations"],"all models x data with missing responses x encodings x imputation methods x batch sizes x layer and normalisation options x sample counts",
  "Tests mock the encoder or check shapes; the bound and the consistency of scores quantify over data and options.",
  ["irtorch/estimation_algorithms/ae.py","irtorch/estimation_algorithms/vae.py","irtorch/estimation_algorithms/encoders/standard_encoder.py","irtorch/estimation_algorithms/encoders/variational_encoder.py","irtorch/irt_dataset.py","irtorch/_internal_utils.py"],
  [("losses","irtorch/estimation_algorithms/ae.py _train_batch, vae.py _loss_function"),("encoder scores","irtorch/estimation_algorithms/ae.py fit, theta_scores"),("encoder input","irtorch/irt_dataset.py, irtorch/_internal_utils.py one_hot_encode_test_data")])

p("C18","Saving and loading a model preserves all of its behaviour",
  "After saving a model and loading the file into a freshly built model of the same configuration, probabilities, likelihoods, reported parameters and directions, attached scale transformations, transformed thetas, latent scores and stored training results are the same as before saving. This holds whatever sequence of fitting, rescaling, parameter changes and evaluation preceded the save, and saving does not alter the model.",
  ["histories","configurations"],"all models x histories of fit / add scale / detach / evaluate / save / load",
  "Tests save and load once and compare one tensor; the guarantee is over histories and all parts of the state.",
  ["irtorch/models/base_irt_model.py"],[("persistence","irtorch/models/base_irt_model.py save_model, load_model")])

p("C19","Mixed and nested models are built exactly from their parts",
  "A mixed model gives each item the probabilities, log-likelihoods and expected scores of its component model, in order, padded with zero for categories it lacks. A nested logit model gives the correct option the correct-response model's probability and distributes the remainder over the other options by the incorrect-response model, so that conditional on an incorrect answer the options follow that model.",
  ["inputs","configurations"],"all combinations of component models, category counts, correct options, parameters and thetas",
  "Tests use one mix of two models and initial parameters; index mapping depends on category counts, order and keys.",
  [M+"model_mix.py",M+"nested_logit.py"],[("mixing","irtorch/models/model_mix.py forward, probabilities_from_output, log_likelihood"),("nesting","irtorch/models/nested_logit.py forward")])

p("C20","Item and person fit statistics match their definitions",
  "Residuals are observed minus expected scores (one minus the probability of the chosen option for multiple-choice models), infit and outfit are the information-weighted and unweighted mean squared standardised residuals, accuracy is the share of responses equal to the most likely category, and precision, recall and F1 are their macro- and prevalence-weighted class averages. All are computed per item, per respondent or overall over the non-missing responses only, and are unaffected by how missing responses are coded. Without data and thetas they use the training data and the stored training thetas.",
  ["inputs","configurations"],"all models x data with missing responses x thetas x averaging levels",
  "Tests use mocked probabilities at fixed values without missing responses.",
  ["irtorch/evaluator.py"],[("fit statistics","irtorch/evaluator.py residuals, infit_outfit, accuracy, predictions")])

p("C21","Grouped fit summarises exactly the respondents in each latent group",
  "Group fit sorts respondents on the chosen (optionally rescaled) latent variable, splits them into the requested consecutive groups of near-equal size, and reports for each group the observed category shares of non-missing responses, the mean model probabilities, a representative latent value (mean or median, as chosen) and, standardised, their difference over its binomial standard error. Group log-likelihoods are the mean log-likelihoods of the group's own respondents over their own non-missing responses.",
  ["inputs","configurations"],"all models x data with missing responses x thetas x group counts x latent variables x scales",
  "Tests mock the internals and use complete data; the alignment of data, missing mask and thetas after sorting is only visible with missing data and unsorted thetas.",
  ["irtorch/evaluator.py"],[("grouping","irtorch/evaluator.py latent_group_probabilities, group_fit_residuals, group_fit_log_likelihood")])

p("C22","Local dependence measures match their pairwise definitions",
  "Q3 is the matrix of pairwise correlations of item residuals over the respondents observed on both items, and mutual information differences compare the observed pairwise mutual information over those respondents with that implied by the model's probabilities at the thetas (marginal entropies from each item's own responses, joint ones from the common respondents). Matrices are symmetric, follow item order, relabelling items permutes them, missing codings do not matter, and resampling p-values are the stated shares of simulated values.",
  ["inputs","configurations"],"all models x data with missing responses x thetas x item permutations x log bases",
  "Tests check shapes with complete, mocked data.",
  ["irtorch/evaluator.py","irtorch/_internal_utils.py"],[("Q3","irtorch/evaluator.py q3"),("mutual information","irtorch/evaluator.py mutual_information_difference"),("pairwise statistics","irtorch/_internal_utils.py correlation_matrix, joint_entropy_matrix, entropy")])

p("C23","Sum score distributions equal the exact enumeration over response patterns",
  "The model-implied sum score distribution is, for any category counts, the average over the latent population (training thetas, population data, or approximated density) of the exact distribution of the sum of independent item scores, with multiple-choice items scored correct or incorrect. It is a probability distribution over all attainable scores whose mean is the population's expected sum score, and it does not depend on item order. The number of mixture components is the candidate with the best held-out likelihood.",
  ["inputs","configurations"],"all models x category counts x correct keys x populations and density methods",
  "Tests compare one three-item example; the recursion must be right for any item order and category mix.",
  ["irtorch/evaluator.py","irtorch/_internal_utils.py"],[("recursion","irtorch/_internal_utils.py conditional_score_distribution, sum_incorrect_probabilities"),("population weights","irtorch/evaluator.py sum_score_probabilities, approximate_latent_density")])

p("C24","Data utilities keep observed responses and treat missing ones as stated",
  "Imputation changes only missing responses (NaN or -1) and fills them with what the method states (zero, column mean, a random incorrect category, the model's rounded prior expectation); item category counts and models built from data use the largest observed response of each column whatever is missing elsewhere; splitting partitions the rows. One-hot encoding marks exactly the observed category, random guessing data hit the correct option at the stated rate, and none of these modify the caller's data.",
  ["inputs","configurations"],"all data sets (any missing pattern and coding), category counts, keys and ratios",
  "Tests use one small example per helper; NaN patterns, -1 coding and aliasing are combinations.",
  ["irtorch/utils.py","irtorch/_internal_utils.py","irtorch/irt_dataset.py"]+ALLM[1:8],
  [("imputation","irtorch/utils.py impute_missing, irtorch/_internal_utils.py impute_missing_internal"),("categories","irtorch/utils.py get_item_categories, irtorch/models/*.py __init__"),("split","irtorch/utils.py split_data"),("encoding","irtorch/_internal_utils.py one_hot_encode_test_data")])

p("C25","Numerical helpers compute what they claim",
  "Gauss-Hermite points and weights integrate polynomials up to degree 2n-1 in each coordinate exactly against the stated normal distribution in any dimension; the IMV statistic is the relative change of the coin weights whose entropies equal the two models' mean log-likelihoods; entropies equal their definition. Seeding makes all random results reproducible, and grids of cross-validation parameters contain every combination once.",
  ["inputs"],"all orders, means, covariance matrices, likelihood pairs, probability vectors, log bases and seeds",
  "Tests check one quadrature and one likelihood pair.",
  ["irtorch/utils.py","irtorch/_internal_utils.py"],[("quadrature","irtorch/utils.py gauss_hermite"),("IMV","irtorch/utils.py imv"),("entropy","irtorch/_internal_utils.py entropy"),("seed","irtorch/utils.py set_seed")])

p("C26","Cross-validation scores every parameter combination on held-out data only",
  "Cross-validation returns one row per parameter combination with the average over folds of the held-out log-likelihood of a model trained on the other folds alone, starting from the state of the model that was passed in; folds partition the respondents. Held-out responses never influence the model they are scored with, the passed model, algorithms and data are left unchanged, and parallel and sequential runs give the same table. Fitting several models at once returns each of them, in order, as fitted alone.",
  ["inputs","configurations","histories"],"all models x data sets x fold counts x parameter grids",
  "No existing test calls it on a machine without a GPU.",
  ["irtorch/utils.py","irtorch/timer.py"],[("folds and fits","irtorch/utils.py cross_validation, _cv_param_combination, _cv_fold"),("timer","irtorch/timer.py")])

p("C27","Plots show exactly the quantities the model computes",
  "Every line, surface or bar drawn by the plotting methods has, at the thetas (or transformed thetas) on its axis, the value the model or evaluator returns for the same quantity: item probabilities and their slopes, information, expected scores, entropies, log-likelihoods, scale transformations, training history, fitted splines and score distributions. Fixed latent variables, item and category selections and rescaling are honoured.",
  ["inputs","configurations"],"all models x items, latent variables, ranges, steps, fixed values, scales and plot options",
  "Tests check that a figure object is returned with some number of traces, not the plotted numbers.",
  ["irtorch/plotter.py"],[("figures","irtorch/plotter.py item_probabilities, information, expected_sum_score, item_entropy, log_likelihood, scale_transformations, training_history, latent_score_distribution")])

p("C28","Invalid configurations and arguments are rejected, valid ones accepted",
  "Models, scales, fitting algorithms and evaluation methods raise an error for the inputs they document as invalid (missing size information, mask shape or type or an item without latent variables, correct options outside the item's categories, even polynomial degrees, mismatched latent dimensions, unknown method names, wrongly shaped start values or matrices) instead of computing something. They accept every configuration inside those limits and report the configuration they were built with.",
  ["inputs","configurations"],"all constructor and method arguments around the documented limits",
  "Tests check individual error cases; the boundary between accepted and rejected is a set of configurations.",
  ALLM+["irtorch/rescale/bit.py","irtorch/rescale/rotate.py","irtorch/rescale/rank_cdf.py","irtorch/rescale/link_common_items.py","irtorch/estimation_algorithms/mml.py","irtorch/estimation_algorithms/jml.py","irtorch/outlier_detector.py"],
  [("validation","irtorch/models/*.py __init__, irtorch/rescale/*.py __init__, irtorch/models/base_irt_model.py latent_scores")])

p("C29","Building-block modules realise their documented constraints",
  "Softplus-linear layers are affine with non-negative weights, connect only the declared input and output groups and zero the declared outputs; negation layers multiply each item's inputs by that item's own weight; monotone polynomial modules are polynomials of the stated degree with the coefficients they report, non-decreasing when no negative relations are allowed and monotone in the sign of their direction otherwise; encoders are the stated stack of layers; the bounded activation and its derivative agree. None of them alters its input.",
  ["inputs","configurations"],"all layer sizes, groupings, masks, parameters and inputs",
  "Tests check shapes and default-initialised parameters.",
  ["irtorch/torch_modules/softplus_linear.py","irtorch/torch_modules/negation_layer.py","irtorch/torch_modules/monotone_polynomial.py","irtorch/activation_functions.py","irtorch/torch_modules/b_spline.py"],
  [("layers","irtorch/torch_modules/*.py forward"),("activation","irtorch/activation_functions.py BoundedELU")])

p("C30","Data set loaders return the documented data in the documented coding",
  "Bundled data sets come back exactly as stored and as fresh tensors, whatever was loaded or overwritten before. SAT data hold quantitative then verbal items with keys counted from zero that lie inside each item's categories, and the binary coding scores exactly the responses equal to the key. The Big Five loader keeps exactly the respondents meeting the documented filter (item times between 0 and 300 seconds, a unique address, nothing missing, at least one answer), codes skipped answers as missing, reverses the negatively worded items, counts categories from zero, and gives the same from a fresh download and from the cache.",
  ["inputs","histories"],"all raw files in the published layout x sequences of loading and overwriting",
  "Tests mock the file reading and check shapes; which rows survive the filter and how each answer is recoded depends on the contents of the file.",
  ["irtorch/load_dataset.py"],[("filter and recoding","irtorch/load_dataset.py big_five"),("bundled files","irtorch/load_dataset.py swedish_sat, swedish_sat_binary, swedish_national_mathematics_1, swedish_national_mathematics_2")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), [len(x["title"]) for x in P if len(x["title"]) > 80])
