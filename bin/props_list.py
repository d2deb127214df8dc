prop("P01", "Index arithmetic of packed, triangular, block and combinatorial layouts",
  "Every index and layout helper returns exactly the positions its layout defines, for every dimension and offset: packing order (column- or row-major, whole, lower, strictly lower or upper triangle, block of a larger matrix), the number of packed entries, and the enumeration of multi-indices. Forward and inverse position maps undo one another, and compiled and pure-Python variants agree entry for entry. A position read back through such a map addresses the entry it came from.",
  ["inputs", "configurations"], "all dimensions, offsets, orders and block partitions (enumerated up to the bounds in DESIGN.md; larger ones sampled)",
  "tests check a handful of fixed sizes, mostly square matrices with default offsets; rectangular shapes, offsets other than 0, multi-block parameter mappings and the inverse maps are never exercised",
  [U + "indexing_utils.py", U + "ordered_indices.pyx", U + "special_mats.py", "pystatsm/pysem2/indexers.py"],
  [("vech/vecl/tril/triu index helpers", U + "indexing_utils.py"), ("multi-index enumeration kernels", U + "ordered_indices.pyx")], ["return values of the index helpers"])
prop("P02", "Structure matrices and vec algebra act as their defining identities",
  "Commutation, duplication, elimination, symmetriser and related structure matrices act on every matrix exactly as their definitions say (for example duplication turns the packed half of a symmetric matrix into its full vectorisation), in sparse, dense and matrix-free form alike. vec, vech, their inverses, Kronecker, Khatri-Rao and block helpers agree with entrywise definitions for every shape, including 1x1 and rectangular ones. Matrix-free multiplications equal multiplication by the explicit matrix.",
  ["inputs", "configurations"], "all shapes up to the bounds in DESIGN.md and arbitrary matrices of those shapes",
  "tests check a few sizes of some of the matrices; rectangular commutation, matrix-free left/right products and batched forms are not covered",
  [U + "special_mats.py", U + "linalg_operations.py", U + "indexing_utils.py"],
  [("commutation, duplication, elimination matrices", U + "special_mats.py"), ("vec/vech/kron helpers", U + "linalg_operations.py")], ["return values"])
prop("P03", "Sparse kernels and the sparse Cholesky factor equal their dense meaning",
  "Every sparse kernel (sum, product, Kronecker product with or without identity, sandwich and block updates, triangular solves) leaves in its output exactly the matrix the dense operation defines, for any sparsity pattern, including reuse of a preallocated output whose old contents must not show through. After any history of factorising, refactorising with new values, solving and taking determinants, a sparse Cholesky factor answers for the matrix it was last given. Inputs other than the designated output are never changed.",
  ["inputs", "histories"], "all patterns and values explored, and all TLC-generated histories of factor operations up to depth 3 (4 in thorough)",
  "tests use one pattern per kernel and never reuse a factor or an output buffer with changed values",
  [U + "cython_wrappers.pyx", U + "python_wrappers.py", U + "src/"],
  [("cs_* wrappers over preallocated CSC buffers", U + "python_wrappers.py"), ("CSparse routines and symbolic/numeric factor split", U + "cython_wrappers.pyx")], ["output buffers, factor solve/logdet results"],
  [("symbolic + numeric factor", "pattern analysed once, values refreshed on each refactorisation", U + "python_wrappers.py")])
prop("P04", "Reparameterisations are exact bijections with correct derivatives",
  "For every parameter transform the library offers (log, tanh, ordered thresholds, covariance to scale-and-correlation, log-Cholesky and correlation-Cholesky, partial correlations, row-normalised and composed or masked ones), the forward map equals its definition, the reverse map undoes it both ways, and the reported first and second derivatives are those of the maps in each direction. Batched evaluation equals row-by-row evaluation. Derivatives of a Cholesky factor along a matrix path are the derivatives of that factor.",
  ["inputs", "configurations"], "all points of each domain and all dimensions up to 5 (sampled points per dimension, including near-boundary ones)",
  "tests check round trips and derivatives at one random point of one or two dimensions, with loose finite-difference tolerances",
  [U + "param_transforms.py", U + "cov_transform.py", U + "unconstrained_chol.py", U + "dchol.py", "pystatsm/pyglm2/clm.py"],
  [("transform classes _fwd/_rvs/_jac/_hess", U + "param_transforms.py"), ("dchol, unconstrained Cholesky", U + "dchol.py")], ["transform outputs"])
prop("P05", "Numerical derivative rules, elementary distributions and allocation arithmetic",
  "Every finite-difference, Richardson and complex-step rule approximates the true first or second derivative of a smooth function to the accuracy of its order, at any point including zeros and negatives, for scalar, vector and matrix arguments, with extra arguments and masks honoured, and finite-difference weights reproduce derivatives of polynomials exactly. A memoised objective answers for the point it is asked about whatever the order of earlier questions, even if the caller overwrites the array. Univariate and bivariate normal functions, discrete masses, quantile cuts, set partitions and proportional allocations equal their definitions, and allocations and sum-preserving roundings always preserve their total.",
  ["inputs", "histories"], "all smooth functions and points, all query histories of a memoised objective up to depth 3, all sizes and proportions",
  "tests call at most one of these rules on one function; none checks histories of memoised calls, degenerate points, masks or totals",
  [U + "numerical_derivs.py", U + "optimizer_utils.py", U + "func_utils.py", U + "xcorr.py"],
  [("difference rules and stencils", U + "numerical_derivs.py"), ("memoised objective", U + "optimizer_utils.py"), ("distribution and allocation helpers", U + "func_utils.py")], ["return values"])
prop("P06", "Exponential families and link functions equal their definitions",
  "For every family and every link it can be combined with, the log likelihood, deviance, residuals, variance function, score and information weights (observed and expected), working-weight derivatives, dispersion score and information, canonical form, quantiles and random draws are those of the defining density, at every admissible observation, mean, weight and dispersion, including boundary observations. Links and their inverses undo one another and the reported derivatives up to fourth order are the true derivatives. Answers do not depend on whether the mean is given directly or through the linear predictor, or whether weights are passed or stored.",
  ["inputs", "configurations"], "all families, links, link parameters, observations, means, prior weights and dispersions in the domains",
  "tests only fit models with default links and unit weights to a few data sets; wrong higher derivatives, ignored weights and non-default links do not change those fits",
  ["pystatsm/pyglm/families.py", "pystatsm/pyglm2/families.py", "pystatsm/pyglm/links.py", "pystatsm/pyglm2/links.py"],
  [("family classes", "pystatsm/pyglm2/families.py"), ("link classes", "pystatsm/pyglm2/links.py")], ["return values of family and link methods"])
prop("P07", "Least squares estimates, errors, tests and restrictions are exact",
  "Single-response and multivariate Gaussian regression return, for every full-rank design, response, weight vector (multivariate) and way of passing the data, the least-squares solution, the Gaussian objective with its true first and second derivatives, and the error, sum-of-squares, R-squared, leverage, deletion and heteroscedasticity-consistent quantities that define them. Restricted fits satisfy the restriction and are optimal under it, profile objectives and intervals are those of the constrained optimum, Wald, score and likelihood-ratio tests, multivariate hypothesis tests with their F approximations, information criteria and pseudo R-squared measures follow their formulas. Parameter tables report two-sided probabilities and intervals of the stated level.",
  ["inputs", "configurations"], "all designs, responses, weights, restriction matrices, contrast and transform matrices and data containers explored",
  "tests check a couple of fits against stored or closed-form numbers; restrictions with several rows, weighted multivariate contrasts, leverage-dependent corrections and container variants agree with defects on those fits",
  ["pystatsm/pyglm/ols.py", "pystatsm/pyglm2/ols.py", "pystatsm/pyglm2/mvols.py", "pystatsm/pyglm2/likelihood_model.py", "pystatsm/pyglm2/regression_model.py", "pystatsm/pyglm/linear_model.py", U + "output.py"],
  [("OLS and LinearModel", "pystatsm/pyglm2/ols.py"), ("MVOLS and the MANOVA statistics", "pystatsm/pyglm2/mvols.py"), ("profile, restriction and test helpers", "pystatsm/pyglm2/likelihood_model.py")], ["fitted attributes, tables and return values"])
prop("P08", "Generalised linear models answer for the data, weights and family given",
  "All three implementations return, for every supported family, link, scale handling, prior-weight vector and way of passing the data, the exact negative log-likelihood with its true first derivatives, per-observation scores and curvature, including when other data than the model's own are passed. A fit is a stationary minimum reported with curvature-based errors, two-sided probabilities and intervals, the right scale, deviance, chi-square, null likelihood, information criteria and pseudo R-squared. Leverages, residuals, influence measures, sandwich errors, jackknife replicates, term tests, predictions and prediction intervals are those of the weighted model.",
  ["inputs", "configurations"], "all designs, responses, weights, families, links, scale modes and data containers explored",
  "tests fit a few unweighted data sets and compare with stored numbers; weights in one of many formulas, decreasing links, estimated scale with foreign data or column-shaped responses never occur there",
  ["pystatsm/pyglm/glm.py", "pystatsm/pyglm/linear_model.py", "pystatsm/pyglm2/glm.py", "pystatsm/pyglm2/regression_model.py"],
  [("GLM of the first package", "pystatsm/pyglm/glm.py"), ("weighted GLM", "pystatsm/pyglm2/glm.py"), ("its twin", "pystatsm/pyglm/linear_model.py")], ["fitted attributes, tables and return values"])
prop("P09", "Ordinal, zero-inflated, negative binomial and beta regressions answer exactly",
  "For every data set, weight vector, link and way of passing the data, the ordinal, zero-inflated Poisson, zero-inflated negative binomial, negative binomial and beta regressions return the exact negative log-likelihood (in total and by observation) with its true first and second derivatives, also in the unconstrained threshold parameters and for other data than the model's own. A fit is a stationary minimum reported with curvature-based errors, two-sided probabilities, intervals, labels, null likelihood, information criteria and pseudo R-squared. Predicted probabilities, means, variances, goodness of fit, standard errors and intervals are those of the fitted mixture or ordinal model.",
  ["inputs", "configurations"], "all designs, outcomes, weights, links and data containers explored",
  "tests fit a few unweighted data sets and compare gradients with finite differences at one point; weights in one of several formulas, sign conventions of criteria, array input or intervals never occur there",
  ["pystatsm/pyglm/clm.py", "pystatsm/pyglm2/clm.py", "pystatsm/pyglm/zimodels.py", "pystatsm/pyglm2/zinf.py", "pystatsm/pyglm/nb2.py", "pystatsm/pyglm/betareg.py"],
  [("cumulative link models", "pystatsm/pyglm2/clm.py"), ("zero-inflated counts", "pystatsm/pyglm2/zinf.py"), ("beta regression", "pystatsm/pyglm/betareg.py")], ["fitted attributes, tables and return values"])
prop("P10", "Resampling inference samples the right distribution and leaves the model alone",
  "Every bootstrap sample of a regression is the estimate for a draw of whole observations with replacement, every count vector being drawn with its multinomial probability, and the errors, ratios, p-values and percentiles reported are those of the samples. Permutation and Freedman-Lane p-values, single and family-wise, agree with the exact test over all permutations up to Monte Carlo error, and bias-corrected accelerated intervals are the defined quantiles and equivariant under change of sign and scale. Resampling does not change the model or its data: later evaluations and refits answer as before.",
  ["inputs", "schedules"], "all random draws (enumerated completely on small data sets), models and options explored",
  "a random procedure has no single expected output, so tests only run it; that a draw keeps rows together, has the right probabilities and restores the model can only be decided against the enumerated sample space",
  ["pystatsm/pyglm/ols.py", "pystatsm/pyglm2/ols.py", "pystatsm/pyglm/linear_model.py", "pystatsm/pyglm/glm.py", "pystatsm/pyglm2/glm.py", "pystatsm/pyglm/nb2.py", "pystatsm/pyglm/clm.py", "pystatsm/pyglm2/clm.py", "pystatsm/utilities/output.py"],
  [("permutation and bootstrap of least squares", "pystatsm/pyglm/ols.py"), ("likelihood bootstrap", "pystatsm/pyglm2/glm.py"), ("BCa intervals", "pystatsm/utilities/output.py")], ["stored samples, result tables and model state"],
  [("model data during resampling", "some bootstraps overwrite the model's arrays with the drawn ones and restore them", "pystatsm/pyglm/nb2.py")])
prop("P11", "Survey designs estimate the covariance of totals for every frame",
  "For every frame of stratum and unit labels (numbers, text or categories, in any row order) a design keeps each row with its weight, groups rows by stratum and unit, and the covariance of a weighted total is the finite-population-corrected between-unit covariance within strata, strata with one unit being folded together, left without contribution or refused as the policy says. Subpopulations only zero weights and chain; fits on a (sub)population solve the weighted estimating equation and report its sandwich. Simulated populations have the stated nested layout and moments, and replication studies report the bias, errors and coverage of their replicates.",
  ["inputs", "histories"], "all frames of four rows over three strata and two units (enumerated by TLC) in all label types, larger random frames, all subset histories explored",
  "a misaligned pointer, a phantom or merged unit or a weight that does not follow its row gives a plausible covariance; tests use one sorted balanced frame of integers",
  ["pystatsm/utilities/complexdesign/sample_design.py", "pystatsm/utilities/complexdesign/replication.py", "pystatsm/utilities/complexdesign/population.py"],
  [("design layout and covariance of totals", "pystatsm/utilities/complexdesign/sample_design.py"), ("adapters and replication", "pystatsm/utilities/complexdesign/replication.py"), ("populations", "pystatsm/utilities/complexdesign/population.py")],
  ["return values and design attributes"])
prop("P12", "Linear mixed models answer as functions of data and parameter",
  "In every order of calls, the linear mixed models return the deviance, gradient and Hessian (REML and ML, in variance or unconstrained parameters, on sparse or dense paths), the generalised-least-squares effects, predictions of random effects and their errors, degrees of freedom and variance decomposition that the Gaussian mixed model defines at the parameter asked about. A fit is a stationary point no worse than its start, with standard errors from the curvature there and the stated information criteria. No call is influenced by an earlier call at another parameter.",
  ["inputs", "histories"], "all data layouts and random-effect structures explored, and all histories of up to three calls at two parameter values generated from the specification",
  "tests fit one or two designs and compare with stored numbers; they cannot establish that cached factors never leak between calls, nor cover crossed, centred or zero-covariate layouts, ML curvature or related levels",
  ["pystatsm/pylmm/lmm.py", "pystatsm/pylmm/re_mod.py", "pystatsm/pylmm/ranef_terms.py"],
  [("LMM loglike/gradient/hessian/effects", "pystatsm/pylmm/lmm.py"), ("LMM2 and MMEBlocked", "pystatsm/pylmm/re_mod.py")], ["return values and fitted attributes"],
  [("persistent buffers", "G, C, ZtRZ and the Cholesky factor are overwritten in place by every evaluation", "pystatsm/pylmm/re_mod.py")])
prop("P13", "Mixed-model formulas, groupings and simulators mean what they say",
 "A mixed-model formula is its terms: whatever the order and spacing, parsing yields the random terms in order (covariates and grouping), the fixed-effects part with its intercept rule, the responses and the variables, and the model built from it has exactly those fixed columns and, per random term, level-by-level blocks of its covariates. Grouping layouts resolve to what was declared: crossed, cycling, given and nested factors of the right sizes, with children inside their parents, and impossible specifications are rejected. A simulated response is fixed part + random effects of the observation's levels + residual; the simulator's true parameters, variance components and requested variance ratios are those of its design; exact draws have exactly the declared moments; a model rebuilt or updated from a simulated response is the one simulated.",
 ["inputs", "configurations"],
 "all combinations of term subsets, orders and spacings generated from the specification; all grouping layouts, labels and level sizes; all covariance matrices, covariate moments, variance ratios and response draws; single and several random terms, nested or crossed",
 "tests use two or three formulas and one layout; spacing, term order, label conventions, nested parents with arbitrary labels, rescaling and the bordered matrix after updating are not exercised",
 ["pystatsm/utilities/formula.py", "pystatsm/pylmm/sim_lmm.py", "pystatsm/pylmm/sim_lmm2.py", "pystatsm/pylmm/re_mod.py", "pystatsm/pylmm/model_matrices.py"],
 [("formula parsing", "pystatsm/utilities/formula.py"), ("legacy simulator", "pystatsm/pylmm/sim_lmm.py"), ("simulation specs and groupings", "pystatsm/pylmm/sim_lmm2.py"), ("random-effects design", "pystatsm/pylmm/re_mod.py")],
 ["return values and fitted attributes"])
prop("P14", "Structural equation formulas denote exactly their path model",
  "A structural equation formula means the path diagram it writes, however it is laid out, named, ordered or commented: the free parameters are those of its statements plus the documented default variances, covariances and intercepts (with the options honoured), constants and first loadings are fixed, exogenous observed variables keep their sample moments, and two parameters are equal exactly when labelled alike or shared across groups. The implied covariance and mean of every group at any parameter, the labelled matrices, and the first and second derivatives of the moments are those of the path diagram.",
  ["inputs", "configurations"], "all formulas of the generator (up to 4 latent variables, second-order, regressions among latent and observed variables, labels, fixed values, intercepts, 1-3 groups, all sharing patterns, all default options)",
  "tests differentiate two fixed models against themselves; nothing compares the implied moments with the diagram the formula denotes, so a mis-assigned, double-counted or wrongly shared parameter is invisible",
  ["pystatsm/pysem2/formula.py", "pystatsm/pysem2/model_builder.py", "pystatsm/pysem2/model_matrices.py", "pystatsm/pysem2/param_table.py", "pystatsm/pysem2/model_base.py", "pystatsm/pysem2/variable_ordering.py", "pystatsm/pysem2/indexers.py", "pystatsm/pysem2/derivatives.py"],
  [("formula parsing, default parameters, matrix assignment", "pystatsm/pysem2/model_builder.py"), ("parameter templates, sharing across groups", "pystatsm/pysem2/model_base.py"), ("moment derivatives", "pystatsm/pysem2/derivatives.py")],
  ["parameter tables, implied moments, labelled matrices, derivative arrays"])
prop("P15", "Structural equation likelihoods, derivatives and fits are exact",
  "For every model, data set and grouping (columns in any order, with columns the model does not use) the fit function is half the sample size times the maximum likelihood discrepancy, hence the log-likelihood ratio to the saturated model; log-likelihoods by observation, group and sample agree and follow the rows they belong to; gradient (by either method, by group and by observation) and Hessian are their derivatives. A fit is a stationary minimum no worse than its start, and its table reports the labelled parameters with model-based or robust standard errors.",
  ["inputs", "configurations"], "all generated models and data sets of P14's family at arbitrary parameters, fits under four optimiser configurations",
  "tests compare derivatives with finite differences of the same code on two models in one sharing pattern, so errors in the objective itself, in casewise terms, in shared parameters or in standard errors pass",
  ["pystatsm/pysem2/sem.py", "pystatsm/pysem2/model_data.py", "pystatsm/pysem2/derivatives.py", "pystatsm/pysem2/model_specification.py"],
  [("fit_func, gradient, hessian, loglike, gradient_obs, fit", "pystatsm/pysem2/sem.py"), ("sample statistics by group", "pystatsm/pysem2/model_data.py")],
  ["return values, fitted attributes and tables"])
prop("P16", "Factor rotations, identification and their inference are exact",
  "For every loading matrix, criterion (Crawford-Ferguson family, target) and rotation group, the criterion, its derivatives, the rotation parametrisation and the projections are those of the definition; a solver returns a member of the group that is stationary, no worse than its start and leaves the reproduced covariance unchanged. Identification constraints, their derivatives and the count of free parameters are right for orthogonal, oblique and canonical models; the likelihood (profiled or full), its derivatives, score and meat matrices are exact, and covariances are the constrained inverse information or its sandwich. Alignment finds the best signed matching and moves every estimate and error with its factor; simulated models have the stated covariance.",
  ["inputs", "configurations"], "all matrices, criteria, groups, solvers and numbers of factors explored; alignment judged against all permutations",
  "tests difference the code against itself at one point and compare solvers with each other, so a criterion with wrong weights, a constraint of the wrong sign or a mismatched error goes unnoticed",
  ["pystatsm/pyfa2/criterion.py", "pystatsm/pyfa2/rotation.py", "pystatsm/pyfa2/solvers.py", "pystatsm/pyfa2/identification.py", "pystatsm/pyfa2/likelihood.py", "pystatsm/pyfa2/inference.py", "pystatsm/pyfa2/alignment.py", "pystatsm/pyfa2/simulation.py", "pystatsm/pyfa2/sim_factor_model.py", "pystatsm/pyfa2/cayley.py", "pystatsm/pyfa2/layout.py"],
  [("rotation criteria and groups", "pystatsm/pyfa2/rotation.py"), ("likelihood", "pystatsm/pyfa2/likelihood.py"), ("constrained covariance", "pystatsm/pyfa2/inference.py")],
  ["return values"])
prop("P17", "Exploratory factor analysis reports the constrained maximum likelihood fit",
  "For every data set or covariance matrix, scale, number of factors and rotation (orthogonal, oblique or none) the factor analysis class evaluates the profiled and full discrepancy with true derivatives, fits a stationary identified optimum, and reports its parameters under the right labels with standard errors from the constrained information, two-sided probabilities, degrees of freedom net of the identification constraints, and the fit indices as defined. Rotations by either routine stay in their group, keep the reproduced covariance and are stationary for the named criterion; factor scores satisfy their defining equations; numbers of factors, ordering, alignment and simulated data follow their definitions.",
  ["inputs", "configurations"], "all data sets, scales, rotations, criteria and containers explored",
  "tests check derivatives of one unrotated and one rotated model against numerical ones; labels, degrees of freedom, fit indices, scores, oblimin rotations or data of another scale are never checked",
  ["pystatsm/pyfa/efa.py", "pystatsm/pyfa/rotation.py", "pystatsm/pyfa/fit_measures.py", "pystatsm/pyfa/align_loadings.py", "pystatsm/pyfa/simulate_factor_model.py"],
  [("FactorAnalysis", "pystatsm/pyfa/efa.py"), ("rotations", "pystatsm/pyfa/rotation.py"), ("fit measures", "pystatsm/pyfa/fit_measures.py")],
  ["return values, fitted attributes and tables"])
prop("P18", "Latent correlations of ordinal data are those of their defining model",
  "For every set of ordinal variables (any integer codes, with gaps, missing values, any numbers of categories) thresholds are the normal quantiles of the cumulative proportions and cell counts those of the observed categories; cell probabilities, likelihoods, scores and information of the correlation or of all parameters, natural or unconstrained, are those of the bivariate normal model. Estimates are interior stationary maxima of that likelihood, reported pair by pair in the order of the labels and as a symmetric matrix, with the model's standard errors; the asymptotic covariance of two-step estimates is that of their influence functions. Polyserial correlations do not depend on location or scale. Simulated codes follow their thresholds.",
  ["inputs", "configurations"], "all data sets of the generator (2 to 5 categories, codes with gaps or shifts, missing values, five implementations, one- and two-step fits, polyserial data of any scale)",
  "the only test differentiates one polyserial model against itself; a mis-indexed category, threshold, pair or covariance, or a likelihood of the wrong cells, is invisible",
  ["pystatsm/pylvcorr/polychoric2.py", "pystatsm/pylvcorr/polychoric.py", "pystatsm/pylvcorr/lvcorr.py", "pystatsm/pylvcorr/statfuncs.py", "pystatsm/pylvcorr/sim_lvcorr.py", "pystatsm/utilities/func_utils.py"],
  [("Polychor likelihood, fits, asymptotic covariance", "pystatsm/pylvcorr/polychoric2.py"), ("Polychoric, PolychoricCorr, Polyserial", "pystatsm/pylvcorr/lvcorr.py")],
  ["return values, fitted attributes and tables"])
prop("P19", "Smooths and additive models are the penalised likelihood they stand for",
 "A cubic regression, cyclic or B-spline basis reproduces the natural, periodic or B-spline cubic with the given knots at every point of its range, and its penalty is the integrated squared second derivative; smooths of a model are centred, scaled, multiplied by the indicator of their by-level and placed without overlap next to exactly the parametric terms of the formula (an intercept removed stays removed, functions such as cos() are not smooths, two smooths of one variable both stay). For given smoothing parameters a GAM (Gaussian, Gamma, inverse Gaussian), the Gaussian additive model and the Gaussian location-scale model return the minimiser of the penalised negative log-likelihood; REML equals its Laplace definition, and gradients, Hessians and the first to third derivatives of the fit in the log smoothing parameters are the derivatives of those values. A fitted model is a stationary point of REML and its covariances, effective degrees of freedom, coefficient and smooth tables, fit statistics, evaluated components and bands follow from it.",
 ["inputs", "configurations"], "all data sets, knots, smoothing parameters, families, links, weights and formulas", "the tests fit two formulas on one data set and compare stored smoothing parameters",
 ["pystatsm/utilities/splines.py","pystatsm/pygam/smooth_setup.py","pystatsm/pygam/transforms.py","pystatsm/pygam/gam.py","pystatsm/pygam/gaussian_additive_model.py","pystatsm/pygam/gauls.py"],
 [("spline bases and penalties","pystatsm/utilities/splines.py"),("model assembly","pystatsm/pygam/smooth_setup.py"),("GAM","pystatsm/pygam/gam.py"),("Gaussian additive model","pystatsm/pygam/gaussian_additive_model.py"),("location-scale model","pystatsm/pygam/gauls.py")],
 ["return values and fitted attributes"])
prop("P20", "Penalised regression solutions, paths and selection are optimal",
  "For every design, response, weights, penalty and mixing value each elastic-net solver (Gaussian, binomial, general exponential family; cold or warm start, any screening rule, with or without intercept) returns a point satisfying the optimality conditions of its penalised deviance, at every point of a path and in every fold. Penalty grids run log-linearly from the smallest penalty that selects nothing; reported penalties, deviances, objectives, gradients and Hessians are those of the definition. Folds partition the rows (evenly within classes), held-out errors are those of that fold's fit, and the reported choice minimises their mean. LARS knots and segments are exactly optimal, proximal methods descend to the lasso solution, and arguments are not modified.",
  ["inputs", "configurations"], "all data, correlations, penalties, mixing values, families, weights, starts and options explored, every knot and three points between knots of each path",
  "one test compares two loosely converged coefficient vectors with stored numbers (the LARS tests need the network), so variables that cannot re-enter, wrong grids, ignored weights or wrong held-out errors pass",
  ["pystatsm/pyglmnet/gaussian_eln.py", "pystatsm/pyglmnet/binomial_eln.py", "pystatsm/pyglmnet/binom_eln2.py", "pystatsm/pyglmnet/glmen.py", "pystatsm/pyglmnet/glmen2.py", "pystatsm/pyglmnet/eln_utils.py", "pystatsm/pyglmnet/lars.py", "pystatsm/pyglmnet/lasso.py", "pystatsm/pyglmnet/sparse_model_sim.py"],
  [("coordinate descent", "pystatsm/pyglmnet/gaussian_eln.py"), ("ElasticNetGLM", "pystatsm/pyglmnet/glmen2.py"), ("LARS path", "pystatsm/pyglmnet/lars.py")],
  ["return values and fitted attributes"])
prop("P21", "Robust M- and S-estimates and scale estimators solve their defining equations",
 "Every robust estimate is the solution of the equations, or the order statistic of the sample, that define it. The Huber and bisquare functions rho, psi, psi' and weights are the stated functions of the tuning constant the estimator was given (psi the slope of rho up to its norm, weights psi(x)/x, also at zero and for integer input) and their normal expectations are the integrals; mad, Gini's mean difference, Sn (both the fast and the naive form, with finite-sample factors), the median-of-medians scale and Qn equal their definitions for every sample, ties included, and are location invariant and scale equivariant. RobustLM's objective, gradient and Hessian agree; its fit and its IRLS variants satisfy their estimating and scale equations, and its covariances, t ratios, table, R2, deviance and criteria follow from psi at the scaled residuals and do not depend on the unit of the response. RobustSLM returns a coefficient and scale solving the S-equation at the requested breakdown point, with no competing fit of smaller scale, unmoved by gross contamination. The robust regression simulator's design covariance, coefficients, residual scale and responses are as requested.",
 ["inputs","configurations"], "all samples (ties, odd and even sizes), tuning constants, breakdown points, starting scales, contaminated and clean regressions",
 "users apply robust fits to data with outliers, where the equations and breakdown guarantee are the whole point; a test with one sample cannot establish them",
 ["pystatsm/pyrobust/m_estimators.py","pystatsm/pyrobust/dispersion_estimators.py","pystatsm/pyrobust/rls.py","pystatsm/pyrobust/robust_model_sim.py"],
 [("iteratively reweighted least squares","pystatsm/pyrobust/rls.py"),("scale iteration","pystatsm/pyrobust/m_estimators.py"),("binary-search Sn","pystatsm/pyrobust/dispersion_estimators.py")], ["return values and fitted attributes"])
prop("P22", "Data summaries, correlation structures and random draws obey their definitions",
 "Streaming summaries equal the batch ones at every step of the stream, for every axis; covariances, correlations, standardisation, diagonal scaling and sign normalisation are their formulas and change nothing they are not asked to; indicator codings and cross tables count every observation exactly once, flattening keeps every cell and expanding a table restores the observations; sign changes and extremes are found along the requested axis. Named correlation structures have their element formulas, requested spectra and canonical correlations are attained, nearest valid matrices are valid, keep their diagonal and no correlation matrix is closer, sampling covariances are their closed forms. Exact draws have exactly the requested moments; random matrices, truncated normals, t, gamma and LKJ draws stay in their support and follow the mean and variance of their law; equal seeds give equal draws.",
 ["inputs", "configurations"],
 "all sequences of length five over three values (as categories, tables and signed series); all dimensions, axes, orders of correlation; all seeds and parameters of the generators",
 "tests fix one seed and use the generators only as data sources; laws, supports, symmetry for four or more variables, negative axes and repeated sign changes are not looked at",
 ["pystatsm/utilities/data_utils.py", "pystatsm/utilities/cov_utils.py", "pystatsm/utilities/random.py", "pystatsm/utilities/tf_utils.py"],
 [("streams, tables, containers", "pystatsm/utilities/data_utils.py"), ("correlation structures and nearest matrices", "pystatsm/utilities/cov_utils.py"), ("random generators", "pystatsm/utilities/random.py")],
 ["return values"])
prop("P23", "Canonical, sparse, independent and NMF components meet their definitions",
 "Canonical variates have unit variance, are mutually uncorrelated, correlate across blocks only in pairs and attain the canonical correlations, for any numbers of variables and components; loadings, variates, projections and labelled tables follow from the weights, and the simulator of canonical blocks has the stated correlations and exact data. Each sparse canonical component has unit length, meets its L1 bound exactly when the bound binds and is a fixed point of the alternating soft-thresholded updates on the blocks left by the earlier components; orthogonalised weights keep those variates and are uncorrelated; folds partition the rows and are standardised by themselves, held-out correlations are those of the stored weights and the chosen penalty maximises them. Independent components are white, linear in the data, inverted by the mixing matrix, stationary for the contrast of the chosen algorithm, and for independent non-Gaussian sources the iteration converges to the sources. Convolutive factorisation reconstructs by lagged sums, keeps factors non-negative, makes exactly the multiplicative update and records the fit and penalty of what it stores; centring factors keeps the reconstruction. Distance correlation and the kernel independence statistic are their formulas, their permutation samples are uniform over the permutations of the rows and their p-values are the corresponding tail fractions.",
 ["inputs", "configurations"],
 "every pair of block sizes up to 5 variables and every number of components, arrays or frames, penalties, folds, mixtures of sub- and super-Gaussian sources, factor shapes; all permutations of four rows",
 "none of these modules has a test: block sizes, non-default numbers of components, mixed source types and p-values without stored samples were all wrong without a test failing",
 ["pystatsm/pyscca/base_cca.py", "pystatsm/pyscca/cca_sim.py", "pystatsm/pyscca/scca.py", "pystatsm/pyica/ica.py", "pystatsm/pynmf/hfuncs.py", "pystatsm/misc/independence_tests.py"],
 [("canonical correlations", "pystatsm/pyscca/base_cca.py"), ("sparse canonical correlations", "pystatsm/pyscca/scca.py"), ("independent components", "pystatsm/pyica/ica.py"), ("sequence factorisation", "pystatsm/pynmf/hfuncs.py"), ("dependence tests", "pystatsm/misc/independence_tests.py")],
 ["return values and fitted attributes"])
prop("P24", "Sinh-arcsinh and skew-normal families are coherent distributions",
"For every parameter value and observation: each family's log-density is the stated law's, its reported first to fourth derivative arrays are the derivatives of that log-density in the documented order, density, distribution function, quantile function, mean, variance, median, raw moments, skewness and kurtosis all describe the same distribution, and random draws follow it.",
["inputs","configurations"], "every y, parameter vector and array shape of sash, shash1, shashr and skewnorm_dist (heavy, normal and light tails, both skews)",
"Hundreds of machine-generated expressions where one wrong term only shows at some parameter values; tests sample one parameter vector of two modules.",
["pystatsm/misc/sash.py","pystatsm/misc/shash1.py","pystatsm/misc/shashr.py","pystatsm/misc/shash_lpdf4.py","pystatsm/misc/shashr_lpdf4.py","pystatsm/misc/skewnorm_dist.py"],
[("log-density and derivative expressions","pystatsm/misc/sash.py"),("moment formulas and quantile function","pystatsm/misc/shash1.py"),("log-scale parameterisation","pystatsm/misc/shashr.py"),("skew normal derivatives","pystatsm/misc/skewnorm_dist.py")],
["return values and fitted attributes"])
prop("P25", "Matrix-specified structural equation models answer exactly",
"For every set of labelled loading, path, factor and residual tables, in any order of rows and columns, and every data frame: the free parameters are the nonzero entries but one reference loading per factor, labelled by the entry they stand for; the implied covariance, the discrepancy (infinite outside the positive-definite region), its gradient and Hessian and the derivative of the covariance are those of the model at the parameter asked about. A fit is a stationary minimum no worse than its start, reported with curvature-based errors and two-sided probabilities, and every fit measure (chi-square, absolute, relative to the default or a given null model, information criteria, critical sample sizes) equals its formula.",
["inputs","configurations"], "every model kind (factor, path, full, single indicator, correlated residuals), table order, reference choice, start value, parameter and null model",
"Tests use three fixed models, two of which need the network, and never read labels or fit measures; the errors show only for cross-loadings, permuted tables or other reference variables.",
["pystatsm/pysem/sem.py"],
[("parameter layout and labels","pystatsm/pysem/sem.py"),("analytic derivatives","pystatsm/pysem/sem.py"),("fit measures","pystatsm/pysem/sem.py")],
["return values and fitted attributes"])
prop("P26", "Regression simulators honour the requested design and law",
"For every formula, number of levels, sample size, seed and option: the latent normals have exactly the requested sample correlation (whose eigenvalues follow the requested spectrum), categories are their equal-sized quantile cuts, the design is that of the formula, coefficients have the requested number of nonzero signs, zero-sum level contrasts and a zero intercept, rescaling gives the requested signal variance and the noise the requested R-squared, reproducibly from the seed. The multivariate generator returns signal, errors, covariances, precision factor and packed true parameters that belong together, at the requested R-squared and structure.",
["inputs","configurations"], "every formula, level count, spectrum, sparsity, seed, coefficient structure, correlation structure, noise law and target R-squared",
"Tests only use two formulas as input data for other models and check none of the generated quantities; the multivariate generator has no test.",
["pystatsm/pyglm2/model_sim.py","pystatsm/pyglm/glm_sim.py","pystatsm/pyglm2/sim_mvols.py"],
[("latent data, design and coefficients","pystatsm/pyglm2/model_sim.py"),("older simulator","pystatsm/pyglm/glm_sim.py"),("multivariate regression generator","pystatsm/pyglm2/sim_mvols.py")],
["return values and fitted attributes"])
prop("P27", "Bayesian mixed models sample from the posterior they stand for",
"For every random-effects structure (random intercept, correlated intercept and slope, crossed terms), data set, prior and chain state, each conditional update of pystatsm's MixedMCMC has the law of its posterior under a flat prior on the fixed effects and a prior density |S|^(-n/2) exp(-tr(V S^-1)/2) on each covariance S. (a) sample_location is an affine function of its two standard-normal arguments whose mean and covariance are the conditional mean and covariance of fixed and random effects given the (latent) response, the effect covariances and the residual variance. (b) sample_gcov and sample_rcov draw every effect covariance and the residual variance from their inverse-Wishart / inverse-gamma conditionals; the other elements of theta stay as they were. (c) The Metropolis steps for the latent variables of binomial and Poisson responses accept an element exactly when its own log posterior ratio exceeds the supplied log uniform, and change only accepted elements. (d) The slice update of Bernoulli latents and the truncated-normal update of ordinal latents draw from the conditional normal restricted to the slice or to the category's interval. (e) The threshold chain of the ordinal model keeps the first threshold fixed and has the thresholds' posterior as its stationary law. (f) Whole chains (normal, Bernoulli, binomial) have the posterior means and spreads obtained by integrating the same model on a lattice.",
["inputs","configurations"],
"Random structures, unbalanced level orders, prior scales and degrees of freedom, arbitrary chain states and effect covariances.",
"The posterior is a statement about laws of draws over all chain states; unit tests of the sampler only look at whether a run finishes with plausible averages, and are not even collected by default.",
["pystatsm/pylmm/glmm_mcmc.py"],
[("conditional law of fixed and random effects","pystatsm/pylmm/glmm_mcmc.py"),("inverse-Wishart and inverse-gamma conditionals","pystatsm/pylmm/glmm_mcmc.py"),("Metropolis, slice and truncated-normal latent updates","pystatsm/pylmm/glmm_mcmc.py"),("threshold proposals of the ordinal model","pystatsm/pylmm/glmm_mcmc.py"),("truncated normal, inverse-Wishart and inverse-gamma generators","pystatsm/utilities/random.py")],
["return values and fitted attributes"])
prop("P28", "Simulated SEM data follow the model they are drawn from",
"For every structural equation formula (measurement, regression, residual-covariance, labelled and fixed parameters, exogenous variables) and any number of groups, SimulatedSEM(formula, n_groups, n_obs_min, n_obs_max, rng).simulate() returns one row per observation of every group (sizes within the given bounds, columns exactly the observed variables plus `group`), and the rows of each group are a sample of the normal law whose mean and covariance the formula implies, with path-tracing meaning, at the simulated parameters model_spec.free: loadings and latent covariance parameters are one number across groups, labelled parameters one number wherever the label stands, and exogenous moments are those of the data the model was built from. Freely estimated loadings lie in [0.8, 0.9], regressions in [0.5, 0.9], latent-side variances in [2, 3] and residual variances in [0.5, 0.9]. Everything random comes from the generator given: equal generators give equal data, different ones different data, and a second simulate() on the same object is a new sample of new parameters with the same sizes.",
["inputs","configurations"],
"Formulas (fixed set and random ones), one to five groups, sizes and generators.",
"A simulator's correctness is a distributional statement over all models and seeds; tests only fit whatever data comes out and compare derivatives at arbitrary points.",
["pystatsm/pysem2/model_simulator.py"],
[("parameter ranges and data generation","pystatsm/pysem2/model_simulator.py"),("parameter table, sharing and matrices","pystatsm/pysem2/model_specification.py"),("placeholder data with exact moments","pystatsm/utilities/random.py")],
["return values and fitted attributes"])
