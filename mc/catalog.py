"""The catalogue of properties: one entry per property; `python -m mc.gen`
writes properties.jsonl and MANIFEST.json from it (a property is claimed when
a check module mc/checks/<id>_*.py exists)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, level_note="", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, level_note=level_note, state=state))


U = "pystatsm/utilities/"

prop("C01", "Compiled sparse kernels equal dense algebra on every sparsity pattern",
     "For operands with any (non-empty) sparsity pattern, the compiled sparse kernels (Kronecker products with identity, "
     "sparse or dense factors, addition, products, traces, reductions, COO-to-CSC assembly) return a structurally valid result "
     "that equals the dense computation, for real and complex values. In-place variants write only inside the "
     "buffers they were given, and reusing an output or workspace across calls leaves no trace of earlier contents.",
     ["inputs", "histories"], "every non-empty 0/1 pattern of every pair of operand shapes up to 3x3 and every reuse history "
     "of length 2-3 on the same output buffers; real and complex payloads",
     "tests use a handful of random matrices with full columns; empty columns, unsorted outputs, rectangular factors and buffer reuse are never combined",
     [U + "cython_wrappers.pyx", U + "python_wrappers.py"],
     [("pattern-driven compiled loops", U + "cython_wrappers.pyx"), ("allocation and in-place wrappers", U + "python_wrappers.py")],
     ["return values of the wrappers", "contents of caller-provided buffers"])

prop("C02", "Index maps are mutually inverse bijections matching the documented layouts",
     "Every map between cells of a matrix or tensor and a flat position (column stacking, lower-triangle stacking with or without the diagonal, "
     "lexicographic, colexicographic, ascending or descending symmetric-tensor order, Kronecker cells) and its inverse compose to the identity and agree with the "
     "layout obtained by actually flattening an array. Index generators list exactly the required cells, once each, in the stated order; "
     "matching, unique-in-order and grid helpers agree with their naive definitions.",
     ["inputs"], "all matrix sizes up to 8, all tensor shapes up to 4 axes of 4, every cell, both storage orders, every diagonal offset; every short integer sequence for the matching helpers",
     "tests check a couple of sizes in one order; off-diagonal offsets, C order, and non-square shapes are not enumerated",
     [U + "indexing_utils.py", U + "ordered_indices.py", U + "linalg_operations.py"],
     [("forward/reverse index formulas", U + "indexing_utils.py"), ("ordered index generators", U + "ordered_indices.py")],
     ["returned index arrays"])

prop("C03", "Structured matrices realise vec, vech and commutation identities in every form",
     "Commutation, duplication, elimination, normalisation and related structured matrices satisfy their defining identities on every matrix "
     "of every size, and each available form of applying them (explicit matrix, sparse matrix, index-only operator, stacked Kronecker-times-vector) "
     "gives the same result as the explicit matrix product.",
     ["inputs", "configurations"], "all sizes m,n up to 5 with both sides, all forms and both sparse and dense inputs",
     "tests compare a few square sizes; rectangular sizes and the alternative forms are not cross-checked",
     [U + "linalg_operations.py", U + "special_mats.py", U + "indexing_utils.py"],
     [("structured matrix builders", U + "special_mats.py"), ("index-form operators", U + "linalg_operations.py")],
     ["returned matrices and products"])

prop("C04", "Linear-algebra building blocks agree with dense algebra under any call history",
     "Half-vectorisation and its inverse round-trip for every matrix; incrementally adding and removing rows of a Cholesky factor gives the factor "
     "of the corresponding sub-matrix after every sequence of additions and removals; a sparse factor handle answers solve, determinant and diagonal queries for the matrix "
     "it was last given, whatever it was asked before. Small special matrices and least-squares helpers equal their textbook definitions.",
     ["histories", "inputs"], "every add/remove history up to depth 5 of a 5-row matrix, every refactor/query history up to depth 4 over distinct sparsity patterns, all sizes up to 6",
     "tests never interleave updates, refactorisations and queries",
     [U + "linalg_operations.py", U + "special_mats.py", U + "cython_wrappers.pyx"],
     [("Cholesky add/delete", U + "linalg_operations.py"), ("sparse factor handle", U + "linalg_operations.py")],
     ["returned arrays after each operation"])


prop("C05", "Parameter transforms round-trip with exact derivatives, alone and combined",
     "Every parameter transform maps the unconstrained space onto exactly its documented admissible set: forward and reverse undo each other, "
     "every unconstrained vector yields an admissible value (positive-definite covariance, unit-diagonal correlation, positive or bounded scalar), and the reported first and second "
     "derivatives of both directions are the derivatives of the map. The same holds when transforms are composed, stacked over slices of one parameter vector, "
     "or applied to integer input; inputs are never modified.",
     ["inputs", "configurations"], "every transform class, all sizes up to 4, a grid of extreme and moderate values in every coordinate, every ordered composition and every stacking of up to three transforms",
     "tests try one transform at a time on one random point; slices, compositions, signs and near-boundary values are not combined",
     [U + "param_transforms.py", U + "cov_transform.py", U + "dchol.py", U + "unconstrained_chol.py"],
     [("transform classes and their combination", U + "param_transforms.py"), ("Cholesky derivatives", U + "dchol.py")],
     ["returned values, jacobians and hessians"])

LM = "pystatsm/pylmm/"
prop("C07", "Random-effect designs follow the grouping whatever the labels and row order",
     "For every assignment of observations to groups, each random-effect term's design, covariance and derivative matrices have the layout implied by the grouping (one block per level, "
     "one column per effect, rows in data order), and the relationship-matrix and several-term cases are the Kronecker and block-diagonal combinations of these. "
     "Likelihoods and estimates depend only on which observations share a level: relabelling the levels, changing the label type, or permuting the rows changes nothing but the order of the outputs.",
     ["inputs", "configurations"], "every set partition of up to 5 observations (and pairs of partitions for two terms), every label type, every order of first appearance, scalar and vector effects, with and without a relationship matrix",
     "tests use balanced integer-labelled groups sorted by row",
     [LM + "re_mod.py", LM + "lmm.py", LM + "model_matrices.py", LM + "ranef_terms.py"],
     [("term construction", LM + "re_mod.py"), ("first-generation design", LM + "model_matrices.py")],
     ["Z, G, theta maps, log-likelihood, random effects"])

prop("C08", "Mixed-model likelihoods and derivatives equal the dense Gaussian definition",
     "For every grouping structure, number of random-effect terms (nested, crossed, unbalanced, singleton levels, zero covariates, relationship matrices) and admissible variance parameter, the "
     "log-likelihood under ML and REML, its gradient and Hessian, the fixed effects, random effects and their covariances that the sparse implementations return equal "
     "those of the dense multivariate-normal definition with covariance Z G Z' + R.",
     ["inputs", "configurations"], "every set partition of the observations of a small data set, pairs of partitions for crossed terms, scalar and vector effects in every combination, several parameter points including zero covariances",
     "tests check one or two balanced simulated designs against finite differences",
     [LM + "re_mod.py", LM + "lmm.py", LM + "ranef_terms.py", U + "cython_wrappers.pyx"],
     [("mixed-model equations", LM + "re_mod.py"), ("sparse block updates", U + "cython_wrappers.pyx")],
     ["loglike, gradient, hessian, beta, u, se_beta and related outputs"])

prop("C09", "Mixed-model answers do not depend on which queries were made before",
     "A mixed model answers every query (likelihood, gradient, Hessian, fixed and random effects, their standard errors, fitting) for the parameter value it is asked about: "
     "after any history of evaluations, gradients, restricted or unrestricted calls and fits, each answer equals the one a fresh model gives. Fitting leaves the reported estimates, "
     "log-likelihood and standard errors mutually consistent and at a stationary point.",
     ["histories"], "every sequence up to depth 3 (4 in thorough) of queries at two parameter values, for three layouts and both implementations; every fit/query history",
     "tests query each model once after construction; cached factorisations and workspaces are never revisited at another parameter value",
     [LM + "re_mod.py", LM + "lmm.py"],
     [("cached mixed-model equations and factor", LM + "re_mod.py")],
     ["values returned by each query"],
     state=[("mme / factor caches", "factorisation of the mixed-model equations at the last parameter value", LM + "re_mod.py")])

prop("C06", "A model formula denotes the same model however it is written",
     "For every formula mixing fixed effects, random-effect terms (mixed models) or smooth terms (additive models), intercept switches and several responses, in any order, position and spacing: "
     "the fixed part, the random-effect or smooth terms and the response variables that the package uses are exactly those written. No term is lost, duplicated, moved to another part or altered, "
     "the design, penalty and grouping matrices are those of the written terms, and equivalent spellings of a formula give the same likelihood.",
     ["inputs"], "every ordered selection of up to three terms (five for a smaller pool) from a pool of fixed, random-effect or smooth terms and intercept switches, in every spacing style and response form",
     "tests use one canonical spelling with the random or smooth terms last",
     [U + "formula.py", LM + "model_matrices.py", LM + "lmm.py", LM + "re_mod.py", LM + "mlmm.py", "pystatsm/pygam/gam.py", "pystatsm/pygam/gauls.py",
      "pystatsm/pygam/gaussian_additive_model.py"],
     [("formula splitting", U + "formula.py"), ("design construction", LM + "model_matrices.py")],
     ["parsed terms, X, Z, S, y and likelihoods of the constructed models"])

G1, G2 = "pystatsm/pyglm/", "pystatsm/pyglm2/"
prop("C12", "GLM links and families are internally consistent definitions",
     "For every link (power links of any exponent included): link and inverse undo each other on the whole admissible range and every reported derivative, of either direction, is the derivative of the function it names. "
     "For every family, in each generation of the package, at every admissible response, mean, scale, dispersion and weight: the full log-likelihood is the named distribution's log density, variance, deviance, residuals, "
     "cumulant and canonical functions are those of that distribution, and score, information and scale derivatives are its derivatives. Vectors, columns and scalars give the same values, and arguments given explicitly override defaults.",
     ["inputs", "configurations"], "every link and family of both generations x every link x a grid of means, responses, scales, dispersions and weights x every calling convention",
     "tests check a few links and families at random central points without weights",
     [G1 + "links.py", G1 + "families.py", G2 + "links.py", G2 + "families.py", LM + "families.py", LM + "links.py"],
     [("link functions", G1 + "links.py"), ("exponential families", G2 + "families.py")],
     ["values of each link and family method"])

prop("C13", "GLM estimation and inference match the weighted likelihood they report",
     "For every family, link, scale handling, weighting, design and way of supplying the data, in each generation of the package: log-likelihood, gradient (total and per observation) and Hessian are those of the family's weighted likelihood; "
     "a converged fit is a stationary point whose standard errors, scale, deviance, residuals, leverages, information criteria, robust errors, predictions and one-step leave-one-out estimates follow from it. "
     "Integer weights act as replication, row order and labels are irrelevant, and evaluating on other data is evaluating a model of those data. "
     "Wald, score and likelihood-ratio tests, constraints and profile likelihoods agree with their definitions for every subset and order of parameters.",
     ["inputs", "configurations"], "every family/link x scale x weights x design x row order x data form; every ordered proper subset of up to 4 parameters for constraints, tests and profiles",
     "tests fit a few unweighted canonical models on simulated data",
     [G2 + "glm.py", G1 + "glm.py", G1 + "linear_model.py", G2 + "likelihood_model.py", G2 + "regression_model.py"],
     [("likelihood, score, information", G2 + "glm.py"), ("tests and profiles", G2 + "likelihood_model.py")],
     ["loglike, gradient, hessian, fitted attributes, test statistics"])

PG = "pystatsm/pygam/"
prop("C10", "Spline bases, penalties and constraints are the splines they name",
     "For every knot layout, data layout and spline type: the natural cubic, cyclic cubic and B-spline bases reproduce the interpolant or spline they name at every point and derivative order, "
     "the penalty matrix is the integrated squared second derivative, knots follow the stated quantile or even spacing, and constrained or diagonalised smooths span exactly the "
     "permitted space. Evaluation at new points uses the fitted basis, so splitting, reordering, repeating or extending the points changes nothing; group-wise smooths act on their own level only; "
     "and the smoothing-selection criteria equal their dense definitions.",
     ["inputs", "configurations"], "every selection of knots from a small grid x spline type x data layout x derivative order; every by-level pattern",
     "tests fit one smooth on a random sample",
     [U + "splines.py", PG + "smooth_setup.py"],
     [("basis and penalty construction", U + "splines.py"), ("smooth set-up and constraint absorption", PG + "smooth_setup.py")],
     ["basis, penalty and constraint matrices, criteria values"])

prop("C21", "Additive models optimise and report the restricted likelihood they define",
     "For additive models and Gaussian location-scale models with any smooths, parametric terms, group-wise smooths, family, links and weights: coefficients at given smoothing parameters minimise the penalised likelihood, "
     "the smoothing criterion is the restricted likelihood of that fit and its gradient, Hessian and coefficient paths are its derivatives. A fit is a stationary point whose covariances (Bayesian, corrected, frequentist), "
     "effective degrees of freedom, tables, residuals and component curves follow from it. Row order, index labels and earlier queries do not matter, and integer weights act as replication.",
     ["inputs", "configurations", "histories"], "every family/link x smooth structure x smoothing grid x scale x row order x weighting; every query history of length 3",
     "tests check derivatives of one model at one point and never the reported covariances",
     [PG + "gam.py", PG + "gauls.py", PG + "gaussian_additive_model.py", PG + "smooth_setup.py", PG + "transforms.py", U + "optimizer_utils.py"],
     [("criterion and derivatives", PG + "gam.py"), ("location-scale likelihood", PG + "gauls.py")],
     ["reml, gradient, hessian, fitted attributes, curves"])

PS = "pystatsm/pysem2/"
prop("C16", "A structural equation formula yields exactly the model it states",
     "For every path-model structure, textual form of its formula, data layout, grouping and builder option, the parameter table, matrices, parameter vector and implied moments are those of the path equations the formula states: "
     "each stated or conventional parameter appears once, fixed values, labels, defaults (first loading, exogenous moments, residual covariances) and the requested cross-group sharing are honoured, "
     "requested variable orders only permute rows and columns, and mapping between the reduced, free and matrix forms of the parameters is an exact bijection.",
     ["inputs", "configurations"], "20 structures x 5 textual styles x statement orders x groupings x sharing patterns x builder options x variable orders; every modifier choice on small models",
     "tests build three models, one option set and one variable order",
     [PS + "formula.py", PS + "param_table.py", PS + "model_builder.py", PS + "model_specification.py", PS + "variable_ordering.py"],
     [("formula to parameter table", PS + "param_table.py"), ("sharing and templates", PS + "model_specification.py")],
     ["parameter tables, theta names, template matrices, implied moments"])

prop("C17", "Structural equation likelihoods and derivatives follow the implied moments",
     "For every structure, grouping, sharing pattern and presentation of the data, the discrepancy, log-likelihood, gradient (total and per observation) and Hessian of a structural equation model "
     "are those of the Gaussian likelihood of its implied means and covariances, at every admissible parameter and regardless of earlier evaluations; group labels, row order, extra columns and the order of the statements do not matter.",
     ["inputs", "histories"], "20 structures x groupings x sharing patterns; every evaluation history of length 3; every presentation of the data",
     "tests compare derivatives with finite differences for one model without shared parameters across groups",
     [PS + "model_base.py", PS + "derivatives.py", PS + "sem.py", PS + "model_data.py"],
     [("likelihood, score and Hessian", PS + "sem.py"), ("moment derivatives", PS + "derivatives.py")],
     ["loglike, fit_func, gradient, gradient_obs, hessian"])

prop("C18", "Structural equation fits, inference and simulations follow the model",
     "A fitted structural equation model is an interior minimum of its discrepancy whose tables, standard errors (model-based and robust), intervals and matrices follow from the estimate, and equals the closed-form maximum where one exists. "
     "Models built from sample statistics equal models of the data summarised, and simulated data have the stated groups, sizes and moments and are reproducible from the generator given.",
     ["inputs", "configurations"], "structures x groupings x sharing x minimiser options; every form and column order of sample statistics; structures x groups x sizes for simulation",
     "tests fit one model with one minimiser and no sample statistics",
     [PS + "sem.py", PS + "model_base.py", PS + "model_data.py", PS + "model_simulator.py"],
     [("fit and tables", PS + "sem.py"), ("simulation", PS + "model_simulator.py")],
     ["fitted parameters, tables, simulated data"])

prop("C14", "Cumulative-link models follow the category probabilities they define",
     "For ordinal responses with any number of categories, labels, link, predictors, weights and way of supplying the data, in both generations of the package: log-likelihood, gradient (total and per observation) and Hessian, in thresholds or in the unconstrained parameters, "
     "are those of the cumulative-link category probabilities; the threshold transform is an exact bijection with exact derivatives. A fit is a stationary point with ordered thresholds whose tables, criteria, tests, predictions and intervals follow from it; "
     "reordering rows, relabelling categories monotonically, reflecting them under a symmetric link, rescaling a predictor and replicating rows by weight change nothing else, two categories give binary regression, and bootstrap estimates fit their resamples.",
     ["inputs", "configurations"], "categories x links x formulas x labels x row orders x data forms x weights; every threshold spacing over a small grid",
     "tests fit one unweighted logit model; the old implementation is compared with stored numbers",
     [G2 + "clm.py", G1 + "clm.py", G2 + "regression_model.py"],
     [("likelihood and derivatives", G2 + "clm.py"), ("first implementation", G1 + "clm.py"), ("ordinal data", G2 + "regression_model.py")],
     ["loglike, gradient, hessian, fitted tables, predictions"])

prop("C15", "Least squares and multivariate regression report exact linear-model inference",
     "For every formula, row order and way of supplying the data: unweighted least-squares fits, their likelihood and derivatives, tables, sums of squares, robust covariances, leverages and jackknife are those of the linear model; "
     "least squares under any linear constraints solves the constrained problem; permutation, Freedman-Lane and bootstrap results are those of the resamples drawn. "
     "Multivariate regression, weighted or not, has the stated likelihood and derivatives, and its hypothesis tests, association measures and criteria equal their definitions by refitting under the hypothesis. "
     "The data containers keep every block, label and weight aligned under selection, flattening and removal of missing rows.",
     ["inputs", "configurations", "histories"], "formulas x row orders x data forms x scale conventions; every one- or two-row contrast over {-1,0,1}; every container content and operation",
     "tests fit two formulas and compare nothing of the tests, constraints or resampling",
     [G2 + "ols.py", G2 + "mvols.py", G1 + "ols.py", G1 + "linear_model.py", G2 + "regression_model.py", G2 + "sim_mvols.py"],
     [("least squares", G2 + "ols.py"), ("multivariate regression", G2 + "mvols.py"), ("data containers and robust covariances", G2 + "regression_model.py")],
     ["fitted attributes, tables, tests, container contents"])
prop("C11", "Survey designs give design-based estimates and covariances",
     "For every assignment of rows to strata and PSUs, labels of any type, row order, weights, finite population corrections and policy for strata with one PSU: the covariance of a total is the stratified between-PSU estimator, the design keeps every row and label of the data and the caller's frame is untouched. "
     "Subpopulations keep the design and only zero weights, however they are chained. Weighted fits solve the weighted estimating equations and their covariance is the sandwich with that design. "
     "Simulated populations have the stated structure and are reproducible, and the replication harness summarises exactly the draws of its generator.",
     ["inputs", "configurations", "histories"], "every assignment of up to 4 rows to 3 strata x 2 PSUs and of 5 rows to 2 x 2 (thorough: 5 rows to 3 x 2 and 2 x 3), label types, policies; every subpopulation and chain; adapters x formulas x designs x orders",
     "tests use one balanced design with integer labels in sorted order",
     [U + "complexdesign/sample_design.py", U + "complexdesign/replication.py", U + "complexdesign/population.py"],
     [("designs and grouped covariances", U + "complexdesign/sample_design.py"), ("populations", U + "complexdesign/population.py"), ("adapters and replication", U + "complexdesign/replication.py")],
     ["design covariances, weights, row order, replicate summaries"])
PF = "pystatsm/pyfa2/"
prop("C19", "Factor rotation and identification are exact on their manifolds",
     "For every loading matrix: each named rotation criterion is its Crawford-Ferguson (or target) definition with exact gradient and Hessian; projections, retractions and Cayley coordinates keep rotations on their manifold; "
     "the solvers only go downhill, report what they return, leave their input alone, reach stationary points, and reach the global optimum where it is known (two orthogonal factors, Procrustes); "
     "identification constraints vanish exactly at the solutions, have exact Jacobians in every parameter and leave the right number of free parameters. "
     "Alignment finds the optimal signed permutation and carries every part of the model along unchanged.",
     ["inputs", "configurations", "starts"], "every small integer loading matrix; criteria x shapes x starts x solvers; every signed permutation of up to 3 (thorough: 4) factors; every pair of 2x2 integer matrices",
     "tests check derivatives at one random point of one shape and that solvers agree with each other",
     [PF + "criterion.py", PF + "rotation.py", PF + "cayley.py", PF + "solvers.py", PF + "identification.py", PF + "alignment.py", PF + "layout.py"],
     [("criteria", PF + "criterion.py"), ("manifolds", PF + "rotation.py"), ("solvers", PF + "solvers.py"), ("identification", PF + "identification.py"), ("alignment", PF + "alignment.py")],
     ["criterion values and derivatives, rotated loadings, constraints, aligned models"])
prop("C20", "Factor analysis: likelihood, fits and standard errors are exact",
     "At every parameter value the factor-model discrepancy, its gradient, Hessian, moment Jacobian, score Jacobian and meat are those of the model, in whatever order they are evaluated; "
     "the concentrated likelihood is the profile of the full one with exact derivatives; fits are stationary, recover every identified population exactly and follow rescaling, reflection and reordering of the variables. "
     "Parameter and sandwich covariances are those of the information restricted to the identification constraints, so the covariance of the implied moments is the same under every identification. "
     "Simulators are reproducible and valid, and the recovery study aligns estimates and covariances consistently.",
     ["inputs", "configurations", "histories"], "shapes x parameter points; every sequence of up to 3 (thorough: 4) evaluations at two points; populations x changes of variables; identifications; every small integer data matrix",
     "tests use one model and compare derivatives at one point",
     [PF + "likelihood.py", PF + "inference.py", PF + "simulation.py", PF + "sim_factor_model.py"],
     [("likelihood", PF + "likelihood.py"), ("standard errors", PF + "inference.py"), ("simulation", PF + "simulation.py"), ("recovery study", PF + "sim_factor_model.py")],
     ["discrepancies and derivatives, estimates, covariances, simulated moments"])
GN = "pystatsm/pyglmnet/"
prop("C22", "Penalised regression returns the optimum of its objective at every penalty",
     "For every design, response, penalty mix, penalty size, starting value and observation weight within the bound, lasso, elastic net and penalised binomial fits satisfy the optimality conditions of the objective they document; the objective never rises, reported values are those of the returned coefficients and the caller's arrays are untouched. "
     "Paths start at the smallest penalty with a null fit and hold each penalty's own optimum; piecewise linear lasso and least-angle paths satisfy the conditions between their knots and end at least squares. "
     "Folds partition the rows evenly (within classes), held-out scores use the fold's own fit on the fold's own scale, and the selected penalty minimises them. "
     "Gradients and Hessians of the penalised GLM objective are exact.",
     ["inputs", "configurations", "starts"], "designs (orthogonal, collinear, aliased, wide) x responses x mixes x penalties x starts; every fold layout of up to 7 (thorough: 8) rows and every binary class pattern",
     "tests compare one design with stored coefficients",
     [GN + "gaussian_eln.py", GN + "binomial_eln.py", GN + "binom_eln2.py", GN + "glmen.py", GN + "glmen2.py", GN + "lars.py", GN + "lasso.py", GN + "eln_utils.py", GN + "sparse_model_sim.py"],
     [("gaussian elastic net", GN + "gaussian_eln.py"), ("binomial elastic net", GN + "binomial_eln.py, " + GN + "binom_eln2.py"), ("penalised GLM", GN + "glmen2.py"), ("paths", GN + "lars.py"), ("folds", GN + "eln_utils.py")],
     ["coefficients, paths, folds, held-out scores, derivatives"])
PR = "pystatsm/pyrobust/"
prop("C23", "Robust estimators solve their equations, are equivariant and resist outliers",
     "For every sample: the dispersion estimators (mean difference, Sn in its naive and fast forms, Qn, MAD) equal their definitions, follow shifts, scalings and reorderings and leave the data alone. "
     "Huber and bisquare functions with any tuning constant are consistent with each other (slopes, weights, normal expectations), for integer and real residuals alike. "
     "Robust regressions have exact derivatives, solve their location and scale equations, report Huber's covariances on the scale of the data, do not depend on row order, follow affine changes of the response, and do not move when an observation that is already an outlier moves further out; S-estimates withstand gross errors anywhere.",
     ["inputs", "configurations"], "every sample of up to 6 (thorough: 7) values from 5; every placement of up to 3 outliers among 8-13 (21) values; every placement of outliers in small regressions x tuning constants",
     "tests check derivatives of two functions at one constant",
     [PR + "dispersion_estimators.py", PR + "m_estimators.py", PR + "rls.py", PR + "robust_model_sim.py"],
     [("dispersion estimators", PR + "dispersion_estimators.py"), ("M-estimators", PR + "m_estimators.py"), ("robust regression", PR + "rls.py"), ("simulation", PR + "robust_model_sim.py")],
     ["estimates, scales, covariances, function values"])
prop("C24", "Tables, encodings, allocations and numeric helpers are exact on every array",
     "For every small array, label set and row order: cross tabulations, their expansions and dummy encodings agree with counting; running and compiled means, variances, covariances and correlations equal their definitions for any denominator, axis or shift and leave the data alone; extreme positions and sign changes are the ones requested. "
     "Allocations of a total to proportions, minima and maxima always add up, stay within their limits and within one of the exact share; partitions enumerate every composition once; group sizes add up to the total. "
     "Elementwise helpers (logit family, normal functions, thresholds, multivariate gamma, rounding) keep their identities at every argument, including extreme ones.",
     ["inputs"], "every array of up to 5 rows over 3 labels in up to 3 columns; every share vector in sixths; every composition; scalar grids with extreme arguments",
     "tests do not touch these helpers directly",
     [U + "data_utils.py", U + "func_utils.py", U + "xcorr.py"],
     [("tables and encodings", U + "data_utils.py"), ("elementwise helpers", U + "func_utils.py"), ("autocorrelation", U + "xcorr.py")],
     ["tables, codes, moments, allocations, function values"])
prop("C25", "Generators and simulators build exactly the stated distributions' transforms",
     "For every sequence of draws the random source may return: random correlation matrices are valid and follow the stated recursions, random rotations are orthogonal, points lie on their sphere, truncated normal draws lie in their bounds and invert the truncated distribution, scatter and t draws are the documented functions of their base draws. "
     "With a seed every generator is reproducible and does not touch the caller's arguments. "
     "Linear, mixed, generalised, factor, canonical-correlation, sparse and ordinal simulators use exactly the coefficients, covariances, groupings and variance shares they were given, and the data are the model applied to the draws.",
     ["inputs", "histories", "configurations"], "scripted random sources: every sequence of draws from a small alphabet; bounds x distributions x dimensions; groupings x variance shares x formulas",
     "tests draw from one seed and look at the fit, not at the draw",
     [U + "random.py", G2 + "model_sim.py", LM + "sim_lmm2.py", LM + "sim_lmm.py", "pystatsm/pyfa/simulate_factor_model.py", "pystatsm/pyscca/cca_sim.py", GN + "sparse_model_sim.py", "pystatsm/pylvcorr/sim_lvcorr.py"],
     [("random matrices and truncated draws", U + "random.py"), ("mixed model simulation", LM + "sim_lmm2.py"), ("linear model simulation", G2 + "model_sim.py")],
     ["drawn arrays, implied covariances, simulated responses"])
prop("C26", "Covariance builders, nearest correlations and numerical derivatives are exact",
     "For every parameter value in range each structured correlation (autoregressive, exchangeable, banded, antedependent, factor, spatial, Toeplitz, with given spectrum or canonical correlations) has exactly the stated entries and is a correlation matrix; values outside the range are refused. "
     "The nearest correlation matrix is feasible, is the projection, and leaves valid input unchanged; exact-covariance and whitening transforms give exactly the requested sample moments; sampling covariances of covariances and correlations equal their fourth-moment definition for any kurtosis. "
     "Finite-difference weights are exact on polynomials, and numerical gradients, Jacobians, Hessians and third derivatives agree with exact ones at every point, type and mask, with extra arguments passed on and inputs untouched.",
     ["inputs", "configurations"], "every entry of a parameter grid x sizes up to 6; every off-diagonal pattern of 3x3 (thorough: 4x4) matrices; every stencil of up to 5 nodes; functions x points x integer or real types",
     "tests use one matrix each and no extra arguments, masks or integer points",
     [U + "cov_utils.py", U + "numerical_derivs.py", U + "linalg_operations.py"],
     [("covariance builders", U + "cov_utils.py"), ("numerical derivatives", U + "numerical_derivs.py")],
     ["matrices, weights, derivatives"])
PL = "pystatsm/pylvcorr/"
prop("C27", "Latent correlations: bivariate normal, polychoric and polyserial are exact",
     "For every pair of limits and correlation the bivariate normal density, distribution function, slopes and rectangle probabilities are exact, for scalars, arrays and mixtures. "
     "For every contingency table: category probabilities, log likelihood, gradient and Hessian of each polychoric class equal those of the discretised normal distribution, on the raw and on the unconstrained scale; fitted correlations solve the likelihood equation from any start, do not depend on row order, coding of the categories or which variable comes first, and leave the data alone. "
     "Thresholds are the normal quantiles of the observed proportions, missing values are left out pairwise, matrices of several variables hold the pairwise estimates under the right labels with their asymptotic covariances. "
     "Polyserial correlations do not depend on the unit of the continuous variable and have exact derivatives.",
     ["inputs", "configurations", "starts"], "grids of limits x correlations; every 2x2 table over 4 counts and 2x3 and 3x3 tables x classes x codings x orders; ordinal matrices of 3-4 variables x missing patterns",
     "tests compare one simulated matrix with stored estimates",
     [U + "func_utils.py", PL + "statfuncs.py", PL + "lvcorr.py", PL + "polychoric.py", PL + "polychoric2.py"],
     [("bivariate normal functions", U + "func_utils.py, " + PL + "statfuncs.py"), ("polychoric and polyserial", PL + "lvcorr.py"), ("joint polychoric", PL + "polychoric.py, " + PL + "polychoric2.py")],
     ["probabilities, likelihoods, derivatives, estimates, covariances, labels"])
prop("C28", "Zero-inflated, negative binomial and beta regressions match their densities",
     "For every response vector, design, link and weighting: the per-row and total log likelihoods of the zero-inflated Poisson, zero-inflated negative binomial, negative binomial and beta regressions are those of their documented densities (including the factorial), and their gradients and Hessians, per row and summed, are the exact derivatives, at large means as well. "
     "Fits end at a stationary point and report its curvature as standard errors, with the right labels, degrees of freedom, null model, likelihood ratio, information criteria, deviance and predictions (means, variances, intervals, new rows). "
     "Fitting and bootstrapping leave data, options and the model's own data as they were.",
     ["inputs", "configurations", "histories"], "every count vector of length 5 (thorough: 6) over 2 (3) counts x links x designs x weights x points; every proportion vector of length 4; data sets x formulas for fits",
     "tests compare one simulated data set per model",
     [G1 + "zimodels.py", G1 + "betareg.py", G1 + "nb2.py", G2 + "zinf.py"],
     [("zero-inflated models", G1 + "zimodels.py, " + G2 + "zinf.py"), ("negative binomial", G1 + "nb2.py"), ("beta regression", G1 + "betareg.py")],
     ["likelihoods, derivatives, tables, criteria, predictions"])

PS1 = "pystatsm/pysem/"
prop("C29", "First-generation structural models: moments, likelihood, fits, names",
     "pysem.sem2.SEM(formula, data, group_col, group_kws) and pysem.sem.SEM(Lambda, Beta, Phi, Psi, data or S) describe the model that was written: "
     "implied covariances and means are those of the path equations with the values of theta placed by parameter name, equality labels, fixed values and group sharing (any pattern "
     "of the six matrices); the objective is half the likelihood-ratio against the saturated model (sem2) or ln|Sigma| + tr(S Sigma^-1) (sem); loglike by sample, group and case is the "
     "negative normal log density; gradient (both forms), per-group and per-case gradients, Hessian, first and second derivatives of the implied moments (also with respect to "
     "every matrix element) are the true derivatives; standard errors are those of the inverse Hessian or the sandwich; fit is stationary, its tables carry each parameter's own "
     "name, estimate, standard error, test and interval, its matrices reproduce the fitted moments, and the fit measures follow their definitions. Model matrices are matched by name whatever "
     "their order; an indicator is held fixed as documented. CovarianceStructure numbers free positions and tied parameters consistently, and the covariance derivative kernels and LikelihoodObjective are exact.",
     ["structures", "groups", "sharing patterns", "row and column orders", "free/fixed/tied patterns"],
     "Every structure of the catalogue x groups x sharing (formulas); every matrix pattern x order x source x indicator choice; every free/fixed/tied pattern of the kernels.",
     "labels attached in row-major order, tied parameters across groups and rarely used second derivatives are invisible to the two example models of the tests.",
     [PS1 + "sem2.py", PS1 + "sem.py", PS1 + "param_table.py", PS1 + "model_spec.py", PS1 + "derivatives.py", PS1 + "cov_derivatives.py", PS1 + "cov_model.py", PS1 + "fitfunctions.py", PS1 + "model_mats.py", PS1 + "model_data.py", PS1 + "formula_parser.py"],
     [("SEM.func/gradient/hessian", PS1 + "sem2.py"), ("SEM.hessian/_goodness_of_fit", PS1 + "sem.py"), ("BaseModel.reduce_parameters", PS1 + "param_table.py"), ("_d2sigma_mu/_d2loglike_mu", PS1 + "derivatives.py"),
      ("CovarianceStructure.make_free_params", PS1 + "cov_model.py")],
     ["implied moments, objectives, derivatives, tables, matrices, labels, fit measures"])
prop("C30", "First-generation factor analysis: rotations, fits, errors and scores are exact",
     "pyfa.efa.FactorAnalysis and pyfa.factor_analysis.FactorAnalysis follow their definitions for every shape, rotation criterion, orthogonal, oblique or no rotation, data or covariance "
     "input and order of evaluation: discrepancy, gradient, Hessian, moment derivatives and the concentrated likelihood are exact at every parameter value; a fit is stationary, satisfies the "
     "identification constraint it names, and its standard errors are those of the information restricted to that constraint; tables, degrees of freedom, fit measures and factor scores are their "
     "definitions. Rotation criteria (Crawford-Ferguson, oblimin, target with any weights) have exact gradients; rotation solvers go downhill to stationary points (the global one for two orthogonal "
     "factors) and return rotations, loadings and factor correlations that belong together; sorting and alignment permute every part alike; simulations and the recovery study use the stated model.",
     ["shapes", "criteria", "rotation types", "input forms", "query orders", "signed permutations", "weights"],
     "Every criterion x rotation type x shape x input x query order within the bound; every signed permutation of three factors.",
     "The tests use one simulated data set per rotation and never look at degrees of freedom, target weights, first evaluations or scores of unstandardised data.",
     ["pystatsm/pyfa/efa.py", "pystatsm/pyfa/factor_analysis.py", "pystatsm/pyfa/rotation.py", "pystatsm/pyfa/fit_measures.py", "pystatsm/pyfa/align_loadings.py", "pystatsm/pyfa/simulate_factor_model.py"],
     [("FactorAnalysis.hessian_params/constraint_derivs/fit_indices", "pystatsm/pyfa/efa.py"), ("FactorAnalysis.hessian/_fit/_fit_indices", "pystatsm/pyfa/factor_analysis.py"),
      ("GeneralizedCrawfordFerguson/TargetRotation", "pystatsm/pyfa/rotation.py")],
     ["discrepancy and derivatives, loadings, correlations, standard errors, tables, fit measures, scores, rotations"])
prop("C31", "Mixed-model inference: standard errors, tests, intervals and profiles are exact",
     "What a fitted linear mixed model reports follows from its likelihood, restricted or not, in both implementations and for every layout of random effects: standard errors of fixed effects and of variance parameters "
     "are those of the generalised least squares covariance and of the inverse information at the estimate; t statistics keep their sign, p-values are two-sided, information criteria and confidence "
     "intervals follow their definitions; F tests of contrasts have Satterthwaite degrees of freedom (exactly the classical ones in balanced layouts). Every optimiser option ends at the optimum of the same "
     "likelihood. Variance-correlation coordinates round-trip with exact Jacobians; a likelihood profile holds one coordinate at each grid value and maximises over the rest, its intervals invert the profile, and "
     "likelihood-ratio tests compare the two deviances.",
     ["layouts", "restricted or not", "implementations", "contrasts", "optimiser options", "profile grids", "block structures"],
     "Every layout x implementation x restricted or not x contrast; every balanced design in the bound; every optimiser option; every grid point of the profiles; every combination of up to three blocks of up to three effects.",
     "the tests never look at standard errors, degrees of freedom, p-values, profiles or likelihood-ratio tests of the mixed models",
     [LM + "re_mod.py", LM + "lmm.py", LM + "prf.py", LM + "model_matrices.py"],
     [("LMM2._post_fit/approx_degfree/profile/lrt", LM + "re_mod.py"), ("LMM._post_fit/approx_degfree", LM + "lmm.py"), ("VarCorrReparam", LM + "prf.py, " + LM + "model_matrices.py")],
     ["standard errors, tables, degrees of freedom, intervals, profiles, optimum reached"])
prop("C32", "Refits, resampling and termwise tests of regression models are exact",
     "Whatever a regression model recomputes from parts of its data is what fitting those parts gives: each leave-one-out estimate maximises the likelihood of the remaining rows with their weights, each bootstrap "
     "estimate that of the rows drawn, for every implementation, family, link, scale estimator and weighting, ordinal and negative-binomial models included; one-step leave-one-out estimates are the exact Newton step; "
     "bootstrap tables summarise the draws, and the model, its data and weights are as before. Termwise Wald and score tests restrict exactly the coefficients of the term, with sandwich covariances at the "
     "unrestricted and restricted optimum, and prediction intervals are quantiles of the family at the predicted mean.",
     ["implementations", "families and links", "scale estimators", "weights", "resampled rows", "terms", "levels"],
     "Every implementation x family x link x scale x weighting x left-out row, a scripted generator feeding every resample of the bound, every term of every formula; every statistic from its ingredients.",
     "the tests never refit on subsets, never bootstrap and never run the termwise tests",
     ["pystatsm/pyglm2/glm.py", "pystatsm/pyglm/linear_model.py", "pystatsm/pyglm/glm.py", "pystatsm/pyglm2/clm.py", "pystatsm/pyglm/clm.py", "pystatsm/pyglm/nb2.py", "pystatsm/pyglm2/regression_model.py", "pystatsm/pyglm2/likelihood_model.py"],
     [("GLM._jacknife/_bootstrap/_predict", "pystatsm/pyglm2/glm.py, pystatsm/pyglm/linear_model.py"), ("GLM.bootstrap", "pystatsm/pyglm/glm.py"), ("CLM._jacknife, CLM.bootstrap", "pystatsm/pyglm2/clm.py, pystatsm/pyglm/clm.py"), ("RegressionMixin.ll_tests", "pystatsm/pyglm2/regression_model.py")],
     ["estimates of each refit, tables, tests, intervals, state after"])
prop("C33", "Sinh-arcsinh and skew normal distributions: densities, derivatives, moments",
     "The sinh-arcsinh implementations (misc/sash, shash1 with its kernels, shashr in log-scale coordinates) and the skew normal (misc/skewnorm_dist) agree with the law they define: log density, and every first to fourth "
     "partial derivative in the parameters in the documented (lexicographic) order and shape, for array inputs of any shape that are left as they were; density, distribution and quantile functions are those of the transformed "
     "normal and consistent with each other, raw moments, mean, variance, median, skewness and kurtosis are those of the law, and draws are the quantile (or the two-normal) transform of the generator passed in, reproducible and of the size asked for.",
     ["implementations", "orders of derivative", "parameter values", "array shapes", "ways to pass parameters", "generators and sizes"],
     "Every implementation x order x location x scale x skew x tail x shape x calling form of the grid, against exact truncated Taylor arithmetic; every law of the grid against quadrature.",
     "The tests differentiate one parameter value numerically with loose tolerance; order-four kernels have 35 generated expressions each, and the moments are never compared.",
     ["pystatsm/misc/sash.py", "pystatsm/misc/shash1.py", "pystatsm/misc/shashr.py", "pystatsm/misc/skewnorm_dist.py"] + ["pystatsm/misc/shash_lpdf%d.py" % k for k in (1, 2, 3, 4)] + ["pystatsm/misc/shashr_lpdf%d.py" % k for k in (1, 2, 3, 4)],
     [("_d1logpdf to _d4logpdf", "pystatsm/misc/sash.py, pystatsm/misc/skewnorm_dist.py"), ("logpdf", "pystatsm/misc/shash1.py, pystatsm/misc/shashr.py"), ("moments/skew/kurt", "pystatsm/misc/shash1.py")],
     ["densities, derivatives, quantiles, moments, draws"])
prop("C34", "Multivariate and generalised mixed models match their definitions",
     "pylmm.mlmm.MLMM (several responses, one residual variance each): restricted and unrestricted criterion, gradient and Hessian, in covariance and in Cholesky coordinates, dense or sparse factorisation, are those of the "
     "joint normal law for every layout; fixed effects, their covariance and the random effects are the generalised least squares and conditional-mean ones; a fit maximises the likelihood asked for, whatever was fitted "
     "before, its standard errors are those of that likelihood, criteria follow their definitions, and each row of its table bears the name of the response, regressor, level and effect pair it describes, with two-sided tests. "
     "pylmm.glmm (Poisson and binomial, canonical link, one grouping): the modes, the Laplace value and the adaptive quadrature value (Laplace at one point, the integral in the limit) are exact for every grouping "
     "and label order; fits are stationary and report the standard errors of the inverse Hessian. Quadrature rules integrate polynomials exactly.",
     ["layouts", "numbers of responses", "terms", "label types", "restricted or not", "groupings", "responses", "quadrature orders"],
     "Every layout x number of responses x terms x labels x fixed part; every grouping of four observations x every binary response (a catalogue of counts) x random effect; every rule up to 25 points.",
     "no stable test touches these classes; label order, coordinate maps and the constant of the quadrature only show against the integral itself",
     [LM + "mlmm.py", LM + "glmm.py", LM + "model_matrices.py"],
     [("MLMM.loglike/gradient_chol/fit", LM + "mlmm.py"), ("GLMM_LAP.pirls/loglike, GLMM_AGQ.loglike", LM + "glmm.py")],
     ["likelihoods, derivatives, modes, tables, errors, names"])
prop("C35", "Component analyses and dependence tests follow their definitions",
     "Independent components (both algorithms): every iteration is the defining step, and the components are uncorrelated with unit variance, reproduce the data through the mixing matrix and recover independent "
     "non-normal sources up to order and sign. Canonical correlation: correlations, weights and loadings are those of the definition for any numbers of variables, with names from the data; simulated data have the requested "
     "structure. Sparse canonical correlation: weights meet their bounds and rest at the alternating optimum, deflation, orthogonal form, cross-validation folds, penalty paths and permutation or cross-validated selection follow "
     "their definitions. Sequence factorisation: shift, reconstruction, objective and penalties are the convolution formulas, a fit keeps factors nonnegative with unit rows and reports its error, centring keeps the product. "
     "Distance correlation and kernel independence: statistic, permutation distribution and p-value are those of the definition. Data are left as they were.",
     ["sources and mixing", "starting points", "numbers of variables", "penalties", "folds", "lags", "vectors of three values", "bandwidths"],
     "Every pair of source laws x mixing x algorithm x start x labelling; every shape x penalty x deflation; every shift of every lag; every pair of short vectors over three values; each against a direct evaluation.",
     "no stable test touches these modules",
     ["pystatsm/pyica/ica.py", "pystatsm/pyscca/base_cca.py", "pystatsm/pyscca/cca_sim.py", "pystatsm/pyscca/scca.py", "pystatsm/pynmf/hfuncs.py", "pystatsm/misc/independence_tests.py"],
     [("_fast_ica, _fast_ica2", "pystatsm/pyica/ica.py"), ("SCCA._fit/permutation_test/crossval", "pystatsm/pyscca/scca.py"), ("NMFSeq._fit, reconstruct, shift", "pystatsm/pynmf/hfuncs.py"), ("dcorr, dhsic and their tests", "pystatsm/misc/independence_tests.py")],
     ["components, weights, correlations, factors, statistics, p-values"])
prop("C36", "Bayesian mixed models: every sampling step is an exact conditional draw",
     "pylmm.glmm_mcmc.MixedMCMC, normal, bernoulli, binomial and ordinal responses: for every layout of random effects, label order and prior, the joint draw of fixed and random effects is normal with the "
     "conditional mean and covariance given the variances and the (latent) response, dense or sparse; covariances and the residual variance are drawn from the inverse Wishart and inverse gamma conditionals with the prior "
     "added as pseudo-observations; Metropolis, slice, truncated-normal and threshold updates accept and restrict exactly as the target density demands. Each sweep conditions on the current values; saved draws are those made "
     "(bernoulli ones on the scale with the residual integrated out), the same generator gives the same draws, and the table names, means, deviations, two-sided tests and burn-in are those of the draws. Data are left alone.",
     ["layouts", "priors", "responses", "scripted random draws", "proposals and acceptance levels", "chains and burn-in"],
     "Every grouping x terms x labels x covariance; the effect draw is determined by probing each standard normal; every proposal on both sides of its acceptance level; every draw of the covariance tape; every run replayed.",
     "a sampler with a wrong conditional still produces plausible draws; no stable test runs it and a sampled comparison could not see the constants",
     [LM + "glmm_mcmc.py", "pystatsm/utilities/random.py"],
     [("sample_location/sample_theta", LM + "glmm_mcmc.py"), ("mh_lvar_binomial/slice_sample_lvar/sample_tau", LM + "glmm_mcmc.py"), ("MixedMCMC.sample", LM + "glmm_mcmc.py")],
     ["means, covariances, laws, acceptances, bounds, tables, reproducibility"])
prop("C37", "Estimators do not depend on the history of calls or on one another",
     "Regression, ordinal, zero-inflated, beta, robust, additive, penalised, multivariate and generalised mixed, factor, structural equation, rotation, latent correlation and canonical correlation estimators: whatever "
     "was fitted, refitted or asked before, on this object or on another one built from the same data frame, family and link objects, every query answers as on a fresh object that was only given the last fit, a refit reports "
     "what a first fit reports, queries leave the reported estimates, standard errors, tables, data and weights as they were, and data frames and arguments are never changed.",
     ["estimators", "sequences of fits and queries on two estimators sharing data and family"],
     "Every sequence of two operations on two live estimators, every fit-anything-ask-everything history (thorough: every sequence of three), for 50 estimators; each step compared with a fresh object.",
     "tests build one object, fit it once and read it once; shared family objects, warm starts and cached factorisations show only in sequences",
     ["pystatsm/pyglm/glm.py", "pystatsm/pyglm/linear_model.py", "pystatsm/pyglm/clm.py", "pystatsm/pyglm/nb2.py", "pystatsm/pyglm/ols.py", "pystatsm/pyglm/zimodels.py", "pystatsm/pyglm/betareg.py", "pystatsm/pyglm2/glm.py", "pystatsm/pyglm2/ols.py",
      "pystatsm/pyglm2/clm.py", "pystatsm/pyglm2/mvols.py", "pystatsm/pyglm2/zinf.py", "pystatsm/pygam/gam.py", "pystatsm/pygam/gauls.py", "pystatsm/pygam/gaussian_additive_model.py", "pystatsm/pyglmnet/glmen.py", "pystatsm/pyglmnet/glmen2.py",
      LM + "mlmm.py", LM + "glmm.py", "pystatsm/pysem/sem.py", "pystatsm/pysem2/sem.py", "pystatsm/pyfa/efa.py", "pystatsm/pyfa/factor_analysis.py", "pystatsm/pyfa2/likelihood.py", "pystatsm/pyfa/rotation.py", "pystatsm/pyrobust/rls.py",
      "pystatsm/pylvcorr/lvcorr.py", "pystatsm/pylvcorr/polychoric.py", "pystatsm/pylvcorr/polychoric2.py", "pystatsm/pyscca/base_cca.py", "pystatsm/pyscca/scca.py"],
     [("fit and the reported state it sets", "pystatsm/pyglm2/glm.py and the other estimators"), ("family and link objects shared between models", "pystatsm/pyglm2/families.py, pystatsm/pyglm/families.py")],
     ["answers to queries, reported estimates, tables, data"],
     state=[("last fit", "estimates, standard errors, tables and stored matrices of the last fit", "attributes of each estimator")])
prop("C38", "Estimates depend on data values, not on how a data frame presents them",
     "Regression, ordinal, zero-inflated, beta, robust, additive, penalised, linear, multivariate and generalised mixed, factor, structural equation, latent correlation and canonical correlation estimators: row labels of any kind "
     "(repeated, text, dates, missing, several levels), the order of columns and columns the model does not use (text, missing values, names like Intercept), memory layout, category or integer types for the same values, and "
     "axis names leave every estimate, likelihood, derivative, prediction and table as it is; permuting the rows permutes per-row results and nothing else.",
     ["estimators", "data frames holding the same values, presented differently"],
     "Every estimator of a catalogue of 50 with every presentation of its data (thorough: every pair of presentations), two data sets or formulas each; every reported attribute and query answer compared with the plain frame.",
     "tests use freshly built frames with default labels and only the columns needed; real frames are filtered, merged and sorted ones",
     ["pystatsm/utilities/formula.py", "pystatsm/pyglm/glm.py", "pystatsm/pyglm/clm.py", "pystatsm/pyglm/nb2.py", "pystatsm/pyglm2/glm.py", "pystatsm/pyglm2/mvols.py", "pystatsm/pygam/gam.py", "pystatsm/pygam/smooth_setup.py", LM + "lmm.py", LM + "re_mod.py", LM + "mlmm.py",
      LM + "glmm.py", "pystatsm/pysem/sem.py", "pystatsm/pysem2/model_data.py", "pystatsm/pyfa/efa.py", "pystatsm/pyfa/factor_analysis.py", "pystatsm/pyrobust/rls.py", "pystatsm/pylvcorr/lvcorr.py", "pystatsm/pyscca/base_cca.py"],
     [("design matrices built from the frame", "pystatsm/utilities/formula.py and the estimators' constructors"), ("sample moments by group", "pystatsm/pysem2/model_data.py:from_dataframe")],
     ["reported attributes, answers to queries, labels of tables"])
prop("C39", "Optimiser options change how a fit gets there, not where it ends",
     "For estimators fitted by an iterative optimiser: another optimisation method, tolerance, trust region, starting value, the use of analytic or numerical gradients and Hessians, or an equivalent closed form end at the same "
     "estimates, standard errors and likelihood; the options given are accepted, limits on iterations are kept, and the dictionaries and arrays handed over come back unchanged.",
     ["estimators with an iterative fit", "their optimisation options"],
     "Every estimator with an iterative fit of a catalogue of 50 with every optimisation option it takes, two data sets or formulas each; everything reported compared with a default fit.",
     "tests fit with the default options; an option that is dropped, mutated or leads the optimiser out of the parameter space shows nowhere else",
     ["pystatsm/pyglm/glm.py", "pystatsm/pyglm/clm.py", "pystatsm/pyglm/nb2.py", "pystatsm/pyglm/zimodels.py", "pystatsm/pyglm2/glm.py", "pystatsm/pyglm2/clm.py", "pystatsm/pyglm2/zinf.py", "pystatsm/pyglm2/mvols.py", "pystatsm/pygam/gam.py",
      "pystatsm/pygam/gauls.py", LM + "lmm.py", LM + "re_mod.py", LM + "mlmm.py", LM + "glmm.py", "pystatsm/pysem/sem.py", "pystatsm/pysem2/sem.py", "pystatsm/pyfa/efa.py", "pystatsm/pyfa/factor_analysis.py", "pystatsm/pyrobust/rls.py",
      "pystatsm/pylvcorr/lvcorr.py", "pystatsm/pylvcorr/polychoric.py", "pystatsm/utilities/optimizer_utils.py", "pystatsm/utilities/func_utils.py"],
     [("fit and _optimize", "the estimators' fit methods"), ("defaults filled into the caller's options", "pystatsm/utilities/func_utils.py:handle_default_kws, optimizer_utils.py:process_optimizer_kwargs")],
     ["reported attributes, optimiser reports, arguments"])
