"""Writes properties.jsonl (kept as a generator so that the text is reviewable in one place)."""
import json
P = []
def p(id, title, statement, over, quant, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"observe_at": observe} if observe else {}))))
SM = "smt/surrogate_models/"
p("D01", "Kriging predicted derivatives are the derivatives of the predicted values",
  "For every Kriging-type surrogate (KRG, KPLS, KPLSK, GEKPLS), every correlation and trend option that supports derivatives and every prediction point, the derivative returned for input direction k equals the partial derivative along k of the value the same trained model predicts. It holds for every output column and independently of how many points are predicted together.",
  ["inputs", "configurations"], "all prediction points x in a box around the training domain, all directions, all trend/correlation options",
  "tests compare with finite differences at a handful of points of one problem, for default options, with loose tolerances",
  [SM+"krg_based.py", SM+"kpls.py", SM+"kplsk.py", SM+"gekpls.py", "smt/utils/kriging_utils.py"],
  [("mean derivative", SM+"krg_based.py:_predict_derivatives"), ("kernel derivatives", "smt/utils/kriging_utils.py")])
p("D02", "RBF, IDW, LS and QP predicted derivatives are the derivatives of their values",
  "For the RBF, IDW, least-squares and quadratic-polynomial surrogates, the derivative predicted along input k at any point where the prediction is differentiable equals the partial derivative along k of the predicted value, for every output column.",
  ["inputs", "configurations"], "all prediction points, all directions, 1-2 outputs, polynomial degree and exponent options",
  "finite-difference tests sample a few points with loose tolerance and never more than one output for several of the models",
  [SM+"rbf.py", SM+"idw.py", SM+"ls.py", SM+"qp.py", "smt/src/rbf/rbf.cpp", "smt/src/idw/idw.cpp"],
  [("RBF jacobian", "smt/src/rbf/rbf.cpp"), ("IDW jacobian", "smt/src/idw/idw.cpp"), ("LS/QP derivatives", SM+"ls.py, "+SM+"qp.py")])
p("D03", "RMTB and RMTC predicted derivatives are the derivatives of their values",
  "For the regularized minimal-energy tensor-product surrogates (B-spline and cubic-Hermite), the derivative predicted along any input equals the partial derivative of the predicted value at every point inside the domain bounds, and also outside them when the extrapolate option is set.",
  ["inputs", "configurations"], "all prediction points inside and outside xlimits, all directions, element/control-point counts and orders within the stated bounds",
  "tests sample points inside the domain only and one grid size",
  [SM+"rmts.py", SM+"rmtb.py", SM+"rmtc.py", "smt/src/rmts/rmtb.cpp", "smt/src/rmts/rmtc.cpp", "smt/src/rmts/rmts.cpp", "smt/src/rmts/utils.cpp"],
  [("basis jacobians", "smt/src/rmts/*.cpp"), ("extrapolation", SM+"rmts.py")])
p("D04", "Derivatives with respect to training outputs match the predicted values",
  "For the surrogates that provide derivatives with respect to training outputs (IDW, RBF, RMTB, RMTC), the returned matrix is exactly the sensitivity of the prediction to each training output: retraining with one training output changed by any amount changes the prediction by that amount times the returned entry (for RMTB and RMTC with the quadratic approximation term, approx_order=2, where the model is linear in its outputs).",
  ["inputs", "configurations"], "all prediction points and all perturbations of each training output",
  "a finite-difference test samples single perturbations of single points",
  [SM+"surrogate_model.py", SM+"rbf.py", SM+"idw.py", SM+"rmts.py"],
  [("output derivatives", "predict_output_derivatives and the models' _predict_output_derivatives")])
p("D05", "Multi-fidelity predicted derivatives are the derivatives of the predicted values",
  "For the multi-fidelity co-Kriging models and the variable-fidelity (bridge-function) application, the predicted derivative along every input equals the partial derivative of the predicted value, for every trend, scale-factor and bridge option that supports derivatives.",
  ["inputs", "configurations"], "all prediction points; MFK with constant/linear/quadratic scale-factor options and 2-3 levels; VFM additive/multiplicative bridges",
  "only default options at a few points are tested",
  ["smt/applications/mfk.py", "smt/applications/vfm.py"],
  [("MFK derivative", "smt/applications/mfk.py:_predict_derivatives"), ("VFM derivative", "smt/applications/vfm.py")])
p("D06", "GENN predictions, forward gradients and training gradients are consistent",
  "For the gradient-enhanced neural network, the predicted derivative equals the derivative of the predicted value for every input and all weights; and the gradient that training uses for each weight and bias equals the derivative of the training cost (value misfit, gradient misfit weighted by gamma, and regularization).",
  ["inputs", "configurations"], "all inputs, all weights and biases, all training samples, for small network shapes, values of the regularization and gradient weight",
  "tests train once and look at the goodness of fit, which a wrong gradient barely disturbs",
  [SM+"genn.py", "smt/utils/neural_net/bwd_prop.py", "smt/utils/neural_net/fwd_prop.py", "smt/utils/neural_net/loss.py", "smt/utils/neural_net/activation.py", "smt/utils/neural_net/model.py"],
  [("back-propagation", "smt/utils/neural_net/bwd_prop.py"), ("forward gradient", "smt/utils/neural_net/fwd_prop.py"), ("cost", "smt/utils/neural_net/loss.py")])
p("D07", "Kriging variance derivatives are the derivatives of the predicted variance",
  "For Kriging surrogates, the predicted derivative of the variance along each input equals the partial derivative of the variance the same model predicts, at every point, for every correlation and trend option that supports it.",
  ["inputs", "configurations"], "all prediction points in a box around the training domain, all supported options",
  "tested by finite differences on one problem at few points",
  [SM+"krg_based.py", "smt/utils/kriging_utils.py"],
  [("variance derivative", SM+"krg_based.py:_predict_variance_derivatives")])
p("K01", "Kriging prediction and variance are the best linear unbiased predictor",
  "Given its selected hyperparameters, a Kriging surrogate predicts exactly the generalized-least-squares (universal Kriging) mean, and its variance is the corresponding mean-square error including the trend-estimation term, for every prediction point and every trend (constant, linear, quadratic). Negative round-off is clipped to zero and nothing else is altered.",
  ["inputs", "configurations"], "all prediction points, all training outputs, all trends and correlation models",
  "tests compare variances with nothing for non-constant trends; only smoke checks exist",
  [SM+"krg_based.py"],
  [("GLS solution", SM+"krg_based.py:_reduced_likelihood_function"), ("variance", SM+"krg_based.py:_predict_variances")])
p("K02", "Noise-free Kriging interpolates its training data with zero variance",
  "Without noise, a Kriging surrogate predicts each training output at its training point and a zero variance there (up to the nugget), and never a negative variance anywhere; this does not depend on the training outputs, the trend or the correlation option.",
  ["inputs", "configurations"], "all training outputs, all correlation/trend options, all prediction points for the sign of the variance",
  "tests check a few fixed data sets under default options",
  [SM+"krg_based.py"],
  [("GLS solution", SM+"krg_based.py:_reduced_likelihood_function"), ("prediction", SM+"krg_based.py:_predict_values")])
p("K03", "Correlation kernels are valid correlations with exact derivatives",
  "Every correlation function returns 1 at zero distance, values in (0,1] that never increase with distance (for the distance-based kernels), and its derivative arrays with respect to the hyperparameters (first and second order) and to the inputs are the exact derivatives of its value, for every distance and every positive hyperparameter.",
  ["inputs"], "all distances, inputs and positive hyperparameters, dimension 1-3",
  "tests only exercise kernels inside complete trainings",
  ["smt/utils/kriging_utils.py"], [("kernels", "smt/utils/kriging_utils.py:squar_exp, abs_exp, matern52, matern32, act_exp")])
p("K04", "The likelihood gradient and Hessian are derivatives of the likelihood",
  "The gradient and Hessian that Kriging hyperparameter optimization uses are the first and second derivatives of the reduced likelihood function it maximizes, for every single training output and hyperparameter value, with and without trend terms; this includes the hyperparameter sensitivities of the mean and variance that the marginal Gaussian process uses.",
  ["inputs", "configurations"], "all hyperparameters and training outputs for small training sets",
  "a wrong gradient only slows or slightly misleads the optimizer, which tests tolerate",
  [SM+"krg_based.py"], [("likelihood gradient", SM+"krg_based.py:_reduced_likelihood_gradient"), ("hessian", SM+"krg_based.py:_reduced_likelihood_hessian")])
p("K05", "Pairwise distance and standardization helpers are exact and complete",
  "The pairwise-distance helper enumerates every unordered pair of training points exactly once with the componentwise difference of that pair; cross differences, componentwise distances (including PLS-weighted ones, plain or in chunks) equal their defining formulas and do not depend on the chunk size; and standardization returns data that maps back exactly to the original values, also for constant columns.",
  ["inputs", "configurations"], "all point coordinates and PLS coefficients, 2-5 points, all chunk sizes, both power options",
  "tests use one fixed matrix", ["smt/utils/kriging_utils.py"],
  [("distances", "smt/utils/kriging_utils.py:cross_distances, differences, componentwise_distance, componentwise_distance_PLS"), ("standardization", "smt/utils/kriging_utils.py:standardization")])
p("I01", "IDW and RBF reproduce their training data",
  "An IDW surrogate, and an RBF surrogate without regularization, predicts exactly the training outputs at the training inputs, for all training outputs, several outputs at once and every moderate option value; an IDW prediction is the inverse-distance-weighted mean of the training outputs and always lies between the smallest and the largest training output.",
  ["inputs", "configurations"], "all training outputs, all prediction points, exponents, polynomial degrees, 1-2 outputs",
  "tests check rms error on one data set with tolerance",
  [SM+"idw.py", SM+"rbf.py", "smt/src/idw/idw.cpp", "smt/src/rbf/rbf.cpp"],
  [("IDW weights", "smt/src/idw/idw.cpp"), ("RBF system", SM+"rbf.py")])
p("I02", "RMTB and RMTC bases reproduce constants and are smooth across elements",
  "At every point of the domain the B-spline basis used by RMTB sums to one with non-negative weights, and both RMTB (in its order) and RMTC (continuous value and gradient) predictions are continuous across element boundaries and into the extrapolation region.",
  ["inputs", "configurations"], "all points of the domain and all coefficient values, orders 2-4, element counts 1-4",
  "continuity and exact partition hold on a continuum; tests sample a fit error",
  [SM+"rmts.py", SM+"rmtb.py", SM+"rmtc.py", "smt/src/rmts/rmtb.cpp", "smt/src/rmts/rmtc.cpp"],
  [("knots and basis", "smt/src/rmts/rmtb.cpp"), ("Hermite coefficients", "smt/src/rmts/rmtc.cpp")])
p("I03", "Compiled kernels stay within their buffers",
  "The compiled kernels behind IDW, RBF, RMTB and RMTC read and write only inside the buffers the Python layer gives them, leave no entry of the returned arrays unset, and return row and column indices inside the declared matrix shape, for every input point and every option value.",
  ["inputs", "configurations"], "all real input coordinates (inside, on and outside the bounds), dimension 1-2, counts within the stated bounds",
  "an out-of-bounds access usually goes unnoticed in a test and depends on the exact input",
  ["smt/src/idw/idw.cpp", "smt/src/rbf/rbf.cpp", "smt/src/rmts/rmtb.cpp", "smt/src/rmts/rmtc.cpp", "smt/src/rmts/rmts.cpp", "smt/src/rmts/utils.cpp", SM+"rmts.py", SM+"rmtb.py", SM+"rmtc.py", SM+"idw.py", SM+"rbf.py"],
  [("buffers", "smt/src and the wrappers that allocate for it")])
p("Q01", "LS and QP are exact least-squares fits",
  "The least-squares linear surrogate and the quadratic-polynomial surrogate return the least-squares fit: data that comes from a polynomial of their degree is reproduced exactly everywhere, and otherwise the residual at the training points is orthogonal to every basis monomial, for all training outputs and each output column.",
  ["inputs", "configurations"], "all polynomial coefficients / training outputs, all prediction points, 1-3 inputs, 1-2 outputs",
  "tests look at the error on one function", [SM+"ls.py", SM+"qp.py"],
  [("fit", SM+"ls.py:_train, "+SM+"qp.py:_train")])
p("M01", "Multi-fidelity co-Kriging follows the autoregressive recursion",
  "A multi-fidelity Kriging model's prediction at each level is the scale factor times the prediction of the level below plus that level's own Gaussian-process correction; the highest level reproduces its training data, a level prediction does not depend on data of higher levels, and the predicted variance is non-negative and vanishes at the highest-level training points of nested noise-free data.",
  ["inputs", "configurations"], "all high- and low-fidelity training outputs and prediction points, 2-3 levels, scale-factor options",
  "tests compare rms errors for one pair of functions", ["smt/applications/mfk.py", "smt/applications/mfkpls.py", "smt/applications/mfkplsk.py"],
  [("recursion", "smt/applications/mfk.py:_predict_intermediate_values, predict_variances_all_levels")])
p("M02", "Variable-fidelity models compose bridge and low-fidelity exactly",
  "A variable-fidelity model with additive or multiplicative bridge predicts exactly the composition of its low-fidelity and bridge surrogates, so with interpolating surrogates it reproduces the high-fidelity data, and configuring it leaves the option dictionaries supplied by the user unchanged.",
  ["inputs", "configurations"], "all high/low fidelity training outputs and prediction points; additive and multiplicative bridge; any mix of component surrogates with linear training maps",
  "tests check one analytic pair", ["smt/applications/vfm.py"], [("composition", "smt/applications/vfm.py")])
p("S01", "Latin hypercube samples put one point in each stratum",
  "For every sample size, dimension, criterion and random outcome, a Latin hypercube sample of n points has exactly one point in each of the n equal-width strata of every input, and optimized (ESE) designs keep that property and are never worse in the optimized criterion than the design they start from.",
  ["inputs", "configurations", "histories"], "all random draws, permutations and exchange choices, n up to 4, dimension 1-3",
  "each test run sees one random seed", ["smt/sampling_methods/lhs.py"],
  [("LHS", "smt/sampling_methods/lhs.py:_compute"), ("ESE exchange", "smt/sampling_methods/lhs.py:_ese, _PhiP_exchange")])
p("S02", "Sampling methods return the requested number of points inside the limits",
  "Every sampling method returns exactly the requested number of points, each inside the given limits in every input, for all limits and all random outcomes; scaling from the unit cube is exact at the limits, and user-supplied options are not modified.",
  ["inputs", "configurations"], "all real limits, all random outcomes, small counts and dimensions",
  "tests use a single fixed box", ["smt/sampling_methods/sampling_method.py", "smt/sampling_methods/random.py", "smt/sampling_methods/full_factorial.py", "smt/sampling_methods/lhs.py"],
  [("scaling", "smt/sampling_methods/sampling_method.py:__call__")])
p("S03", "Full-factorial samples are distinct points of a regular grid that spans the box",
  "A full-factorial sample is a set of distinct points of a regular grid whose levels are equally spaced and include both limits of every input having two or more levels; the grid has at least the requested size, its first points in grid order are returned (all of them when the clip option is set), and it follows the requested weights.",
  ["inputs", "configurations"], "all limits and positive weights; point counts 1-9 in 1-3 dimensions",
  "tests cover two counts", ["smt/sampling_methods/full_factorial.py"], [("grid", "smt/sampling_methods/full_factorial.py:_compute")])
p("S04", "Nested designs are nested and have the requested sizes",
  "A nested Latin hypercube design for several fidelity levels returns one set of points per level, each higher-fidelity set is a subset of the set below it, consecutive sizes have the documented ratio, and every point lies in the limits.",
  ["inputs", "histories"], "all random outcomes, 2-3 levels, small counts", "one seed per test",
  ["smt/applications/mfk.py"], [("NestedLHS", "smt/applications/mfk.py:NestedLHS")])
p("X01", "Mixed-integer casting projects onto the nearest valid point",
  "For every real point in the unfolded space, casting returns a valid mixed point: continuous coordinates unchanged, integer coordinates rounded to a nearest integer, each enumeration block exactly one-hot at its largest entry; and casting twice is the same as casting once.",
  ["inputs", "configurations"], "all real points, all variable-type lists up to 4 variables",
  "tests cast a few points without ties or half-integers", ["smt/applications/mixed_integer.py"],
  [("cast", "smt/applications/mixed_integer.py:cast_to_discrete_values")])
p("X02", "Folding and unfolding enumerations are inverse",
  "Unfolding a point given by enumeration index and folding it back returns the same point for every mix of variable types in any order; unfolded limits have one 0-1 column per level; mixed-valued decoding returns the declared level for each index; and invalid type or limit specifications are rejected.",
  ["inputs", "configurations"], "all mixed points, all orders of variable types up to 4 variables",
  "tests use one ordering of types", ["smt/applications/mixed_integer.py"],
  [("fold/unfold", "smt/applications/mixed_integer.py:fold_with_enum_index, unfold_with_enum_mask, unfold_xlimits_with_continuous_limits")])
p("X03", "Mixed-integer surrogates and samplings only see valid mixed points",
  "Any sampling built through the mixed-integer layer returns the requested number of points that respect every declared type, and a surrogate wrapped by it gives the same prediction for all raw points that cast to the same mixed point.",
  ["inputs", "configurations"], "all raw sampling outputs and all prediction points, all type lists up to 3 variables",
  "tests check shapes and one seed", ["smt/applications/mixed_integer.py"],
  [("wrappers", "smt/applications/mixed_integer.py:MixedIntegerSamplingMethod, MixedIntegerSurrogateModel")])
p("E01", "EGO history is faithful and its answer is the best evaluated point",
  "An EGO optimization returns the best of all evaluated points: every recorded output is the objective at the recorded input, every evaluated input lies within the limits (and respects its declared type), the returned optimum is the minimum of the recorded outputs, and, whenever the internal acquisition optimization succeeds, the number of evaluations is the initial design plus the requested iterations, sequentially or in parallel.",
  ["histories", "inputs", "configurations"], "all objective values, all acquisition-optimizer outcomes (including failures), 1-3 iterations, 1-2 parallel points, every criterion and virtual-point option",
  "a test follows one seed and one trajectory", ["smt/applications/ego.py"],
  [("loop", "smt/applications/ego.py:optimize, _find_best_point, predict_set_virtual... ")])
p("E02", "EGO infill criteria equal their formulas",
  "Expected improvement equals its closed form from the model's mean and variance at every point, is non-negative, and is zero with zero variance; the other criteria (surrogate-based, lower confidence bound) and the virtual-point rules for parallel enrichment equal their documented formulas.",
  ["inputs"], "all predicted means, variances and incumbent values, 1-3 points at once",
  "tests evaluate whole optimizations", ["smt/applications/ego.py"],
  [("criteria", "smt/applications/ego.py:EI, SBO, UCB, _get_virtual_point")])
p("O01", "Mixture-of-experts predictions recombine experts with valid weights",
  "A mixture of experts predicts, in smooth mode, the convex combination of its experts with the cluster probabilities at the point, and in discontinuous mode the prediction of the single most probable expert; probabilities are non-negative and sum to one, and training gives every training point to exactly one cluster.",
  ["inputs", "configurations"], "all prediction points, expert outputs and cluster densities, 1-3 clusters, both recombination modes",
  "tests look at error magnitudes on one data set", ["smt/applications/moe.py"],
  [("recombination", "smt/applications/moe.py:_predict_smooth_output, _predict_hard_output"), ("partition", "smt/applications/moe.py:_cluster_predict, _extract_part")])
p("G01", "GENN normalization and mini-batches preserve the data",
  "Neural-network training data handling loses nothing: normalizing and de-normalizing are inverse for values and gradients (also for constant columns), derivatives at other points than the values are not accepted, random mini-batches partition the training set for every batch size and shuffle, optimizer updates follow the gradient-descent and Adam formulas with the user's parameters, a seed makes training repeatable, and judging the fit on validation data leaves the training data alone.",
  ["inputs", "histories"], "all data values, all shuffles, batch sizes 1-5, all gradients and optimizer states over up to 3 steps",
  "tests check a final fit", ["smt/utils/neural_net/data.py", "smt/utils/neural_net/optimizer.py"],
  [("normalization and mini-batches", "smt/utils/neural_net/data.py"), ("GD and Adam", "smt/utils/neural_net/optimizer.py")])
p("L01", "Linear solvers return a solution of the system they are given",
  "Each direct linear solver returns the solution of the given matrix and right-hand side for every right-hand side, every column, whatever memory layout the caller uses, for floating-point right-hand sides; the stationary and multigrid iterations apply exactly the update their options name, clones of a solver keep its options, and solvers and preconditioners leave the system they are given unmodified.",
  ["inputs", "configurations"], "all right-hand sides, small systems, 1-2 columns, contiguous and strided storage",
  "only exercised inside trainings with one column", ["smt/utils/linear_solvers.py"],
  [("solvers", "smt/utils/linear_solvers.py")])
p("L02", "Line searches return a step that satisfies their acceptance conditions",
  "A line search that returns successfully returns a step satisfying the condition it is named for: the backtracking search sufficient decrease, the bracketed searches the strong Wolfe conditions; the returned point belongs to that step, and the interpolating variants fall back to bisection instead of failing.",
  ["inputs", "histories"], "all objective values and slopes along the direction (arbitrary function), searches of bounded length",
  "depends on an adversarial sequence of function values", ["smt/utils/line_search.py"],
  [("line searches", "smt/utils/line_search.py")])
p("T01", "Training-data calls store exactly what they are given",
  "Setting or updating training values or derivatives makes later training use exactly the given numbers for the given name and input direction, later changes of the caller's arrays have no effect, badly shaped input is rejected without changing the stored data, and 1-D arrays are accepted as single columns.",
  ["inputs", "histories"], "all data values; sequences of up to 4 set/update/train calls over values, directional derivatives and several names",
  "tests use one call order", [SM+"surrogate_model.py", "smt/utils/checks.py"],
  [("training data", SM+"surrogate_model.py:set_training_values ... update_training_derivatives")])
p("T02", "Options accept exactly the declared values",
  "An options dictionary never holds an undeclared option or a value outside the declared values and types, whatever sequence of declare, set and update is applied (when both values and types are declared, satisfying either suffices); an accepted value is returned unchanged, a rejected one leaves the old value, and a clone is independent of its source.",
  ["histories", "inputs"], "all sequences of up to 4 operations with arbitrary values", "tests sample a few sequences",
  ["smt/utils/options_dictionary.py"], [("validation", "smt/utils/options_dictionary.py")])
p("T03", "Cached training results equal freshly computed ones",
  "When a data directory is used for caching, loading from the cache gives the same model as training afresh, and a cache entry is used only if the model class, its options and all its training data are identical.",
  ["histories", "inputs", "configurations"], "all training outputs/options in the first and the second training", "tests never change one datum between runs",
  ["smt/utils/caching.py", SM+"rbf.py", SM+"rmts.py", SM+"idw.py"], [("cache key", "smt/utils/caching.py:cached_operation")])
p("T04", "Prediction is pointwise, repeatable and leaves its inputs alone",
  "Predicting several points at once gives row by row the same values, derivatives and variances as predicting each alone; predicting or training never modifies the arrays the user passed; and predicting again, or after retraining on the same data, gives the same result.",
  ["inputs", "histories"], "all prediction points, for every surrogate type", "tests compare neither batches nor inputs before and after",
  [SM+"surrogate_model.py", SM+"krg_based.py", SM+"rbf.py", SM+"idw.py", SM+"rmts.py", SM+"ls.py", SM+"qp.py", SM+"genn.py"],
  [("prediction entry points", SM+"surrogate_model.py:predict_values, predict_derivatives, predict_variances")])
p("R01", "RMTB and RMTC fit minimizes the documented objective",
  "With the quadratic approximation term, training RMTB or RMTC returns spline coefficients at which the gradient of the documented objective is zero: the squared misfit to all training values, the squared misfit to the training derivatives weighted by grad_weight over the number of inputs, the smoothness-weighted mean squared second derivative times energy_weight (unless disabled) and the squared coefficients times regularization_weight, separately for each output; for every approximation order the objective, gradient and Hessian handed to the optimizer are that objective and its derivatives.",
  ["inputs", "configurations"], "all training values and derivatives along lines through the data space (all values for the optimizer's functions), all coefficient vectors, RMTB orders 2-4, all weights options",
  "tests look at error magnitudes", [SM+"rmts.py", SM+"rmtb.py", SM+"rmtc.py"],
  [("objective", SM+"rmts.py:_compute_approx_terms, _compute_energy_terms, _opt_func/_opt_grad/_opt_hess"), ("Newton solver", SM+"rmts.py:_run_newton_solver, _solve")])
p("B01", "Benchmark problems return exact derivatives of their values",
  "For every benchmark problem, the derivative along each input equals the partial derivative of its value at every differentiable point of its domain, for every dimension and variant, and wrapping problems (reduced or tensor-product variants) evaluate the wrapped one consistently.",
  ["inputs", "configurations"], "all points of each problem's domain, dimensions 1-3 (or the problem's own), all variants",
  "tests check a few random points in finite differences", ["smt/problems/"], [("problems", "smt/problems/*.py:_evaluate")])
p("B02", "The reported relative RMS error equals its definition",
  "The error-measuring utility returns the root-mean-square difference between prediction and reference divided by the root-mean-square of the reference, for values and for each input derivative, with user-supplied points or the training points.",
  ["inputs", "configurations"], "all reference and predicted values, with/without supplied points, values and derivatives",
  "tests use it as the oracle", ["smt/utils/misc.py"], [("compute_rms_error", "smt/utils/misc.py")])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
