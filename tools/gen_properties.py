#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
TS = "datafold/pcfold/timeseries/"
COL, ACC, MET = TS + "collection.py", TS + "accessor.py", TS + "metric.py"
DYN = "datafold/dynfold/"
BASE, TRF, DMD, DSY = DYN + "base.py", DYN + "transform.py", DYN + "dmd.py", DYN + "dynsystem.py"
DMAP, OOS, JSF, CMP = DYN + "dmap.py", DYN + "outofsample.py", DYN + "jsf.py", DYN + "compose.py"
KER, DIS, EIG, EST, PCM = ("datafold/pcfold/" + f for f in
                           ("kernels.py", "distance.py", "eigsolver.py", "estimators.py", "pointcloud.py"))
EDMD, MPC = "datafold/appfold/edmd.py", "datafold/appfold/mpc.py"
GEN, SYS = "datafold/utils/general.py", "datafold/utils/_systems.py"


def add(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


add("C01", "Time series collections stay valid under every history of operations",
    "After any sequence of construction, selection, assignment, insertion, concatenation, arithmetic and copying "
    "operations, every object still typed as a time series collection has a two-level (series ID, time) row index "
    "with unique rows, integer IDs, finite non-negative times that increase within each series, unique feature "
    "names and numeric data, and holds exactly the values that a plain table model predicts. An operation whose "
    "result cannot satisfy this either raises or returns a plain table or array, and does not corrupt its operands.",
    ["histories", "inputs"], "all operation sequences over collections with 1-4 series, unequal lengths, unsorted IDs, int/float/datetime times",
    "The unit tests call each operation once on one hand-made frame; the invariant must survive compositions and unusual index layouts.",
    [COL, ACC], [("validation on construction and slicing", COL + ": TSCDataFrame._validate, _constructor"),
                 ("insertion of series", COL + ": insert_ts"), ("index setter", COL + ": set_index/index property")])

add("C02", "Shape and time queries describe the data in the collection",
    "For every collection, the reported IDs, number of series, number of samples per series, sampling interval (per series or "
    "common, numeric or datetime), sorted time values, time interval, and the yes/no queries (constant or equal sampling, "
    "equal length, same time values, normalised time, finite values, degenerate series) equal what a direct per-series "
    "reading of the rows gives. This holds for every order of IDs and for single-sample series.",
    ["inputs"], "all collections with 1-5 series, equal/unequal lengths, equal/unequal/irregular sampling, int, float and datetime time axes, sorted and unsorted IDs",
    "Tests check a few fixed frames with sorted IDs; the answers steer branching in every model, so a wrong answer on an untested layout corrupts results silently.",
    [COL], [("aggregates per series", COL + ": n_timesteps, delta_time, time_values, time_interval, is_*"),])

add("C03", "Constructors and exporters of collections are lossless and inverse to each other",
    "Building a collection from a tensor, a list of frames, a snapshot matrix, a pair of shift matrices, an array, "
    "a copied index or a CSV file puts every value at the documented (ID, time, feature) position, and the matching "
    "export reproduces the source exactly. Restricting to initial states or single-row frames gives objects that "
    "are consistently typed, and pickling or deep-copying keeps type, index, names and values.",
    ["inputs"], "all array shapes, ID/time/feature labels (defaults included), sampled with every constructor",
    "Tests use one shape per constructor; transposed or shifted layouts coincide on symmetric shapes.",
    [COL], [("constructors", COL + ": from_tensor, from_shift_matrices, from_frame_list, from_array, from_csv, from_same_indices_as, from_single_timeseries")])

add("C04", "Selection of initial states, final states, times and windows returns exactly those rows",
    "Asking a collection for the first or last n samples of each series, for given time values, for everything but the first or "
    "last samples, or for one series at a time returns exactly those rows with their labels, for every series "
    "separately, and raises if a series is too short. Grouping of initial conditions for reconstruction maps each "
    "series to exactly one group whose time values are that series' own time values.",
    ["inputs"], "all collections x all requested counts/time subsets",
    "Tests use equal-length series with IDs 0..n; off-by-one or cross-series selection shows only for mixed layouts.",
    [COL, ACC], [("selection", COL + ": initial_states, final_states, select_time_values, itertimeseries"),
                 ("drop/iterate", ACC + ": drop_last_n_samples, iter_timevalue_window"),
                 ("initial condition grouping", COL + ": InitialCondition.iter_reconstruct_ic")])

add("C05", "Snapshot pairs never mix series or skip samples",
    "The pair of shifted snapshot matrices of a collection contains, for every series and every two successive "
    "samples of it, exactly one aligned pair (earlier, later) and nothing else, in either storage orientation, with or "
    "without restriction to valid lengths. No pair combines samples of two different series.",
    ["inputs"], "all collections with unequal lengths, unsorted and non-contiguous IDs, 1..n snapshot offsets",
    "Cross-series pairing appears only for unequal lengths and unsorted IDs, which tests do not combine.",
    [ACC], [("shift matrices", ACC + ": shift_matrices")])

add("C06", "Time-axis and value manipulations compute what they state",
    "Shifting or normalising time changes only the time labels by the documented formula and keeps rows, IDs, order and "
    "values; time differences and derivatives are taken within one series only and are exact for polynomials up to "
    "the scheme's accuracy; padding, augmenting and appending operations keep the existing samples and add exactly "
    "the documented ones.",
    ["inputs"], "all collections; numeric and datetime axes; derivative order/scheme/accuracy combinations",
    "Rounding of float times and cross-series stencils only show for particular sampling intervals and layouts.",
    [ACC, GEN], [("time operations", ACC + ": normalize_time, shift_time, shift_time_by_delta, time_derivative, time_delta, fill_timeseries_with_last_state, augment_control_input")])

add("C07", "Re-assigning series IDs partitions the samples",
    "Every ID (re)assignment (sequential, by constant sampling interval, or by train/test indices) keeps the "
    "kept samples' values and times unchanged and in order, never joins samples of different original series, yields series satisfying "
    "the requested regularity (constant sampling, no bridging of samples that belong to another set), and loses samples only where documented.",
    ["inputs"], "all collections x index splits x drop options",
    "Boundary conditions (last sample, gaps of one sample, single-sample remainders) form a large space which tests sample at a few points.",
    [ACC], [("assignment", ACC + ": assign_ids_const_delta, assign_ids_train_test, assign_ids_sequential")])

add("C08", "Requirement checks accept exactly the collections that meet the requirement",
    "Each requirement check on a collection (sampling interval, length, number of series, features, equal times, finiteness, "
    "normalised time, overlapping, degenerate series, minimum length) returns normally if and only if the rows satisfy "
    "that requirement, and raises the library's own exception otherwise. The combined check behaves as the conjunction of the individual requirements.",
    ["inputs", "configurations"], "collections satisfying and violating each requirement; all combinations of flags",
    "Tests exercise one accepting and one rejecting frame per check; combinations and boundary values are open.",
    [ACC, BASE], [("checks", ACC + ": check_* and check_tsc")])

add("C09", "Error metrics and scores equal their definitions in every mode",
    "For every metric, mode (per series, time step, feature), multi-output and sample-weight option and scaling, the reported error equals the textbook formula applied to "
    "the matching rows, is zero for a perfect prediction and is attached to the right series, time or "
    "feature label; a score is the negated scaled error and hence larger for better predictions.",
    ["inputs", "configurations"], "all pairs of collections with the same index x metric x mode x scaling x aggregation",
    "The option product is large; tests cover each option once with equal-length sorted series.",
    [MET], [("metric", MET + ": TSCMetric"), ("scoring", MET + ": TSCScoring")])

add("C10", "Cross-validation splits are disjoint, in range, complete and time-series aware",
    "Each cross-validation splitter yields exactly its announced number of folds, each with non-empty disjoint train and test rows, tests that "
    "over all folds cover every sample the scheme is meant to test exactly once, and never splits a series where whole series are "
    "promised or leaks test time into training where time blocks are promised.",
    ["inputs", "configurations"], "all collections x number of splits x shuffle seeds",
    "Uneven divisions of series and time steps into folds are a combinatorial space; tests use evenly divisible cases.",
    [MET], [("splitters", MET + ": TSCKfoldSeries, TSCKFoldTime, TSCWindowFoldTime")])

add("C11", "Every transformer follows one contract: labels, types, purity and refitting",
    "For every data transformation, fit-and-transform equals fit followed by transform; the output keeps row labels "
    "(minus documented sample loss), has the announced feature names in the announced order, and is typed like the "
    "input; inputs are never modified; transforming one series (or a frame with other series removed or reordered) gives "
    "the same values for that series; and fitting again on new data equals a fresh fit on that data.",
    ["inputs", "histories", "configurations"], "all transformers x parameters x frames (collection, single series, plain array) x fit/transform histories",
    "Tests check single transformers on one data set; contract violations show in refits, reordering, and combinations.",
    [TRF, BASE, CMP, JSF], [("base mixin", BASE + ": TSCTransformerMixin, TSCBase"), ("implementations", TRF)])

add("C12", "Inverse transformation undoes the forward transformation",
    "For every transformation that offers an inverse and is lossless by its parameters, transforming and inverting reproduces the "
    "original values, row labels and feature names up to rounding, for fitted data and for new data; for "
    "lossy ones, transforming the inverted result again changes nothing.",
    ["inputs", "configurations"], "scaling, PCA, identity, time-delay, radial-basis, column and sampling transformations on all data layouts",
    "Tests invert the training data only and with one parameter set.",
    [TRF], [("inverse", TRF + ": inverse_transform of TSCFeaturePreprocess, TSCPrincipalComponent, TSCIdentity, TSCTakensEmbedding, TSCApplyLambdas, ...")])

add("C13", "Time-delay embedding stacks exactly the documented delays per series",
    "For every number of delays, lag, delay frequency, kappa weighting and attached-feature option, each output row "
    "consists of the current sample and the samples at exactly the documented earlier positions of the same series "
    "(weighted as documented), labelled accordingly; exactly the samples lacking full history are dropped and too short series are rejected.",
    ["inputs", "configurations"], "all series lengths x delays x lag x frequency x kappa",
    "The index arithmetic has many parameter interactions; tests fix a handful of combinations.",
    [TRF], [("embedding", TRF + ": TSCTakensEmbedding")])

add("C14", "Feature maps compute their mathematical definition",
    "Polynomial, radial-basis, Fourier, moving-average, finite-difference, constant-adding, min-max/standard scaling, "
    "principal component, user-function and sampling transformations produce, sample by sample and series by series, the values of their "
    "documented formula, with each value under the feature name that denotes it.",
    ["inputs", "configurations"], "all supported parameters and data layouts",
    "Names and values can be permuted consistently with a shape-only test; formulas are only spot-checked.",
    [TRF], [("implementations", TRF + ": TSCPolynomialFeatures, TSCRadialBasis, TSCMovingAverage, TSCFiniteDifference, TSCFeaturePreprocess, TSCApplyLambdas, TSCIdentity, ...")])

add("C15", "Column-wise composition applies each transformer to its own columns",
    "A column transformer applies every listed transformer to exactly its selected columns, concatenates the "
    "results in the listed order with unique unambiguous names, handles dropped, passed-through and remaining columns as "
    "documented, and agrees with transforming the column subsets by hand, at fit time and for new data.",
    ["inputs", "configurations"], "all column partitions/overlaps x transformer choices",
    "Tests use two fixed selections.",
    [CMP, TRF], [("composition", CMP + ": TSCColumnTransformer")])

add("C16", "Linear system evolution equals naive iteration or exponentiation",
    "For every linear system set up from a matrix or from its eigen-decomposition, discrete-time, flow-map or "
    "differential, uncontrolled, controlled or control-affine, the evolved states at all requested times equal repeated multiplication (or the matrix exponential / exact "
    "recursion with the given inputs) applied to each initial condition separately, real data stay real, and each state "
    "is labelled with its own initial condition, time and feature.",
    ["inputs", "configurations"], "random well-conditioned matrices, complex spectra, multiple initial conditions, arbitrary time grids, output projections",
    "Tests compare two modes with each other on single systems; both may share an error, and mixed configurations are not run.",
    [DSY], [("evolution", DSY + ": LinearDynamicalSystem, SystemSolveStrategy")])

add("C17", "Dynamic mode decomposition solves the least squares problem its variant defines",
    "On any data, the fitted system matrix of full-rank variants minimises the one-step residual over all snapshot pairs of all "
    "series, and on noise-free data generated by a linear system every variant recovers that system's spectrum and predicts its "
    "trajectories; eigenvalues, modes and eigenfunction coordinates satisfy the eigen-equation, and generator and flow-map representations agree "
    "through the matrix exponential.",
    ["inputs", "configurations"], "random systems and trajectories, several series of unequal length, sampling intervals, ranks",
    "Tests use a few fixed matrices and single series; minimality over all data cannot be sampled by examples.",
    [DMD, ACC], [("fits", DMD + ": DMDStandard, gDMDFull, DMDEco, PyDMDWrapper...")])

add("C18", "Model predictions have the requested labels and the properties of a flow",
    "A prediction contains exactly the requested initial conditions, times and features with labels in the documented order; at the initial time it reproduces the "
    "(projected) initial condition; predicting to t and restarting there agrees with predicting directly; the result "
    "for one initial condition or time does not depend on the others requested with it; and reconstruction "
    "returns rows labelled and ordered so that every series is compared with its own prediction.",
    ["inputs", "histories"], "all models x initial-condition layouts x time grids x feature selections",
    "Tests look at one layout with IDs 0..n; mislabelled series appear with unsorted IDs, unequal lengths or different start times.",
    [DMD, BASE, DSY], [("prediction", DMD + ": DMDBase.predict/reconstruct"), ("validation", BASE + ": TSCPredictMixin")])

add("C19", "Controlled models recover and apply control per series and per step",
    "From data of a noise-free controlled (linear or control-affine) system the fitted state and input matrices reproduce the data-generating "
    "step map, and prediction applies at each step exactly the control sample with that time and series, requires the documented number of "
    "control samples, and equals the explicit recursion for every initial condition separately.",
    ["inputs", "configurations"], "random A, B (and bilinear terms), several series, multi-input control, control frames or arrays, unsorted IDs",
    "Mixing control between series or channels is invisible with one series or one control input, which is what tests use.",
    [DMD, DSY, BASE], [("controlled fit", DMD + ": DMDControl, gDMDAffine"), ("controlled evolution", DSY)])

add("C20", "Incremental model updates agree with batch estimation",
    "Feeding snapshot data to an online or streaming estimator in any division into batches gives, once enough data have been seen, the same system as "
    "one batch least squares fit on all data seen so far (exponentially weighted where a weighting is set), independent of "
    "how the data were divided, and never depends on previously fitted objects.",
    ["histories", "inputs"], "all divisions of random data streams into batches; weightings; ranks",
    "The equality must hold for every batching history; tests use one.",
    [DMD, EDMD], [("online updates", DMD + ": OnlineDMD, StreamingDMD.partial_fit"), ("EDMD", EDMD + ": partial_fit")])

add("C21", "Invalid data are rejected before a model is computed or evaluated",
    "Fitting or evaluating a model or transformation with data violating its stated requirements (missing or renamed or reordered features, "
    "non-finite values, differing sampling interval or time values, too short series, mismatching control, unfitted model) raises a documented error type; "
    "it never returns numbers, and a rejected evaluation leaves the results of the fitted model unchanged.",
    ["inputs", "fault_sequences"], "all single-fault mutations of valid inputs for every estimator",
    "Tests check few fault kinds on few estimators.",
    [BASE, DMD, EDMD, TRF], [("validation", BASE + ": TSCBase._validate_*, TSCPredictMixin._validate_*")])

add("C22", "EDMD equals the explicit pipeline of dictionary, linear system and back-projection",
    "For every dictionary and linear model, transforming with the composed model equals applying the dictionary steps by hand, and "
    "prediction equals lifting the initial condition, evolving linearly, and mapping back to the original features "
    "(by stored state, Koopman modes or inverse transformation), restricted to any requested quantities of interest in the requested order, with the announced number of samples for an "
    "initial condition.",
    ["inputs", "configurations"], "dictionaries (identity, scaling, delays, polynomials, kernels) x id-state options x modes x selections",
    "The option product is large; tests check shapes and a few fixed data sets.",
    [EDMD], [("pipeline", EDMD + ": EDMD.fit/transform/predict")])

add("C23", "EDMD reconstruction, stepwise prediction, windows and model selection score the right rows",
    "Reconstructed, window-wise and step-wise predictions carry exactly the row labels of the true data they are compared "
    "with and equal per-series predictions from that series' own initial samples; scores equal the metric of those rows; "
    "and model selection reports for each candidate the scores of its own refits and selects the best.",
    ["inputs", "configurations"], "collections with unequal lengths, start times, unsorted IDs; delays; window sizes; parameter grids",
    "Comparing a series with another series' prediction changes scores silently; tests have equal-length sorted series.",
    [EDMD, MET], [("reconstruct", EDMD + ": EDMD.reconstruct, EDMD.predict(stepwise)"), ("windows", EDMD + ": EDMDWindowPrediction"), ("CV", EDMD + ": EDMDCV")])

add("C24", "Koopman triplets are consistent with the model's predictions",
    "Eigenvalues, eigenfunction values and modes reported by a fitted model together reproduce its predictions; eigenfunctions "
    "evaluated along a trajectory of the learned linear system evolve by their eigenvalue; and re-ordering triplets or evaluating on new "
    "data changes neither predictions nor the association of value, mode and function.",
    ["inputs", "histories"], "random systems, dictionaries, orderings, repeated sorts",
    "A permutation of one member of the triple is invisible to tests that look at members separately.",
    [EDMD, DMD], [("triplets", EDMD + ": koopman_eigenvalues, koopman_modes, koopman_eigenfunction, sort_koopman_triplets")])

add("C25", "Model predictive and quadratic regulators return feasible, optimal, correctly labelled inputs",
    "The control sequence returned by the model predictive controller respects input bounds and predicted-state bounds, has "
    "tracking cost no larger than any other feasible sequence (cost defined by the documented weights and the model's own "
    "prediction), and is labelled with the times at which it is to be applied; the linear regulator's feedback solves the "
    "discrete algebraic Riccati problem of the fitted model.",
    ["inputs", "configurations"], "random stable/unstable models, horizons, weights, bounds, references, selected outputs",
    "Optimality and feasibility quantify over all alternatives; tests check one tracking run.",
    [MPC], [("QP setup", MPC + ": KMPC._setup_optimizer, control_sequence_horizon"), ("LQR", MPC + ": LQR")])

add("C26", "Kernels compute their formula consistently for one or two point sets",
    "Every kernel evaluated on one or two point sets equals its documented formula entry by entry with rows "
    "for the second (query) set, is symmetric with the right diagonal on one set, positive semi-definite where the theory says so, and sparse evaluation with "
    "a distance cut-off equals the dense result on stored entries; evaluating has no effect on later evaluations of the same object or on user-supplied settings.",
    ["inputs", "configurations", "histories"], "random point sets (duplicates, single points, high dimension) x kernels x bandwidth x cut-offs x call orders",
    "Tests compare kernels with each other on one point cloud.",
    [KER, DIS], [("kernels", KER + ": RadialBasisKernel subclasses"), ("numerics", KER + ": _apply_kernel_function")])

add("C27", "Distance computations agree across backends and with the definition",
    "For every backend, metric, cut-off and minimum-neighbour setting, the distance matrix equals the pairwise definition on every stored "
    "entry, stores exactly the pairs within the cut-off (plus the requested nearest neighbours), has a zero diagonal on one point set, is oriented query-by-reference, and depends only on the arguments "
    "of that call, not on earlier calls with the same object.",
    ["inputs", "configurations", "histories"], "random point sets with ties, duplicates, all backends, cut-offs, kmin, call histories",
    "Caches and sparse zero handling fail only for particular call orders or duplicated points.",
    [DIS], [("algorithms", DIS + ": DistanceAlgorithm subclasses, compute_distance_matrix, _ensure_kmin_nearest_neighbor")])

add("C28", "Manifold kernels normalise as documented and extend to new points consistently",
    "Diffusion-map, continuous-nearest-neighbour, cone and Roseland kernels equal their documented construction (density "
    "correction, row-stochastic or symmetric normalisation, neighbour thresholds) on the training points, and evaluated "
    "for query points that coincide with training points they give the corresponding rows.",
    ["inputs", "configurations"], "random point sets x alpha, symmetrisation, delta, k, zeta, sparse/dense",
    "Only one configuration per kernel is tested and only on training points.",
    [KER], [("kernels", KER + ": DmapKernelFixed, ContinuousNNKernel, ConeKernel, RoselandKernel, MultiquadricKernel...")])

add("C29", "Eigen- and singular-value solvers return true, ordered, matching pairs",
    "For any kernel matrix, every backend and normalisation option returns the requested number of pairs; each pair satisfies "
    "the eigen (or singular vector) equation of the given matrix, the leading values are returned in descending order, vectors have the documented norm, and symmetric input yields real "
    "orthogonal results. Sparse and dense input, and all applicable backends, give the same values.",
    ["inputs", "configurations"], "random symmetric and similar-to-symmetric matrices, sizes around solver switching points, sparse/dense",
    "Solver selection depends on size, sparsity and count; tests sample one combination each.",
    [EIG, GEN], [("solvers", EIG + ": compute_kernel_eigenpairs, compute_kernel_svd")])

add("C30", "Diffusion maps satisfy their eigen-equation and extend out of sample consistently",
    "The embedding coordinates of diffusion maps and the landmark variant are the eigenvectors (singular vectors) of the documented kernel with matching eigenvalues (times the documented time scaling), are "
    "reproduced when training points are passed as new points, do not depend on rotation, translation or the order of points (up to sign), on "
    "other query points, or on selection of coordinates; mapping back reproduces the training data as far as the selected coordinates determine it.",
    ["inputs", "configurations", "histories"], "random manifold samples x kernels x alpha x symmetrisation x time exponent x coordinate selection",
    "The baseline test run does not even include the diffusion-map tests; invariances need many inputs.",
    [DMAP, KER], [("models", DMAP + ": DiffusionMaps, Roseland")])

add("C31", "Out-of-sample interpolators fit their training data and act pointwise and linearly",
    "Geometric harmonics equal the documented truncated kernel regression and, for full rank, interpolate the training targets; "
    "Laplacian pyramids reach the promised residual at training points; both predict each query point independently of the others, linearly in the targets where the method is linear, "
    "treat every target column alike, and report scores equal to the metric of their predictions.",
    ["inputs", "configurations"], "random point sets, targets, kernels, numbers of eigenpairs, tolerances",
    "Not covered by the stable tests; needs many kernels and data.",
    [OOS], [("interpolators", OOS + ": GeometricHarmonicsInterpolator, LaplacianPyramidsInterpolator, MultiScale...")])

add("C32", "Point-cloud containers and parameter estimators keep their defining relations",
    "A point cloud with kernel reports kernel, distances and optimised parameters consistent with direct computation on its "
    "points also after slicing and copying; estimated cut-off, scale and quantities are functions of the points alone that scale with the data and are invariant to translation, rotation and point "
    "order; sub-sampling and outlier removal return actual distinct points of the cloud with matching indices and targets.",
    ["inputs", "histories"], "random point clouds, slices, scale factors, seeds",
    "Tests use single data sets.",
    [PCM, EST], [("container", PCM + ": PCManifold"), ("estimators", EST), ("subsampling", PCM + ": pcm_subsample, pcm_remove_outlier")])

add("C33", "Linear-algebra and array helpers satisfy their algebraic definitions",
    "Helpers for diagonal scaling, sorting eigenpairs, normalising vectors, removing numerical noise, projecting to named features, detecting numeric kinds, combining "
    "arrays and comparing data frames return what the equivalent explicit expression gives for dense and sparse, "
    "real and complex input, and modify their arguments only where in-place operation is documented.",
    ["inputs", "configurations"], "random matrices of all shapes/types, label lists with reordering",
    "Helpers have hardly any direct tests although every model relies on them.",
    [GEN], [("helpers", GEN)])

add("C34", "Models survive cloning, copying and serialisation, and calls are repeatable",
    "A cloned unfitted estimator has equal parameters and, fitted on the same data, gives the same results; a fitted model that is deep-copied or pickled "
    "and restored gives identical transformations and predictions; repeating any evaluation gives identical results; "
    "and neither fitting nor evaluating changes the parameters or data objects supplied by the user.",
    ["histories", "inputs"], "every estimator x parameters x interleavings of fit, evaluate, copy, refit",
    "Hidden state (caches, shared objects) needs call sequences that the tests do not run.",
    [BASE, DMD, EDMD, DMAP, TRF, OOS, KER], [("estimators", "datafold/dynfold, datafold/appfold: get_params/clone/pickle"),])

add("C35", "Kernel-based feature dictionaries and coordinate selection are consistent",
    "Jointly smooth functions are smooth on every observation (fixed by each kernel-eigenspace projection up to the reported singular values), "
    "are reproduced when the training points are passed as new points and do not depend on the order of points; coordinate selection by local regression returns the requested number of admissible indices, keeps values and "
    "labels of selected coordinates, and ranks a coordinate that is a function of previous ones below independent ones.",
    ["inputs", "configurations"], "random multi-observation data sets, kernels, numbers of pairs, selection strategies",
    "Tests check shapes on a single data set.",
    [JSF, DMAP], [("JSF", JSF + ": JointlySmoothFunctions"), ("selection", DMAP + ": LocalRegressionSelection")])

add("C36", "Simulated example systems follow their vector field and input",
    "Trajectories produced by the bundled example systems satisfy the documented differential equation (agree with an independent accurate integration), apply every control channel at its own "
    "time and series, start at the given initial condition and are labelled with the requested times, series and features.",
    ["inputs", "configurations"], "random parameters, initial conditions, control sequences, time grids",
    "Tests check that the simulations run, on one control channel.",
    [SYS], [("systems", SYS + ": ODE.predict, ControllableODE.predict, DCMotor, VanDerPol, ...")])

DL = "datafold/dynfold/dictlearning.py"
add("C37", "Learned dictionaries are feed-forward maps with the system matrix of their final state",
    "A neural network dictionary maps every sample on its own to the named original states (if requested), the constant one and the network's outputs; its training alternates between the (regularised) "
    "least squares system matrix over the snapshot pairs of all series and gradient steps on the stated loss (with learning rate schedules, validation losses and early stopping applied per epoch), is repeatable "
    "for a fixed random state, and ends with the system matrix of the final dictionary. An EDMD model with a learned dictionary predicts with exactly this dictionary and matrix, also after it is fitted again, "
    "cloned or pickled.",
    ["inputs", "configurations", "histories"], "random collections, network sizes, losses, regularisations, batch sizes, schedulers, validation sets, fit histories",
    "No test covers dictionary learning; a tutorial shows one configuration.",
    [DL, "datafold/appfold/edmd.py"], [("network", DL + ": FeedforwardNN, EarlyStopping"), ("estimator", DL + ": DMDDictLearning.fit"), ("EDMD", "datafold/appfold/edmd.py: EDMD.fit")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
