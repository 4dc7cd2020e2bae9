"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/mkdocs.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), technique="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, technique=technique, note=note, na=na))


AI = ("whole-program abstract interpretation of the package's Python source ({}), over symbolic inputs and every "
      "construct/fit/query history of each public class")
TRUST = (" Trusted: the effect models of numpy/scipy/xarray/sklearn calls in engine/models.py, and that the interpreter's "
         "treatment of Python covers the constructs it meets (anything it does not understand is reported as undecided in "
         "the evidence, never as held).")

prop("C01", "Arguments passed by the caller are never modified",
     "No public call (constructing a model, fitting, predicting, reconstructing, clustering, tuning, preprocessing, "
     "plotting, or a utility function) changes the contents of an array, list or dictionary the caller passed in. "
     "Keyword dictionaries, initial guesses, option arrays, snapshot arrays and time vectors are the same after the call "
     "as before it.",
     ["inputs", "configurations", "histories"],
     "every argument of every public entry point, for every option combination and every order of calls",
     "Tests pass fresh arrays and rarely compare the argument afterwards; a write happens only for some option values.",
     ["pydmd"],
     [{"name": "copies before normalising or filling in defaults", "where": "pydmd/bopdmd.py, pydmd/costs.py, pydmd/mrcosts.py, pydmd/utils.py"}],
     [{"name": "caller-owned objects", "meaning": "objects reachable from an argument at call entry"}],
     ["the argument object after the call returns"],
     AI.format("points-to and mutation effects"),
     "Sound for the modelled effects: every store, in-place operator, out= argument and mutating method is resolved to the "
     "objects it may touch, and one that reaches a caller-owned object is reported." + TRUST)

prop("C02", "Refitting a model forgets the previous data completely",
     "After a model has been fitted to one data set and then fitted again to another, every result it exposes (modes, "
     "eigenvalues, amplitudes, dynamics, reconstruction, prediction, time window, snapshots) depends only on the options "
     "and the second data set. Nothing computed from the earlier data, no activation bitmask and no time window chosen "
     "before the second fit survives it.",
     ["histories", "inputs"],
     "every history fit, any queries and setters, fit again, any query, for every model class, wrapper and option value",
     "Tests refit rarely, with data of the same shape, and compare few results; stale caches need a particular history.",
     ["pydmd"],
     [{"name": "reset of cached results at the start of fit", "where": "pydmd/dmdbase.py DMDBase._reset and every fit method"}],
     [{"name": "cached results", "meaning": "fields written by a fit or lazily by a query"}],
     ["results queried after the second fit"],
     AI.format("information flow from the first data set through fields to the results of queries after a refit"),
     "Explicit data flow (not control dependence) from the first data set, bitmask or time window to any result after the "
     "refit is reported with the field that carries it." + TRUST)

prop("C03", "Reading results never changes later results",
     "Querying a fitted model (reading modes, eigenvalues, amplitudes, dynamics, frequencies, reconstructions, forecasting, "
     "predicting, evaluating a predefined mode selection criterion, saving or plotting) does not change what any later query returns. The order in which results are read, "
     "and how often, is irrelevant.",
     ["histories", "inputs"],
     "every sequence of queries on a fitted model of every class and wrapper",
     "Tests read each result once, in one order.",
     ["pydmd"],
     [{"name": "results are computed from stored factors without in-place updates; caches are filled once",
       "where": "pydmd/dmdbase.py, pydmd/dmdoperator.py, pydmd/mrdmd.py, pydmd/plotter.py"}],
     [{"name": "model state", "meaning": "every object reachable from the fitted model"}],
     ["results of the second and later queries"],
     AI.format("effects of each query on model state compared with what queries read"),
     "A field write or in-place write made by a query that survives it and that some query can read is reported." + TRUST)


prop("C04", "Models share no mutable state",
     "Two models never influence each other. Fitting, querying or changing a model obtained by copying, by indexing "
     "(dmd[...]), by wrapping (Hankel/delay preprocessing, ParametricDMD, MrDMD's or COSTS's inner models) leaves every "
     "other independent model as it was: no default argument, class attribute, module variable, time dictionary or array "
     "written through one model is visible from another. The only sharing is the documented one of a wrapper with the "
     "model object it was given.",
     ["histories", "inputs"],
     "every pair of models (same class or copy/sub-model/inner model) and every interleaving of operations on them",
     "Tests build one model at a time and do not look at a second one after using the first.",
     ["pydmd"],
     [{"name": "deepcopy of the template model per level, window or parameter; fresh dictionaries and lists per instance",
       "where": "pydmd/mrdmd.py, pydmd/paramdmd.py, pydmd/dmdbase.py __getitem__, pydmd/costs.py"}],
     [{"name": "mutable objects reachable from two models", "meaning": "heap reachability in the abstract store"}],
     ["results of one model after operations on another"],
     AI.format("reachability of mutable objects from two models and the writes that hit them"),
     "An object reachable from two independent models (or from a class, module or default argument) that some public "
     "operation writes in place is reported." + TRUST)

prop("C10", "No public call trips over state that was never set, and fit returns the model",
     "Whatever the options, every public property, method and setter called before fit, after fit or after a refit either "
     "works or raises a deliberate error: it never fails because an attribute, a local variable or a name it reads was "
     "never assigned on that history, because an internal call passes arguments the callee does not accept, or because it "
     "computes with an attribute that is still None. fit returns the very model it was called on, for models, wrappers, "
     "ParametricDMD, COSTS and mrCOSTS.",
     ["histories", "configurations"],
     "every public member of every class, wrapper, tuner and plotting function, at each life-cycle stage, for every option value",
     "Tests query the members they know to work after a default fit; most option values and pre-fit reads are not sampled.",
     ["pydmd"],
     [{"name": "attributes initialised in constructors or class bodies; explicit 'not fitted' errors", "where": "pydmd/dmdbase.py, pydmd/costs.py, pydmd/mrcosts.py, pydmd/bopdmd.py"}],
     [{"name": "assigned attributes", "meaning": "fields present in the abstract store at each step"}],
     ["the exception escaping the public call; the value returned by fit"],
     AI.format("definite assignment of attributes and locals, call signature matching, identity of fit's result"),
     "A read of an unassigned attribute or local on a consistent path, an undefined name, a signature mismatch or a None "
     "operand is reported at the construct." + TRUST)


prop("C12", "A saved model is restored complete",
     "For every DMD model, ParametricDMD and preprocessing wrapper, save(fname) followed by load(fname) yields an object "
     "with the same results: save writes the whole object it is called on to the file named by the caller and changes "
     "nothing; load returns exactly the stored object; neither construction, fit nor any query puts anything into a model "
     "(local functions, lambdas, generators, open files) that would make it impossible to save; and no class drops or "
     "alters state when it is pickled.",
     ["histories", "configurations"],
     "every model class and wrapper, every option value, at every point of its life (constructed, fitted, queried)",
     "Tests save one default-configured fitted DMD and compare a few attributes.",
     ["pydmd/dmdbase.py", "pydmd/paramdmd.py", "pydmd/preprocessing"],
     [{"name": "pickle.dump(self) / pickle.load", "where": "pydmd/dmdbase.py DMDBase.save/load, pydmd/paramdmd.py, pydmd/preprocessing/pre_post_processing.py"}],
     [{"name": "instance state", "meaning": "every value reachable from a model in the abstract store"}],
     ["the object returned by load"],
     AI.format("heap enumeration for unpicklable values, effects of save/load, abstract round trip through pickle hooks"),
     "Reports the attribute that holds something unpicklable, a save/load that handles another object or file mode, and "
     "each query whose inputs change across the round trip." + TRUST)


prop("C07", "Results are reproducible and governed by the documented seed",
     "Two fits with the same options on the same data give the same results, unless a documented random feature is in use "
     "(random compression in CDMD, bagging in BOPDMD, permutation in LANDO, and COSTS or mrCOSTS forwarding bagging options). "
     "Random test matrices of RDMD, randomized preprocessing and compute_rqb are drawn from a generator created anew in every "
     "call from the caller's seed, so equal seeds give equal results and repeated fits agree; the other random features follow "
     "numpy's global generator, which no call ever reseeds. Clusterings use a fixed random state unless the caller chooses "
     "one. No result depends on clocks, operating system entropy or the order of a set.",
     ["histories", "inputs", "configurations"],
     "every option combination and every history of calls of every model class, wrapper and utility function",
     "A test that fixes the global seed cannot see an additional or misplaced draw, a seed that is ignored for some options, or "
     "a generator that is kept between fits.",
     ["pydmd"],
     [{"name": "the generator is created from the seed argument", "where": "pydmd/utils.py compute_rqb, pydmd/rdmd.py"},
      {"name": "random_state default of clusterings", "where": "pydmd/costs.py, pydmd/mrcosts.py"}],
     [{"name": "stochastic features", "meaning": "CDMD compression, BOPDMD bagging and forecasts, LANDO permutation"}],
     ["results of repeated fits"],
     AI.format("enumeration of random draws, generators, seeds and other sources of nondeterminism with the provenance of each seed"),
     "Every draw, generator and seed reachable from a public call is found and its seed traced to its source." + TRUST)

prop("C08", "Every documented option influences the results it governs",
     "Each constructor option takes effect in every configuration in which it applies: the rank options, exact, opt, "
     "rescale_mode, forward_backward, sorted_eigs and tikhonov_regularization reach the modes, eigenvalues or amplitudes they "
     "are documented to govern in every class that accepts them, whatever the other switches are and whether or not a second "
     "snapshot matrix is given; so do the options specific to SpDMD, EDMD, PiDMD, HankelDMD, HODMD, CDMD, RDMD, MrDMD, OptDMD, "
     "DMDc, BOPDMD, VarProDMD, LANDO, HAVOK, COSTS, mrCOSTS and ParametricDMD, including those forwarded to inner models. No "
     "option is silently dropped, replaced by a default or confused with another, documented values are accepted, an option "
     "changed through its setter governs the next fit, and option attributes read back what was given. Likewise every argument "
     "of a public method, preprocessing wrapper or utility function can influence what it returns or stores, and the fit "
     "arguments given to ParametricDMD reach every inner model.",
     ["configurations", "inputs"],
     "every value of every option, in every combination with the other switches",
     "Tests set one option at a time on one class and often only check shapes; an option lost on the way to an inner model or in "
     "one branch still gives plausible results.",
     ["pydmd"],
     [{"name": "options are forwarded to the operator / inner model", "where": "pydmd/dmdbase.py, pydmd/hankeldmd.py, pydmd/hodmd.py, pydmd/cdmd.py, pydmd/costs.py"}],
     [{"name": "governs", "meaning": "the per-class table SPEC in checks/c08.py"}],
     ["modes, eigs, amplitudes, dynamics, reconstructed_data, predictions"],
     AI.format("information flow (data and control dependence) from options to results"),
     "The dependence analysis over-approximates: a reported option cannot influence the result in the reported configuration. "
     "Whether an option that does flow into a result has the right effect is not decided." + TRUST)

prop("C09", "Unsupported option values and requests are rejected with an explicit error",
     "Giving an option a value outside its documented set never produces a silently wrong model: unknown sorting, rescaling, "
     "reconstruction, factorization, manifold, compression, kernel, clustering transformation or selection names, eigenvalue "
     "constraints that are unknown or contradictory, non-positive lags and delays, containers of the wrong type or of "
     "inconsistent length, arrays that do not go together (X and Y of different shape, X and its times or parameters of different "
     "length, fewer snapshots than the method needs), missing manifold options, unknown keys of the time window, indexes that are not distinct integers and "
     "nodes outside the multi-resolution tree all end in an explicit ValueError, TypeError, KeyError or RuntimeError no later than "
     "the fit or query that would use them, whatever the other options are.",
     ["inputs", "configurations"],
     "every combination of the invalid value with arbitrary other options and data",
     "Tests try one invalid value in one configuration; a check that is skipped for some other option value, or a set comparison that "
     "misses a combination, is not exercised.",
     ["pydmd"],
     [{"name": "validation of options", "where": "pydmd/bopdmd.py, pydmd/dmdoperator.py, pydmd/havok.py, pydmd/lando.py, pydmd/pidmd.py, pydmd/dmdbase.py"}],
     [{"name": "invalid values", "meaning": "the tables OPTIONS / COMBOS / SHAPES / requests in checks/c09.py"}],
     ["whether the call returns or raises, and what it raises"],
     AI.format("path enumeration with the invalid value as a constant and everything else symbolic"),
     "Every path of the analysed call sequence must end in an explicit raise. Shapes are decided "
     "for the sizes in the table SHAPES; values whose validity depends on array contents are not covered." + TRUST)

FORM = ("modular value numbering: abstract interpretation with the inputs as named symbols yields the value number of every result; "
        "it and the documented formula are brought to a linear-algebra normal form (sums of words of matrices, scalings and a vector) "
        "and compared")

prop("C05", "The decompositions are computed by their documented formulas",
     "For every data matrix X (and Y, control input I or B where accepted) and every supported setting of exact, opt, "
     "forward_backward, rescale_mode, tikhonov_regularization and tlsq_rank, the published quantities of DMD, FbDMD, SpDMD (apart from "
     "its amplitudes), CDMD, RDMD, SubspaceDMD, DMDc, HankelDMD, EDMD, OptDMD and PiDMD are the documented functions of the data: the "
     "reduced operator, its eigenvalues, the exact or projected modes, the amplitudes (least squares against the chosen snapshot, or "
     "the optimal ones of opt=True), the B of DMDc, the A of PiDMD, EDMD.eigenfunctions and the one step predictions of DMD and OptDMD. "
     "Complex data, every rank, and every combination of these options are included: complex conjugates, the data matrix, the shift "
     "and the scaling used are the documented ones in each of them. sorted_eigs='abs' or 'real' publishes the eigenvalues in ascending order of "
     "absolute value or real part, each with its own mode.",
     ["inputs", "configurations"],
     "all real or complex snapshot matrices, all ranks, the listed option combinations",
     "Tests compare a few results for real data or check necessary consequences only; a dropped conjugate, a scaling applied on the wrong "
     "side, or a formula that is wrong only for one combination of options passes them.",
     ["pydmd/dmdoperator.py", "pydmd/dmdbase.py", "pydmd/dmd.py", "pydmd/cdmd.py", "pydmd/rdmd.py", "pydmd/subspacedmd.py",
      "pydmd/dmdc.py", "pydmd/hankeldmd.py", "pydmd/edmd.py", "pydmd/optdmd.py", "pydmd/pidmd.py"],
     [{"name": "operator and modes", "where": "pydmd/dmdoperator.py: compute_operator, _least_square_operator, _compute_eigenquantities, _compute_modes"},
      {"name": "amplitudes", "where": "pydmd/dmdbase.py: _compute_amplitudes"}],
     [{"name": "formulas", "meaning": "the numpy expressions in checks/c05.py, evaluated by the same engine"}],
     ["modes", "eigs", "amplitudes", "operator.as_numpy_array", "B", "A", "predict", "eigenfunctions"],
     FORM,
     "Floating point is treated as exact arithmetic; SVD, eigendecomposition, (pseudo-)inverse, matrix square root and kernels are "
     "uninterpreted functions; compute_svd, compute_tlsq, compute_rqb, pseudo_hankel_matrix are symbols (C06). A result whose value number has no "
     "normal form, or is written with functions the formula does not contain, is counted as undecided and never reported." + TRUST)


prop("C13", "Time windows drive dynamics, frequencies and reconstruction, and nothing else",
     "After fit, original_time and dmd_time are two independent windows covering the fitted snapshots (0, 1, ..., n-1). From then on, "
     "whatever values a user gives to their entries and whatever has been queried before: the published time steps are the grid of the "
     "corresponding window; the dynamics are eigenvalue ** ((t - t0)/dt of the original window, shifted to the snapshot the amplitudes "
     "refer to) times the amplitude; frequency and growth rate are scaled by the original dt only; the reconstruction is modes times "
     "dynamics on the requested window (for the delay-embedded models: on the window of the first column that contains it; for DMDc: every snapshot is A times the one lag steps "
     "earlier plus B times the control input, the given one or that of fit, starting from the first lag snapshots); modes, "
     "eigenvalues and amplitudes never depend on a window. Assigning dmd_time as a whole has the same effect as changing its entries and leaves "
     "original_time alone.",
     ["inputs", "histories", "configurations"],
     "all values of the six entries, set before or after any query, for every opt and every model that publishes the windows",
     "Tests move the window in a few fixed ways with dt = 1 or on a fresh model; a formula that uses the wrong window, a shared dictionary or "
     "a cached result shows only for other values or orders.",
     ["pydmd/dmdbase.py", "pydmd/hankeldmd.py", "pydmd/dmdc.py", "pydmd/dmd.py", "pydmd/cdmd.py", "pydmd/subspacedmd.py"],
     [{"name": "windows", "where": "pydmd/dmdbase.py: dmd_timesteps, original_timesteps, dynamics, frequency, _set_initial_time_dictionary, dmd_time"},
      {"name": "delay-embedded window", "where": "pydmd/hankeldmd.py: _hankel_first_occurrence, _update_sub_dmd_time, reconstructed_data"}],
     [{"name": "entries", "meaning": "t0, tend and dt of dmd_time and original_time"}],
     ["dmd_timesteps", "original_timesteps", "dynamics", "frequency", "growth_rate", "reconstructed_data", "modes", "eigs", "amplitudes"],
     FORM + "; plus dependence analysis from the entries of the time dictionaries to every published quantity",
     "Floating point (including the length of np.arange) is not modelled. MrDMD, BOPDMD, VarProDMD, HAVOK and LANDO have their own time handling "
     "and are not covered; DMDc.reconstructed_data only as far as it can be computed." + TRUST)


prop("C06", "The numerical building blocks compute what they document",
     "For every matrix and every rank rule (positive integer, energy fraction, full rank, or the automatic threshold, whose value is taken as "
     "given), compute_svd returns the leading left singular vectors, singular values and right singular vectors (stored by column), "
     "all three cut at the same rank, and compute_rank returns that rank; compute_tlsq projects both matrices onto the leading right singular "
     "subspace of the stacked data, and returns them unchanged for rank 0; compute_rqb returns an orthonormal basis Q of the sampled and "
     "power-iterated range, B = Q* X, and the test matrix it used, which has rank + oversampling columns when drawn; differentiate returns the second "
     "order differences, one-sided at both ends; the upper triangular Procrustes solver returns triu(Y Q*) R^+ of the RQ factorisation; "
     "pseudo_hankel_matrix puts snapshot j + k in block k of column j; Snapshots stores each snapshot (of an array with time on the last axis, or "
     "of a list) as one column, its space dimensions flattened in C order. Complex data are included.",
     ["inputs", "configurations"],
     "all real or complex matrices, every branch of the rank rules, 0, 1 or 2 power iterations",
     "Tests use real data and check shapes or consequences; a missing conjugate, a rank applied to two factors only, or a wrong end stencil "
     "is invisible for most of them.",
     ["pydmd/utils.py", "pydmd/pidmd_utils.py", "pydmd/snapshots.py"],
     [{"name": "snapshots", "where": "pydmd/snapshots.py: Snapshots; pydmd/utils.py: pseudo_hankel_matrix"},
      {"name": "rank rules and factorisations", "where": "pydmd/utils.py: compute_rank, compute_svd, compute_tlsq, compute_rqb, differentiate"},
      {"name": "Procrustes solver", "where": "pydmd/pidmd_utils.py: compute_uppertriangular"}],
     [{"name": "formulas", "meaning": "the numpy expressions in checks/c06.py, evaluated by the same engine"}],
     ["return values of the functions"],
     FORM,
     "Floating point is treated as exact arithmetic; SVD, QR, RQ and searchsorted are uninterpreted functions. Arrangements of entries (delay "
     "embedding, Snapshots) are decided for the array sizes listed in checks/c06.py, with symbolic entries. The value of the "
     "automatic threshold and the other constrained solvers of PiDMD (loops over entries) are outside the normal form and not decided." + TRUST)


prop("C11", "Pre-processing is applied to every fit and undone in every reconstruction",
     "A model wrapped by zero_mean_preprocessing, svd_projection_preprocessing, randomized_preprocessing or hankel_preprocessing (alone or "
     "nested), and HODMD, trains the wrapped model on exactly the documented transformation of the data of that fit, whether they are passed by "
     "position or by keyword, and its reconstructed_data is the inverse transformation, computed from the data of the most recent fit, of the "
     "reconstruction of the wrapped model. For complex data the projections use the conjugate transpose of the basis, so that projecting and "
     "lifting are inverse to each other on its span. Undoing the delay embedding gives, for every time, the first, the average or the weighted "
     "average (weight k belongs to block k) of the occurrences of that time in the embedded reconstruction. Every other published quantity is the one of the wrapped model.",
     ["inputs", "histories", "configurations"],
     "all real or complex data, first and later fits, the listed wrappers alone and nested, default and explicit averaging axes",
     "Tests fit a wrapper once on real data; a missing conjugate, a transformation kept from an earlier fit, or training data that reach the model "
     "untransformed through one calling convention do not show.",
     ["pydmd/preprocessing", "pydmd/hodmd.py"],
     [{"name": "wrapper", "where": "pydmd/preprocessing/pre_post_processing.py: PrePostProcessingDMD"},
      {"name": "transformations", "where": "pydmd/preprocessing/zero_mean.py, svd_projection.py, randomized.py, hankel.py: pre_processing, post_processing"}],
     [{"name": "pre-processing output", "meaning": "mean, projection basis or compression matrix kept between fit and reconstruction"}],
     ["snapshots of the wrapped model", "reconstructed_data", "modes", "eigs", "amplitudes", "dynamics", "operator"],
     FORM,
     "Floating point is treated as exact arithmetic. The reconstruction of the delay embedding is an arrangement of entries, decided for the sizes listed in "
     "checks/c11.py (1 to 3 delays) with symbolic entries." + TRUST)


prop("C14", "Mode selection keeps modes, eigenvalues and amplitudes together, loses nothing",
     "Setting modes_activation_bitmask to a mask publishes exactly the modes, eigenvalues and amplitudes selected by that one mask, whatever "
     "masks were set before: modes that were switched off come back unchanged when a later mask includes them, and values the user edited in "
     "the published arrays stay edited, also across mask changes. d[key] is a model restricted to the modes in key; d itself does not change. "
     "select_modes (also through ModesTuner, in place or on a copy) keeps exactly the currently active modes for which the criterion is true, or, with "
     "nullify_amplitudes, keeps all modes and sets exactly the amplitudes of the others to zero; with in_place=False the given model does not change. stabilize_modes "
     "divides the eigenvalues whose absolute value lies strictly inside the ring by that absolute value and multiplies their amplitudes by it, and touches "
     "nothing else. The criteria threshold and stable_modes select by the documented strict inequalities, integral_contribution(n) selects the n modes of the "
     "largest squared norm times sum of absolute dynamics. A new fit starts with all modes active.",
     ["inputs", "histories", "configurations"],
     "all masks, criteria, radii and values, in sequences of up to three changes, for every model class with an activation bitmask",
     "Tests use one mask on a fresh model and one criterion; positions relative to the active modes and to all modes coincide there, and a lost write-back "
     "shows only after an edit followed by two changes of the mask.",
     ["pydmd/dmdbase.py", "pydmd/dmd_modes_tuner.py", "pydmd/hankeldmd.py"],
     [{"name": "bitmask", "where": "pydmd/dmdbase.py: ActivationBitmaskProxy, modes_activation_bitmask, __getitem__, _reset"},
      {"name": "tuner", "where": "pydmd/dmd_modes_tuner.py: select_modes, stabilize_modes, ModesSelectors, ModesTuner"}],
     [{"name": "mask", "meaning": "boolean array assigned to modes_activation_bitmask"}, {"name": "criterion", "meaning": "callable given to select_modes"}],
     ["modes", "eigs", "amplitudes", "modes_activation_bitmask"],
     FORM + "; masks and index sets are brought to a canonical chain of selections",
     "The integral_contribution criterion (ordering of norms) is not covered; in some classes the state after a refit has no value number." + TRUST)


prop("C15", "Continuous-time models publish the exponential fit they found",
     "BOPDMD: the model is X(t) = modes diag(amplitudes) exp(eigs t) with unit-norm mode columns; modes and amplitudes always belong to the published "
     "eigenvalues (they are the least-squares coefficients at exactly those eigenvalues), every published eigenvalue vector has passed the eigenvalue "
     "constraints (stable: positive real parts become zero; imag: real parts become zero; a function: its value) and never fits worse than the starting "
     "guess; the starting guess is init_alpha or the eigenvalues of the trapezoidal-rule operator of the data in the projection basis; atilde and A are "
     "the operators with these eigenvalues and (projected) modes; mode_prox is applied to the published modes. With num_trials > 0 each trial is fitted to the "
     "sampled snapshots and their own times, and modes, eigs and amplitudes (and their _std) are the mean and standard deviation over exactly num_trials accepted trials, each "
     "sorted by eig_sort. fit_econ(s, V, t) fits diag(s) V in the given basis. VarProDMD: the optimizer starts from the trapezoidal-rule eigenvalues and is given the selected "
     "samples with their times; eigs are the point it returns, modes and amplitudes are the normalised least-squares coefficients at that point, all three in the same order; "
     "frequency and growth_rate are imag(eigs)/2pi and real(eigs). For both, dynamics, reconstructed_data and forecast(t) are the exponential model at the original, respectively given, times.",
     ["inputs", "configurations", "histories"],
     "all data, time grids, candidate sequences of the search (up to two outer and two inner iterations), acceptance patterns and switches (use_proj, compute_A, proj_basis, "
     "init_alpha, eig_sort, remove_bad_bags, exact, compression, sorted_eigs)",
     "Tests check reconstructions on a few noise-free signals, where rejected steps, failed bags and the pairing of modes with eigenvalues do not matter.",
     ["pydmd/bopdmd.py", "pydmd/varprodmd.py"],
     [{"name": "BOPDMD", "where": "pydmd/bopdmd.py: BOPDMDOperator._variable_projection, _single_trial_compute_operator, compute_operator, _push_eigenvalues, BOPDMD.fit, fit_econ"},
      {"name": "VarProDMD", "where": "pydmd/varprodmd.py: compute_varprodmd_any, _compute_dmd_rho, VarProOperator.compute_operator, VarProDMD"}],
     [{"name": "t", "meaning": "real time stamps of the snapshots"}, {"name": "candidate", "meaning": "eigenvalue vector tried by the optimizer"}],
     ["modes", "eigs", "amplitudes", "atilde", "A", "dynamics", "reconstructed_data", "forecast", "modes_std", "eigenvalues_std", "amplitudes_std"],
     FORM + "; the outcomes of the comparisons between fits of candidates are enumerated, the candidates are symbols",
     "Quality of the optimum, the conjugate_pairs constraint and the numerical cut-off for negligible modes are not covered." + TRUST)


prop("C16", "LANDO and HAVOK publish the models their data define",
     "LANDO: after fit (not online) the weights are the least-squares solution of W K(D, X) = Y over the rescaled snapshots and the "
     "sparse dictionary D, for consecutive snapshots and for pairs; f(x) = W K(D, x) with x rescaled as the training data were; the "
     "published dictionary is in the units of the data; analyze_fixed_point(q) publishes bias = f(q), the linear operator W grad K at "
     "the rescaled q, its projection, the eigenvalues sorted by decreasing modulus, the modes that belong to them and the nonlinear "
     "remainder f(x + q) - f(q) - L x; an update redoes the analysis with the new weights and dictionary; each online sample updates "
     "dictionary, Cholesky factor, P and weights by the published recursion; the built-in kernel gradients are those of the linear, "
     "polynomial and RBF kernels with their parameters or the kernel's own defaults; predict iterates f, or integrates it from the given "
     "state at the requested times. HAVOK: the operator is the regression of the derivative of the delay embeddings (finite "
     "differences, or the two shifted factorizations when structured, or the inner DMD model) on the embeddings; A, B, eigs, "
     "linear_dynamics and forcing are its split by num_chaos; the Hankel matrix holds the data delayed by multiples of the lag and "
     "dehankel inverts it; predictions simulate x' = A x + B u from the given state and are mapped back through the singular vectors.",
     ["inputs", "configurations"],
     "all data, kernels, rescalings and combinations of the options",
     "Tests compare with one toy system within a tolerance; a wrong scaling, conjugation, index or a stale part of the analysis shows "
     "only for rescaled, polynomial, multi-forcing, updated or complex models.",
     ["pydmd/lando.py", "pydmd/havok.py", "pydmd/utils.py"],
     [{"name": "LANDOOperator.compute_operator, compute_linear_operator", "where": "pydmd/lando.py"}, {"name": "HAVOK.fit, predict", "where": "pydmd/havok.py"}],
     [{"name": "K", "meaning": "sklearn pairwise_kernels or the user's kernel, uninterpreted"}],
     ["weights, f, bias, linear, eigs, modes, nonlinear, predict, operator, A, B, forcing"],
     FORM, "Which samples enter the dictionary (a numerical threshold) is not decided; the recursion is checked for one sample from an "
     "arbitrary state, so it holds for any number of samples." + TRUST)


prop("C17", "Complex data stay complex and integer data are not truncated",
     "Models accept real, complex and integer snapshots. With complex snapshots no step of a fit, prediction, reconstruction or utility "
     "discards the imaginary part of a computed value by storing it in a real array or by converting it to a real type, and no published "
     "quantity of the data space (snapshots, modes, eigenvalues, dynamics, reconstructions, predictions, operators, embeddings, SVD and "
     "TLSQ factors, derivatives) is real whatever the data. With integer snapshots no computed value is stored in, converted to, or "
     "accumulated in place into an array of the data's integer type. COSTS and mrCOSTS are documented for real data and exempt from the "
     "first part.",
     ["inputs", "configurations"],
     "all snapshots of any number type, all classes, preprocessings and public helper functions",
     "numpy discards imaginary parts and fractions with a warning or silently, and the tests feed real floating-point data almost "
     "everywhere.",
     ["pydmd/havok.py", "pydmd/lando.py", "pydmd/mrdmd.py", "pydmd/pidmd_utils.py", "pydmd/utils.py", "pydmd/bopdmd.py", "pydmd/preprocessing/hankel.py"],
     [{"name": "array allocations, stores, astype", "where": "pydmd/*.py"}],
     [{"name": "kind", "meaning": "real, complex, integer or floating-point, per abstract value"}],
     ["every public property, method and helper function of the 20 classes"],
     AI.format("number-kind analysis"), "An explicit .real in the source is decided only where it makes a published quantity real; unknown kinds raise no alarm." + TRUST)


prop("C18", "Composite models are assembled from their sub-models as documented",
     "MrDMD fits level 0 on all snapshots and every following level on what the slow modes of the levels above it leave over, each level "
     "cutting the time axis into 2^level windows, with slow modes selected by rho = max_cycles / (length of that window); modes, "
     "eigenvalues, dynamics, amplitudes and reconstructions of the composite are those of its sub-models, each placed in its own window; "
     "time_window_bins/eigs/frequency/growth_rate/amplitudes return the nodes whose interval meets the window. ParametricDMD reduces the "
     "snapshots of all training parameters with one spatial reduction, fits the inner model(s) on the coefficients of the right "
     "parameters, forecasts all of them at the same dmd_time, interpolates every time instant and coefficient over the training "
     "parameters at the requested parameters, and expands the result to [parameter, space, time], for monolithic and partitioned "
     "models, after refits and after changes of parameters and dmd_time.",
     ["inputs", "configurations", "histories"],
     "all snapshots, levels 0 to 2, sub-models given as instance, list or callable, all relative positions of window and interval",
     "A swap of axes, a residual taken from the wrong level or a window of the wrong length gives arrays of the right shape; the "
     "parametric tests are not runnable and the multi-resolution tests compare shapes and one data set.",
     ["pydmd/mrdmd.py", "pydmd/paramdmd.py"],
     [{"name": "MrDMD._build_submatrices, fit, partial_*", "where": "pydmd/mrdmd.py"}, {"name": "ParametricDMD.fit, reconstructed_data", "where": "pydmd/paramdmd.py"}],
     [{"name": "symbolic value", "meaning": "value number of each composite quantity in terms of sub-model results"}, {"name": "axes", "meaning": "named directions of every axis of an array"}],
     ["public properties and methods of MrDMD and ParametricDMD"],
     FORM, "Sub-models, spatial reduction and interpolation are uninterpreted; trees of more than three levels are not enumerated." + TRUST)


prop("N01", "Reconstructions of data generated by a linear system are accurate to rounding",
     "For snapshots generated by a linear system of order at most the chosen rank, the published eigenvalues are those of the system and "
     "reconstructed_data equals the snapshots up to rounding.",
     ["inputs"], "all matrices and initial states, all ranks that are large enough", "Tests sample a handful of systems of moderate conditioning.",
     ["pydmd/dmd.py", "pydmd/dmdoperator.py", "pydmd/utils.py"], [{"name": "pipeline", "where": "pydmd/dmdoperator.py: compute_operator; pydmd/dmdbase.py"}],
     [], ["eigs", "reconstructed_data"],
     na="The bound depends on conditioning and on floating point errors of LAPACK routines, runtime quantities that no static argument in reach bounds. "
        "The exact-arithmetic part (that the formulas are the documented ones) is decided by C05, C06 and C13.")


prop("N02", "Iterative optimisers converge to an optimum",
     "BOPDMD, VarProDMD and SpDMD return a (local) minimiser of their documented objective, or report that they did not converge.",
     ["inputs"], "all data, starting guesses and optimiser options", "Tests run well-behaved problems.",
     ["pydmd/bopdmd.py", "pydmd/varprodmd.py", "pydmd/spdmd.py"], [{"name": "iterations", "where": "pydmd/bopdmd.py: _variable_projection; pydmd/spdmd.py: _find_amplitudes"}],
     [], ["eigs", "modes", "amplitudes"],
     na="Convergence of a nonlinear iteration quantifies over the numeric trajectory; only what is published for whatever point is reached, and that it is "
        "never worse than the start, is decidable from the source (C15).")


prop("N03", "Constrained operators are optimal within their manifold",
     "PiDMD's operator minimises the residual over the chosen matrix manifold and satisfies the constraint.",
     ["inputs", "configurations"], "all data and manifolds", "Tests check the constraint on random data of one size.",
     ["pydmd/pidmd.py", "pydmd/pidmd_utils.py"], [{"name": "Procrustes solvers", "where": "pydmd/pidmd_utils.py"}], [], ["A", "eigs", "modes"],
     na="Optimality is a statement about all competitors, proved on paper for each closed form; the source only shows the formula. Solvers that fill the matrix "
        "entry by entry or in Fourier space are outside the normal form of C05/C06, which decide the others against the published formula.")


prop("N04", "Rank rules keep the least number of modes with the requested energy",
     "svd_rank in (0, 1) keeps the least number of singular values whose energy reaches the fraction; svd_rank = 0 keeps those above the "
     "Gavish-Donoho threshold; TLSQ and randomized ranks behave alike.",
     ["inputs"], "all spectra", "Tests use a few spectra without ties.", ["pydmd/utils.py"],
     [{"name": "rank rule", "where": "pydmd/utils.py: _compute_rank"}], [], ["svd rank"],
     na="Whether searchsorted over a cumulative sum of rounded energies yields the least rank, and the value of the fitted threshold polynomial, are numeric facts; "
        "the expression itself is compared with the documented one by C06.")


prop("N05", "Multi-scale separation recovers the bands of the data",
     "COSTS and mrCOSTS assign every fitted frequency to the cluster of its band, and the sum of the bands and the background is the reconstruction.",
     ["inputs"], "all data and window lengths", "Tests use one synthetic signal.", ["pydmd/costs.py", "pydmd/mrcosts.py"],
     [{"name": "clustering", "where": "pydmd/costs.py: cluster_omega, scale_reconstruction"}], [], ["omega_classes", "scale_reconstruction"],
     na="The assignment is a k-means result on fitted values, and the window loops work on data-dependent numbers of windows with in-place weights; neither is bounded "
        "by the domains here. Their inputs, state, seeds, options and life-cycle are decided by C01-C04, C07-C10.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mechanism"], "state": list(p["state"]),
                            "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "/usr/bin/python3 check.py --selftest",
         "checks": [{"property": p["id"], "quick_cmd": f"/usr/bin/python3 check.py {p['id']}",
                     "thorough_cmd": f"/usr/bin/python3 check.py {p['id']} --thorough",
                     "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "other",
                     "level_note": p["note"]} for p in P if not p["na"]],
         "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
         "notes": "All checks are static: they parse /repo/pydmd on every run and never import or run it."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
