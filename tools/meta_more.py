UTI = "pykalman/utils/_sklearn.py"

prop("C05", "Learning survives failures: EM is atomic per iteration, resumable and repeatable",
     "For every linear filter, data set with losses and learned set of parameters, a call of em() that "
     "fails or is interrupted inside any numpy, scipy or pykalman call - in any iteration - leaves the "
     "model with exactly the parameters of one of the iterations completed so far (those it had before "
     "the call, when the first one failed), never with a mixture, so that running the remaining "
     "iterations ends where an undisturbed run ends. n iterations in one call, in several calls, or "
     "continued on a pickled or copied model in another process give the same parameters; "
     "em(n_iter=0) changes nothing. Parameters outside em_vars and the data handed in are never "
     "changed. Data of an unusable type are refused without any change.",
     ["fault_sequences", "crash_points", "histories", "inputs"],
     "all models of the linear filters, all data, all learned sets, all places at which a call made by "
     "em() can fail, all splittings of n iterations over calls, processes and restarts",
     "tests call em() once, without failures, on one model per class",
     [STD, CHO, BIE],
     [("all parameters are assigned together, once per iteration", "KalmanFilter.em, CholeskyKalmanFilter.em, BiermanKalmanFilter.em"),
      ("EM updates", "_em and _em_*")],
     observe=["model parameters after em()"],
     note="every plan is compared with an undisturbed twin model that learns in one go; failures are "
     "injected by sys.monitoring at a seeded call")

prop("C06", "EM computes the maximum-likelihood updates and never loses likelihood",
     "One iteration of em() replaces exactly the parameters in em_vars (by default the two covariances "
     "and the initial mean and covariance) by the maximisers of the expected complete-data log likelihood "
     "given the delivered measurements; lost measurements contribute nothing. When the learned "
     "parameters, and the covariance belonging to each learned matrix or offset, are constant in time, "
     "no iteration lowers loglikelihood() of the data. This holds throughout trainings of any length, on "
     "records of any length; learned covariances stay symmetric.",
     ["inputs", "histories", "fault_sequences"],
     "all models of the linear filters, all data sets and loss patterns, all subsets of em_vars, any "
     "number of iterations",
     "tests compare the likelihoods of one run of the default em_vars on one data set without losses in "
     "the middle",
     [STD, CHO, BIE], [("M step", "_em, _em_observation_matrix, _em_observation_covariance, "
                        "_em_transition_matrix, _em_transition_covariance, _em_initial_state_*, _em_*_offset"),
                       ("E step", "_smooth_pair")],
     observe=["em", "loglikelihood"],
     note="oracle: M step written from the expected complete-data likelihood with moments from the joint "
     "Gaussian of the trajectory; likelihood from the same joint Gaussian")

prop("C07", "A failed or interrupted call leaves no trace",
     "When filter, smooth, filter_update, loglikelihood or sample fails part-way - a user-supplied "
     "transition or observation function raises, memory runs out, a linear-algebra routine fails, the "
     "user interrupts - the failure reaches the caller (possibly as cause of another exception) or the "
     "call returns the correct result. The model, the caller's arrays and process-wide settings (numpy "
     "error state, warning filters, global random state) are as before, and the same call repeated gives "
     "the normal result.",
     ["fault_sequences", "crash_points", "inputs", "histories"],
     "all models of all six classes, all calls, all points at which a called routine or user function "
     "can fail",
     "tests never make anything fail",
     ALL + [UTI], [("no state is written by read-only operations", "filter, smooth, filter_update, loglikelihood, sample"),
                   ("exceptions pass through", "_unscented_transform, log_multivariate_normal_density, get_params")],
     observe=["results", "model parameters", "arguments", "numpy.geterr, warnings.filters, numpy.random"],
     note="failures are injected by sys.monitoring at a seeded call or line of library code and by user "
     "callbacks; results after the failure are compared with independent oracles")

prop("C08", "Concurrent, reentrant and earlier use never changes a result",
     "Any number of threads may call filter, smooth, filter_update, loglikelihood and sample on the same "
     "or different models at once, also while a bystander model learns; every result is that of the call "
     "run alone. The same holds for calls made from inside a user-supplied transition or observation "
     "function, and after any history of other calls, failed calls, parameter changes, copies and edits "
     "of returned arrays. Results already returned never change, and models built from the same arrays "
     "are independent. (em() at the same time as readers of the same model is excluded.)",
     ["schedules", "histories", "inputs"],
     "all interleavings (at line granularity) of client programs over all models, all points of "
     "re-entry, all histories of use, misuse and parameter changes",
     "tests use every object once, from one thread",
     ALL, [("no module-level or per-object scratch state", "all modules"),
           ("parameters are read afresh by each call", "_initialize_parameters")],
     observe=["results", "model parameters"],
     note="real threads, parked and released one at a time at lines of library code (sys.monitoring) by "
     "a seeded schedule")

prop("C09", "sample() draws from exactly the declared model, reproducibly",
     "States and observations returned by sample() of all six classes are those of the declared model: "
     "each tick uses its own matrices, offsets, functions and covariances, noise has exactly the declared "
     "covariance (none where it is zero), is Gaussian and independent between ticks and sources, and a "
     "given initial_state is the first state. The same seed gives the same draw whatever else happened in "
     "the process; without a seed the model's own random_state, and then numpy's global generator, is "
     "used; with one, no global generator is touched and no argument or parameter is changed. An object "
     "that is no seed is refused with ValueError.",
     ["histories", "inputs", "schedules"],
     "all models, seeds, sources of randomness, orders of draws, restarts and disturbances",
     "tests only look at the shapes of one sample per class",
     ALL + [UTI, "pykalman/utils/_numpy.py"],
     [("generator selection", "check_random_state, sample"), ("per-tick covariance and functions", "sample")],
     observe=["sample", "numpy.random state"],
     note="samples are turned back into their noise, whitened with the declared covariances and tested at "
     "p < 1e-13; every disturbed process is compared with an undisturbed twin")

prop("C10", "Square-root filters stay exact and positive over long, ill-scaled histories",
     "Over long histories with outages, with priors and sensors many decades apart, the covariances that "
     "filter() of the square-root filters reports are symmetric, positive semi-definite and finite, and "
     "means and covariances keep their accuracy: at least 5 digits for CholeskyKalmanFilter over 6 decades "
     "of prior vagueness and of sensor and process precision each (12 decades between prior and sensor), 4 "
     "digits for BiermanKalmanFilter over 5 decades, 3 for the square-root unscented filter over 3 decades "
     "on affine functions. The plain filter loses all digits on such histories.",
     ["histories", "inputs", "fault_sequences"],
     "all linear-Gaussian models and affine functions within the declared decades, all outage patterns, "
     "any length of history",
     "tests use one well-scaled model",
     [CHO, BIE, SUN],
     [("orthogonal updates of factors", "cholesky._filter_predict, _filter_correct"),
      ("UDU' updates", "bierman.udu, _filter_correct_single, decorrelate_observations"),
      ("QR and Cholesky up- and downdates", "sqrt.unscented.points2moments, cholupdate, _unscented_correct")],
     observe=["filter"],
     note="oracle: Kalman recursion in 50-digit decimal arithmetic; tolerances widen only with the "
     "dynamic range that an unstable system builds up during an outage")

prop("C13", "load_robot() delivers the whole data set or an error, every time",
     "Whatever the disk does - missing files, permission and I/O errors, no file handles, short reads, "
     "files that end early - and wherever memory runs out or the user interrupts, load_robot() returns "
     "the complete data set (all documented items with exactly the stored values, only the first "
     "observation masked) or raises, wherever it is called from and whatever lies in the working "
     "directory. It leaves no file open, and the next call on a healthy disk works. "
     "Data sets are independent of each other and of the caller's edits, and expose every item as an "
     "attribute, also after pickling or copying.",
     ["fault_sequences", "crash_points", "histories", "schedules"],
     "all disk faults at every open and byte, all failure points, all histories of loads, edits, copies "
     "and threads",
     "tests load the data from a healthy disk and use it once",
     ["pykalman/datasets/base.py", UTI],
     [("reading the two files", "load_robot"), ("items as attributes", "Bunch")],
     observe=["load_robot"],
     note="a simulated disk serves the real bytes through builtins.open and injects faults; values are "
     "compared with scipy's reading of the intact file")

prop("C12", "A model that is pickled, copied or moved is the same model",
     "Pickling (every protocol), copy and deepcopy of any filter object preserve its type, all "
     "parameters, em_vars and its random generator: the moved model filters, smooths, updates, samples "
     "and learns exactly as the original would have (em_vars of any kind: default, list, tuple, set, "
     "empty), continuing the same random stream. Using or "
     "changing the copy never changes the original.",
     ["crash_points", "histories", "inputs"],
     "all models of all six classes (picklable functions), all transports, at any point of any history "
     "of calls, draws and learning",
     "tests pickle each class once and check that it does not fail",
     ALL, [("attributes hold the whole state", "__init__ of each class")],
     observe=["all public methods before and after transport"],
     note="a model that travels is compared call by call with a twin that stays")

prop("C16", "Half-deployed configurations are refused, whole ones served with defaults",
     "A tracker restarts from whatever configuration a crashed or partly lost deployment left behind. "
     "When the given parameters (scalars, vectors, square covariance matrices, matrices and arrays with "
     "one of them per timestep, explicit n_dim_state and n_dim_obs) disagree on the number of state or "
     "of observation dimensions, every filter class raises ValueError; otherwise the filter is built, "
     "has those dimensions, keeps every given parameter, and computes with the documented defaults for "
     "the others: identity matrices and functions, identity covariances, zero offsets and initial mean. "
     "A record or sample that runs on beyond the last of time-varying parameters or functions is refused "
     "by filter, smooth, loglikelihood, em and sample.",
     ["histories", "crash_points", "fault_sequences", "inputs"],
     "all sequences of versions, deployments, crash points and lost writes; all shapes and forms of "
     "well-formed parameters",
     "tests try a handful of combinations of two parameters, and no defaults",
     [STD, UNS, "pykalman/utils_numpy.py"], [("dimension inference", "_determine_dimensionality"),
                  ("defaults", "_initialize_parameters, _default_parameters")],
     observe=["constructors", "n_dim_state, n_dim_obs", "filter", "loglikelihood"],
     note="shapes of a configuration store that receives deployments in pieces are checked against the "
     "declared dimensions; what a whole configuration serves, against the joint Gaussian")
prop("C19", "Online tracking can run for ever: bounded work and memory, no drift",
     "However many measurements have been processed, lost or failed before, one filter_update call does "
     "no more work than early in the history, the memory held by the model and by the library and the "
     "size of the pickled model do not grow, and the estimate stays that of the exact recursion. Batch "
     "calls made in between do not change that, and filter, smooth and loglikelihood take work in "
     "proportion to the length of the record.",
     ["histories", "fault_sequences", "inputs"],
     "all models of all six classes, all histories of deliveries, losses, failed calls and batch calls",
     "tests make at most a few dozen updates and look only at the values",
     ALL, [("no history is kept", "filter_update and the batch methods of each class")],
     observe=["filter_update", "size of pickled model", "reachable memory"],
     note="work counted in lines of library code (sys.monitoring), memory as bytes reachable from the "
     "model and the library's modules, estimates against a reference recursion")

# -- pure functions: nothing for a simulator to decide ----------------------------------
prop("C17", "Matrix factorisations reproduce their matrix",
     "udu(M).reconstruct() equals M, the square-root filters' qr and cholupdate equal the factor of the "
     "matrix they stand for, for every symmetric positive semi-definite matrix and every up- or downdate "
     "that stays positive semi-definite.",
     ["inputs"], "all positive semi-definite matrices and vectors", "tests use a few random matrices",
     [BIE, SUN], [("factorisations", "udu, UDU_decomposition.reconstruct, qr, cholupdate")],
     observe=["the functions themselves"],
     na="pure numerical functions of one matrix; their effect on long histories with outages is decided "
     "by C02, C10 and C11")
prop("C18", "Sigma points and unscented transform reproduce mean and covariance",
     "points2moments(moments2points(m)) is m, and the unscented transform of an affine function gives the "
     "exact mean and covariance, for every mean, covariance and choice of alpha, beta and kappa with "
     "non-degenerate weights.",
     ["inputs"], "all means, covariances and weight parameters", "tests use one mean and covariance",
     [UNS, SUN], [("unscented transform", "moments2points, points2moments, unscented_transform")],
     observe=["the functions themselves"],
     na="pure numerical functions of their arguments; what they contribute to tracking histories is "
     "decided by C02, C03 and C11")
