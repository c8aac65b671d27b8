"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/gen.py)."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))


T = "fortuna/training/trainer.py"
prop("C01", "Training loop: every batch once, in order, from the previous state",
     "Unless stopped early, training runs exactly the requested number of epochs, and in each epoch every batch the training loader yields is used in exactly one optimizer step, in the order yielded, each step starting from the parameters and optimizer memory the previous one left. "
     "Callbacks run at epoch start, after every step and at epoch end, in registration order, and training continues from the state they return. "
     "The returned status has one entry per epoch (per validation) for the loss and every metric, each being the mean over that epoch's batches.",
     ["inputs", "configurations", "histories"], "all loaders, batch sizes, epoch counts, callback lists, metric tuples, jitted or not, fresh or resumed",
     "test_train checks that training runs and status has certain lengths on one dataset; no test looks at which batch entered which step, at resumed optimizer state or at what callbacks change",
     [T, "fortuna/training/callback.py", "fortuna/prob_model/posterior/map/map_trainer.py", "fortuna/prob_model/posterior/map/map_posterior.py", "fortuna/prob_model/joint/base.py", "fortuna/likelihood/base.py"],
     [("epoch/batch loop", T), ("callback loop", T), ("MAP loss", "fortuna/prob_model/posterior/map/map_trainer.py")],
     ["state seen by callbacks", "returned status", "fitted state"])
prop("C02", "Gradient accumulation and clipping",
     "With accumulation over k batches, parameters change only once every k consecutive batches, by the optimizer step for the mean of those k batches' gradients, and no batch's gradient is lost, used twice or carried into a later window. "
     "With a maximum gradient norm, each (accumulated) gradient is rescaled to that norm exactly when its norm exceeds it. "
     "Step callbacks and per-step reporting happen once per window.",
     ["inputs", "configurations"], "all k, batch counts (including windows that span epochs), clipping thresholds and optimizers",
     "test_trainer checks one update with hand-made gradients; windows that span several steps and epochs, and the interplay with clipping and checkpoints, are never compared with the batches' gradients",
     [T, "fortuna/utils/training.py"],
     [("accumulated update", T), ("clipping by norm", "fortuna/utils/training.py")], ["state seen by callbacks", "fitted state"])
prop("C03", "Validation cadence and early stopping",
     "Validation happens exactly at the epochs that are multiples of the evaluation period, on the parameters at the end of that epoch. "
     "With patience p > 0, training stops right after the (p+1)-th consecutive validation that did not improve on the best monitored value by more than the minimum delta, and never otherwise; without patience (zero, negative or none) it never stops early. "
     "The stopping decision uses only the monitored metric of the validations performed.",
     ["inputs", "configurations", "histories"], "all sequences of validation scores, patience, minimum delta and evaluation periods",
     "the mixin tests script two or three metric values; the trainer tests mock the decision. No test runs whole trainings whose score sequence makes the counter reset",
     [T, "fortuna/training/mixin.py"],
     [("early-stopping update", "fortuna/training/mixin.py"), ("should validate", T)], ["returned status", "number of epochs run"])
prop("C04", "Checkpoint cadence, retention and restorability during training",
     "With a checkpoint directory and a saving period n, a checkpoint named after the optimizer step is written at every n-th batch of the run; at most the configured number of newest ones is kept, and at the end of training the final state is always saved. "
     "When early stopping is active, every improvement of the monitored metric saves the state at that point and discards older checkpoints. "
     "Every checkpoint found on disk restores exactly the parameters the run had at that step, and restoring the directory yields the newest one.",
     ["configurations", "histories", "inputs"], "all saving periods, retention limits, epoch/batch counts, resumed runs and score sequences",
     "tests only check that a checkpoint exists after training; cadence, retention, improvement saves and contents are not checked",
     [T, "fortuna/training/mixin.py", "fortuna/training/train_state_repository.py"],
     [("saving inside the loop", T), ("save/restore", "fortuna/training/mixin.py")], ["checkpoint directory", "restored states"])
prop("C05", "State store: last write wins, reads do not disturb, members are isolated",
     "A posterior's state store returns, in memory and on disk alike, exactly the state last put or updated (all fields), and reading or extracting never changes what later reads return; pulling a state (unless asked to keep it) or removing it leaves none behind, and reading or updating an empty store is refused and changes nothing. "
     "Updating some variables changes only those variables. "
     "In a store with several members, an operation on one member never changes another and an operation on all members changes each one.",
     ["histories"], "all finite sequences of put, get, pull, update and extract over one or several members, in memory and on disk",
     "test_state makes a few single calls; no test runs a sequence of operations or looks at other members",
     ["fortuna/training/train_state_repository.py", "fortuna/prob_model/posterior/posterior_multi_state_repository.py", "fortuna/prob_model/posterior/posterior_state_repository.py", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py"],
     [("repositories", "fortuna/training/train_state_repository.py")], ["values returned by the store", "files on disk"])
prop("C06", "Saving and loading a model's state reproduces it exactly",
     "For every posterior method and for calibration models, a state saved to a path and loaded into a freshly built model yields the same predictions, log-probabilities and posterior samples (given the same key) as the model that saved it. "
     "Loading from a path without a checkpoint is refused, and saving before anything was fitted is refused.",
     ["configurations", "histories"], "all posterior approximators, in-memory and on-disk states, calibrated or not, and repeated save/load",
     "tests call save_state and load_state and only check that no exception is raised",
     ["fortuna/prob_model/posterior/base.py", "fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py", "fortuna/prob_model/posterior/swag/swag_state.py", "fortuna/prob_model/posterior/laplace/laplace_state.py", "fortuna/prob_model/posterior/normalizing_flow/advi/advi_state.py", "fortuna/calib_model/base.py", "fortuna/output_calib_model/base.py"],
     [("save_state/load_state", "fortuna/prob_model/posterior/base.py"), ("state <-> dict", "fortuna/prob_model/posterior/state.py")], ["predictions and samples before and after"])
prop("C07", "Frozen parameters never move, trainable ones do",
     "When a function marks parameters as frozen, fitting leaves every frozen parameter bit-identical to its starting value, in the fitted state, in every checkpoint and in every posterior sample that the method derives from them, while the trainable ones are updated exactly as if the frozen ones were constants. "
     "The fitted state contains every parameter, frozen or not, under its original path.",
     ["inputs", "configurations"], "all labelings of the parameter tree, posterior methods, accumulation, clipping and resumed fits",
     "test_train freezes one fixed layer and checks that training runs; bit-identity and resumed/checkpointed states are not checked",
     [T, "fortuna/utils/freeze.py", "fortuna/utils/nested_dicts.py", "fortuna/prob_model/posterior/base.py"],
     [("split and merge of parameters", T), ("optimizer freezing", "fortuna/prob_model/posterior/base.py")], ["fitted state", "checkpoints", "samples"])
prop("C08", "Calibration changes only calibration parameters",
     "Calibrating a fitted model changes only its output-calibration parameters: the fitted model parameters, mutable statistics and other stored variables stay bit-identical, for all posterior methods and for every member of an ensemble. "
     "Calibration before any fit is refused, calibration without an output calibrator changes nothing, and predictions made after calibration use the calibrated parameters.",
     ["configurations", "histories"], "all posterior methods, calibrators, and orders of fit, calibrate, load",
     "tests check that calibrate runs and that the status decreases; nothing compares the state before and after",
     ["fortuna/prob_model/base.py", "fortuna/prob_model/prob_model_calibrator.py", "fortuna/output_calib_model/base.py", "fortuna/training/output_calibrator.py", "fortuna/output_calibrator/output_calib_manager/base.py"],
     [("calibrate", "fortuna/prob_model/base.py")], ["state before and after", "predictions"])
prop("C09", "Where a fit starts from",
     "A fit starts from the checkpoint given for restoring if there is one, otherwise from the current state if asked to, otherwise from the result of the preliminary MAP run if one is configured, otherwise from a fresh initialization; a checkpoint of a kind the method cannot start from is refused. "
     "Methods that need a fitted point to start from refuse to fit without one, and asking to dump the state without a directory is refused. "
     "Fitting never modifies the configuration objects the caller passed in.",
     ["configurations", "histories"], "all combinations of restore path, current state, preliminary MAP and method",
     "tests exercise some of the combinations and only check that fit returns",
     ["fortuna/prob_model/posterior/base.py", "fortuna/prob_model/posterior/run_preliminary_map.py", "fortuna/prob_model/posterior/swag/swag_posterior.py", "fortuna/prob_model/posterior/laplace/laplace_posterior.py"],
     [("restore from somewhere", "fortuna/prob_model/posterior/base.py")], ["fitted state", "exceptions", "configuration objects"])
prop("C10", "SGMCMC keeps exactly the states its schedule selects",
     "Stochastic-gradient MCMC stores one posterior state per selected step and no other: with burn-in and thinning, the steps after burn-in at multiples of the thinning interval until the requested number is reached; with a cyclical schedule, the states after the updates of the sampling part of each cycle (those that add noise), at the thinning interval. "
     "Stored states are the chain's states at those steps, in order, and drawing from the posterior returns one of them. "
     "A run too short to collect the requested number of states, or stopped before it has, is refused.",
     ["configurations", "histories"], "all numbers of samples, burn-in, thinning, cycle lengths, exploration ratios, epochs and batches, in memory and on disk",
     "tests run one configuration per method and check only that sampling works",
     ["fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_callback.py", "fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_callback.py", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_sampling_callback.py", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py", "fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py", "fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py"],
     [("sampling callbacks", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_sampling_callback.py")], ["stored states", "samples"])
prop("C11", "Deep ensembles: independent members, each trained as MAP",
     "A deep ensemble of size n consists of n members, each initialized independently and trained by exactly the MAP procedure from its own start, and training or restoring one never affects another. "
     "Drawing from the ensemble always returns one member's complete state, every member can be drawn, and the returned status has one entry per member.",
     ["configurations", "histories"], "all ensemble sizes, start points, checkpoint directories and keys",
     "tests train an ensemble of a fixed size and check that the calls return",
     ["fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py", "fortuna/prob_model/posterior/posterior_multi_state_repository.py"],
     [("member loop", "fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py")], ["member states", "samples", "status"])
prop("C12", "SWAG: moments of the SGD trajectory",
     "SWAG's mean is the average of the parameter vectors visited after each training step of the run, its diagonal is their variance (never negative), and its deviations are the last `rank` differences to the running mean, oldest first. "
     "A sample from the posterior is distributed as the mean plus the diagonal and low-rank noise, and leaves frozen or calibration parameters as they are.",
     ["inputs", "configurations", "histories"], "all trajectories, ranks, epochs and batch counts",
     "tests only check that fit and sample run",
     ["fortuna/prob_model/posterior/swag/swag_trainer.py", "fortuna/prob_model/posterior/swag/swag_posterior.py"],
     [("moment updates", "fortuna/prob_model/posterior/swag/swag_trainer.py")], ["fitted state", "samples"])
L = "fortuna/data/loader/array_loaders.py"
U = "fortuna/data/loader/utils.py"
prop("C13", "Array loaders partition the data and their views agree",
     "Every pass over a loader built from arrays yields each row exactly once, inputs paired with their own targets, in batches of the requested size except a smaller last one (a single batch if no size is given); without shuffling in the original order, with shuffling in one permuted order that is the same on every pass and in every view. "
     "Prefetching changes nothing. "
     "The reported size, number of batches, input shape, number of labels, array views, inputs loader and targets loader all describe the same batches.",
     ["inputs", "configurations", "histories"], "all data sizes, batch sizes, shuffle/prefetch settings, sources and repeated passes",
     "test_data checks a few fixed shapes",
     [L, U, "fortuna/data/loader/base.py", "fortuna/data/loader/huggingface_loaders.py"],
     [("batch generation", U), ("views", "fortuna/data/loader/base.py")], ["batches yielded"])
prop("C14", "Derived loaders: chop, split, sample, transform, combine lose nothing",
     "Splitting a loader at n yields its first n rows and the rest, nothing lost, duplicated or reordered; chopping by d cuts every batch to its largest multiple of d; sampling yields exactly n rows, each batch a selection of one source batch, the same for the same seed in every view; a transform sees every batch once per pass in order, with its status restarted on every pass, and empty results are skipped. "
     "Combining inputs loaders labels every row with its loader's label, and the device-dimension view only reshapes and refuses batches that do not divide. "
     "All of these can be derived from each other and re-iterated with the same result.",
     ["inputs", "programs", "configurations"], "all pipelines of derivations over all sources",
     "test_data checks each derivation once on a fixed loader",
     [L, U, "fortuna/data/loader/base.py"],
     [("derivations", L), ("transforms and combination", U)], ["batches yielded"])
prop("C15", "Predictions and log-probabilities do not depend on batching",
     "For a fixed model state, the draws' outputs and the predictive statistics (log-probability, mean, mode, variances, standard deviation, entropies) of each data point depend only on that point and the posterior key: any partition of the data into batches, in order, on one or several devices, gives the same values. "
     "Every result, target samples and their returned outputs included, has exactly one entry per data point, in data order.",
     ["inputs", "configurations"], "all partitions of the data, statistics, model kinds and distribution over devices",
     "test_predictive only checks shapes for one batch size",
     ["fortuna/prob_model/predictive/base.py", "fortuna/likelihood/base.py", "fortuna/calib_model/predictive/base.py"],
     [("loops over loaders", "fortuna/likelihood/base.py")], ["returned arrays"])
prop("C16", "Predictive statistics are those of the posterior mixture",
     "Predictive mean and log-probability are those of the equal-weight mixture of the likelihoods at the drawn posterior samples, and target samples follow that mixture; the total variance (entropy) is the aleatoric plus the epistemic variance (entropy), neither variance negative, and with one posterior sample the epistemic part vanishes; the standard deviation is the square root of the variance it is given or computes. "
     "The mode is a maximizer of the mean for classification and the mean for regression; quantiles and credible intervals are those of the target samples with the same key. "
     "A credible set holds the most probable labels until their probability exceeds one minus the error (all labels if it never does), and a Bayes-conformal set the labels whose rank among the training scores exceeds the error.",
     ["inputs", "configurations"], "all sets of posterior samples, data and likelihood outputs",
     "test_predictive only checks shapes",
     ["fortuna/prob_model/predictive/base.py", "fortuna/prob_model/predictive/classification.py", "fortuna/prob_model/predictive/regression.py", "fortuna/likelihood/base.py", "fortuna/prob_output_layer/regression.py", "fortuna/prob_output_layer/classification.py", "fortuna/output_calib_model/predictive/base.py"],
     [("mixture statistics", "fortuna/prob_model/predictive/base.py")], ["returned arrays"])
F = "fortuna/conformal/"
prop("C17", "Conformal classification sets contain exactly the conforming labels",
     "For the simple and adaptive methods, given calibration probabilities and labels and an error level, the set of a test point contains a label if and only if the number of calibration scores strictly below that label's score is less than (1-error)(n+1), n being the number of calibration points (simple score: one minus the label's probability; adaptive score: total probability of the labels at least as probable). "
     "CV+ does the same with the scores of all folds together, giving one set per fold's test prediction in fold order. "
     "Smaller errors never give smaller sets, and inputs are not modified.",
     ["inputs"], "all calibration probabilities and targets, test probabilities and error levels",
     "tests check lengths and types of the sets on one or two examples",
     [F + "classification/base.py", F + "classification/simple_prediction.py", F + "classification/adaptive_prediction.py"],
     [("scores and quantile", F + "classification/base.py")], ["returned sets"])
prop("C18", "Conformal regression intervals follow their definitions",
     "Quantiles interpolate linearly: the conformalized-quantile and one-dimensional-uncertainty intervals widen the test bounds (or scale the test uncertainty) by the quantile of the calibration scores at level ceil((n+1)(1-error))/n whenever that level is at most 1; CV+ and jackknife+ return the error and 1-error quantiles of test predictions minus and plus the residuals; jackknife-minmax returns the smallest and largest test prediction minus and plus the 1-error quantile of the residuals. "
     "There is one interval per test point, a smaller error never gives a narrower interval, results do not depend on the order of the calibration points, and the caller's inputs are not modified.",
     ["inputs"], "all calibration data, test predictions and error levels",
     "tests check shapes on fixed random arrays",
     [F + "regression/quantile.py", F + "regression/onedim_uncertainty.py", F + "regression/cvplus.py", F + "regression/jackknifeplus.py", F + "regression/jackknife_minmax.py"],
     [("scores and quantiles", F + "regression/quantile.py")], ["returned intervals"])
prop("C19", "EnbPI: out-of-bag residuals and a sliding window",
     "EnbPI's training residuals for each point use only the bootstrap models that did not train on it; the first interval of a test point is centred on the (1-error) quantile, over the training points, of its out-of-bag aggregated predictions and later ones on the aggregate over all models, with the (1-error) quantile of the current residuals as half width. "
     "When new targets arrive, the residual window drops its oldest residuals and appends the new ones in order, always keeping its length.",
     ["inputs", "histories"], "all bootstrap index matrices, predictions, aggregation choices and sequences of updates",
     "tests check shapes",
     [F + "regression/enbpi.py"], [("residuals and window", F + "regression/enbpi.py")], ["returned intervals and residuals"])
prop("C20", "Adaptive conformal error follows its update rule",
     "The adaptive error after each observation equals the previous error plus gamma times (target error minus the weighted rate of recent misses), clipped to [0, 1], so that a miss never raises it above and a hit never lowers it below what the rule gives. "
     "Invalid weights or miss histories are refused, and inputs are not modified.",
     ["histories", "inputs"], "all sequences of sets/intervals and targets, weights, gammas and errors",
     "tests run one example per class",
     [F + "classification/adaptive_conformal_classifier.py", F + "regression/adaptive_conformal_regressor.py"],
     [("error update", F + "regression/adaptive_conformal_regressor.py")], ["returned errors"])
prop("C21", "Iterative multicalibration: recorded patches replay the calibration",
     "Iterative multivalid calibration applies, round after round, one patch that moves the values of the worst calibrated group and level set, records every patch it keeps in order (all but a last one that brought no sufficient improvement), and stops only for a documented reason (round limit, tolerance reached, no improvement, no group large enough); the k-th recorded loss is the method's loss on the held-out data after the first k patches. "
     "Applying the recorded patches to any initial values replays those moves exactly, which is what the calibrated test values returned are. "
     "Values stay in [0, 1], and without patches values are returned unchanged.",
     ["inputs", "histories"], "all scores, groups, initial values, bucket counts, tolerances, patch types and splits",
     "tests check that calls return and some shapes",
     [F + "multivalid/iterative/base.py", F + "multivalid/iterative/multicalibrator.py", F + "multivalid/iterative/classification/binary_multicalibrator.py", F + "multivalid/iterative/classification/top_label_multicalibrator.py", F + "multivalid/iterative/batch_mvp.py"],
     [("calibrate loop", F + "multivalid/iterative/base.py")], ["status", "patches", "returned values"])
prop("C22", "One-shot multicalibration patches each value by its own bucket",
     "One-shot multicalibration replaces every value by the mean outcome of the calibration values in its bucket if that bucket holds more than the minimum fraction of the calibration data, and by the bucket's own value otherwise (for the top-label method: only the value of the predicted class, among calibration points with that predicted class). "
     "A value's result does not depend on which other values it is calibrated with, and applying the patches later gives the same result as during calibration. "
     "Calibrated values stay in [0, 1].",
     ["inputs"], "all scores, groups, values and bucket counts",
     "tests check that calls return and some shapes",
     [F + "multivalid/one_shot/base.py", F + "multivalid/one_shot/classification/binary_multicalibrator.py"],
     [("one-shot calibrate", F + "multivalid/one_shot/base.py")], ["returned values"])
prop("C23", "Parameter paths: get, set, update and labels are consistent",
     "Setting values at paths of a nested parameter dictionary changes exactly those paths and getting them returns the values set; setting a path that does not exist is refused unless allowed; updating merges recursively; pairing two dictionaries keeps both values at every path; none of these modify their inputs. "
     "Labelling a parameter tree partitions its leaves: every leaf is in exactly one of the trainable and frozen path sets.",
     ["inputs"], "all nested dictionaries, path lists and labelings",
     "tests check a handful of fixed dictionaries",
     ["fortuna/utils/nested_dicts.py", "fortuna/utils/freeze.py"], [("nested operations", "fortuna/utils/nested_dicts.py")], ["returned dictionaries"])
prop("C24", "Random keys are never reused and runs are reproducible",
     "Two models built and used identically with the same seed produce identical fits, samples and predictions, and different seeds give different ones; passing an explicit key makes a result independent of everything drawn before. "
     "Keys handed out by a model's generator are pairwise different and shared by all its parts, so consecutive random operations are not repeats of each other.",
     ["histories", "configurations"], "all sequences of random operations and seeds",
     "no test compares two runs",
     ["fortuna/utils/random.py", "fortuna/prob_model/base.py", "fortuna/prob_model/predictive/base.py"], [("generator", "fortuna/utils/random.py")], ["keys", "samples", "predictions"])
prop("C25", "Classification metrics and binary temperature scalers",
     "Accuracy, calibration errors, Brier scores and confidence bins computed from predictions, probabilities and targets equal their counting definitions over the confidence bins, each prediction falling in exactly one bin. "
     "Binary temperature scalers multiply the probabilities by a factor chosen to meet their criterion and clip to [0, 1].",
     ["inputs"], "all predictions, probabilities and targets",
     "test_metric checks one value; scalers are checked on one example",
     ["fortuna/metric/classification.py", "fortuna/metric/regression.py", "fortuna/calibration/binary_classification/temp_scaling/base.py"], [("metrics", "fortuna/metric/classification.py")], ["returned values"])

M = "fortuna/prob_model/posterior/sgmcmc/"
prop("C26", "SGMCMC updates follow the integrator and its step-size schedule",
     "With step size e given by the schedule at each step, SGHMC moves the momentum to friction times itself plus sqrt(e) times the gradient plus noise of variance 2 (1 - friction) and the parameters by sqrt(e) times the momentum; cyclical SGLD does gradient steps in the exploration part of a cycle and Langevin steps (full friction) in its sampling part, with a cosine step size that restarts every cycle. "
     "Noise is Gaussian, fresh at every step and parameter, and the preconditioner rescales gradient, noise and step as its name says.",
     ["configurations", "histories"], "all schedules, friction values, preconditioners, cycle lengths and ratios",
     "tests only run the integrators on a toy problem and check that they return",
     [M + "sgmcmc_step_schedule.py", M + "sgmcmc_preconditioner.py", M + "sghmc/sghmc_integrator.py", M + "cyclical_sgld/cyclical_sgld_integrator.py"],
     [("integrators", M + "sghmc/sghmc_integrator.py")], ["parameter updates"])
Q = "fortuna/prob_model/posterior/"
prop("C27", "Laplace and ADVI posteriors hold and draw the Gaussian they describe",
     "The Laplace posterior is centred at the fitted parameters with precision the prior's plus the diagonal generalized Gauss-Newton curvature of the likelihood over the training data; its prior variance tuning returns the candidate with the best validation log-probability. "
     "Draws from Laplace and ADVI are Gaussian with the held mean and standard deviations, independent across parameters, and leave frozen and calibration parameters as they are; saving and loading changes neither.",
     ["inputs", "configurations", "histories"], "all models, data, priors and freezing",
     "tests only check that fit and sample run",
     [Q + "laplace/laplace_posterior.py", Q + "normalizing_flow/advi/advi_posterior.py", Q + "normalizing_flow/advi/advi_architecture.py"],
     [("curvature and sampling", Q + "laplace/laplace_posterior.py")], ["fitted state", "samples"])
