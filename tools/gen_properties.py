#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts are reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

A = 'qtune/autotuner.py'; T = 'qtune/parameter_tuner.py'; S = 'qtune/solver.py'; G = 'qtune/gradient.py'
K = 'qtune/kalman_gradient.py'; U = 'qtune/util.py'; ST = 'qtune/storage.py'; E = 'qtune/evaluator.py'; H = 'qtune/history.py'

prop('C01', 'Each tuning iteration performs exactly one legal step',
     'Every call of the autotuner\'s iterate does exactly one thing, chosen by the stored state: if voltages are pending it applies them to the experiment; otherwise, if the current group has not been evaluated (or was found tuned) it evaluates the current group once at the voltages the experiment reports; otherwise it asks the current group once for new voltages and makes them pending. '
     'The position in the hierarchy returns to the bottom when voltages are applied, moves up by exactly one when the evaluated group reports tuned, and is unchanged otherwise; the group counts as evaluated-and-untuned only right after it reported not tuned. '
     'When tuning is complete, iterate raises and changes nothing.',
     ['histories', 'inputs', 'configurations'],
     'every reachable autotuner state, every hierarchy length, every verdict and proposal a group can return',
     'no existing test exercises the autotuner at all; tests sample no state of the state machine, let alone every hierarchy length and verdict sequence',
     [A], [('Autotuner.iterate', A), ('Autotuner.is_tuning_complete', A), ('Autotuner.get_current_tuner', A)],
     [('_current_tuner_index', 'position in the hierarchy', A), ('_current_tuner_status', 'current group evaluated and found untuned', A), ('_voltages_to_set', 'pending proposal', A)],
     ['Autotuner.current_tuner_index', 'Autotuner.voltages_to_set', 'Autotuner.current_tuner_status', 'calls on the experiment and on the groups'])

prop('C02', 'Completion and new proposals rest on up-to-date evaluations',
     'The autotuner reports tuning complete only if every group of the hierarchy, in order, has reported tuned at an evaluation made after the most recent voltage change, target change and restart. '
     'New voltages are asked of a group only if that group\'s own evaluation after the most recent voltage change, target change and restart reported not tuned. '
     'This holds along every sequence of iterate, change_targets and restart calls starting from a fresh autotuner.',
     ['histories', 'inputs'],
     'every finite sequence of public operations and every sequence of verdicts, for every hierarchy length',
     'it is an invariant over unbounded call histories with interleaved restarts and target changes; no test runs even one such history',
     [A], [('Autotuner.iterate', A), ('Autotuner.change_targets', A), ('Autotuner.restart', A), ('Autotuner.is_tuning_complete', A)],
     [('_current_tuner_index', 'number of groups confirmed tuned', A), ('_current_tuner_status', 'current group evaluated and untuned', A)],
     ['Autotuner.is_tuning_complete', 'order of is_tuned/get_next_voltages/set_gate_voltages calls'])

prop('C03', 'Only intact proposals reach the experiment, exactly once',
     'The autotuner changes the experiment\'s voltages only by handing over exactly the voltages last proposed by the current group, unchanged and at most once per proposal. '
     'A pending proposal that contains NaN for any gate, or names a gate the experiment does not have, is refused: iterate raises, nothing is sent to the experiment, and the state is unchanged. '
     'No other autotuner operation sets voltages on the experiment.',
     ['inputs', 'histories'],
     'every proposal over every set of gates, including NaN entries and unknown gates, in every state',
     'depends on every combination of gate set and NaN position; tests never apply a proposal to an experiment',
     [A], [('Autotuner.iterate', A), ('Autotuner.ready_to_tune', A)],
     [('_voltages_to_set', 'pending proposal', A)], ['Experiment.set_gate_voltages calls'])

prop('C04', 'Groups learn exactly which parameters are already tuned',
     'When a group is asked for new voltages it is given exactly the set of parameters of the groups below it in the hierarchy for which every target category used by their group (category not NaN for the whole group) is specified. '
     'Parameters of the asking group and of groups above it, and parameters with a missing target entry, are never included.',
     ['inputs', 'configurations'],
     'every hierarchy length and position, every set of parameters per group and every pattern of NaN target entries',
     'needs all NaN patterns over target tables of all groups at all positions; untested today',
     [A], [('Autotuner.tuned_parameters', A), ('Autotuner.iterate', A)], (), ['Autotuner.tuned_parameters', 'argument of get_next_voltages'])

prop('C05', 'Steps of a gate group are limited in length and keep their direction',
     'The voltages proposed by a subset tuner (no evaluation failure) differ from the last voltages by the solver\'s suggested step, restricted to the gates the solver suggests; all other gates keep their value exactly. '
     'If that step is longer than the maximal step size it is shortened to exactly the maximal size without changing its direction, otherwise it is taken unchanged. '
     'When a shortened step starts a sequence, the number of further sub-steps taken without re-evaluating is smaller than both the maximal step number and the number of maximal steps contained in the full step, it drops by one with each shortened step, and is zero after a step that needed no shortening.',
     ['inputs', 'histories'],
     'every set of gates, every voltage vector, every solver suggestion (any subset of gates), every maximal step size and number',
     'tests check a single 3-gate example for one step size; direction, untouched gates and the queue for all sizes are not covered',
     [T], [('SubsetTuner.get_next_voltages', T)], [('_number_queued_steps', 'sub-steps still to take before re-evaluating', T)],
     ['return value of SubsetTuner.get_next_voltages'])

prop('C06', 'A gate group is tuned exactly when all targets are met in tolerance',
     'When no sub-steps are queued, a subset tuner evaluates its parameters exactly once, rescales them by the target\'s rescaling factors, and reports tuned if and only if for every parameter the distance to the desired value is strictly less than the tolerance, where a missing desired value counts as distance zero and a missing tolerance as infinite. '
     'After each successful evaluation the solver is given exactly the rescaled values and variances for these voltages once, and the voltages are recorded as tuned only if the verdict is tuned. '
     'With sub-steps queued it reports not tuned without evaluating and only moves the solver\'s position.',
     ['inputs', 'histories'],
     'every parameter set, value, variance, target table with any NaN pattern, rescaling factor, and voltage vector',
     'tests try two value pairs with unit rescaling and complete targets; boundary equality, NaN patterns and rescaling are not covered',
     [T, S], [('SubsetTuner.is_tuned', T), ('ParameterTuner.evaluate', T), ('Solver.rescale_values', S)],
     [('_tuned_voltages', 'voltages judged tuned', T), ('_last_parameter_values', 'last rescaled values', T)],
     ['return value of SubsetTuner.is_tuned', 'solver.update_after_step arguments'])

prop('C07', 'A failed evaluation never counts as tuned and triggers a retreat',
     'If the evaluation of a group yields NaN for any parameter the group relies on, the group reports not tuned, records the failure, does not pass the values to its solver and does not record the voltages as tuned or evaluatable. '
     'The next proposal is then exactly the midpoint between the last voltages and the most recent voltages known to be good (evaluatable for a subset tuner, tuned for a sensing dot tuner). '
     'A later successful evaluation ends the failure state.',
     ['inputs', 'histories', 'fault_sequences'],
     'every pattern of NaN results over every parameter set, every sequence of failing and succeeding evaluations',
     'one unit test covers a single failing parameter (and fails today for pandas reasons in one class); sequences and partial failures are untested',
     [T], [('SubsetTuner.is_tuned', T), ('SubsetTuner.get_next_voltages', T), ('SensingDotTuner.is_tuned', T), ('SensingDotTuner.get_next_voltages', T)],
     [('_last_evaluation_failed', 'failure flag', T), ('_evaluatable_voltages', 'voltages with successful evaluations', T)],
     ['return values of is_tuned and get_next_voltages'])

prop('C08', 'The sensing dot is judged by its minima; costly scans only when needed',
     'A sensing dot tuner runs each cheap evaluator exactly once per evaluation and reports tuned (recording the voltages) if and only if no cheaply measured, rescaled parameter is NaN or at or below its minimum. '
     'The expensive evaluators run, once each, if and only if the dot is not tuned by that test and some cheap parameter is at or below its cost threshold. '
     'When not tuned (without failure) the solver is given the values and variances of the last measurement made, once, and the stored last parameter values are updated for exactly the measured parameters.',
     ['inputs', 'configurations'],
     'all parameter sets and values, minima and thresholds with any NaN pattern, any number of evaluators',
     'tests exercise one two-evaluator example; equality at thresholds, NaN thresholds and partial parameter overlap are not covered',
     [T], [('SensingDotTuner.is_tuned', T), ('SensingDotTuner.evaluate', T)], [('cheap_evaluation_only', 'whether the last evaluation was cheap', T)],
     ['return value of SensingDotTuner.is_tuned', 'evaluator and solver calls'])

prop('C09', 'The Newton solver proposes the least-squares step to the targets',
     'If no gradient estimator of a parameter with a desired value requests a measurement, the suggested position is the current position plus the least-squares solution of (estimated gradients) x step = (desired - current values), on exactly the solver\'s gates, where parameters without desired value are asked to stay unchanged. '
     'If one does request a measurement, the first such request in parameter order is returned unchanged and no Newton step is made; estimators of parameters without desired value are never asked. '
     'Each asked estimator receives the solver\'s gates and the gradients (on those gates) of exactly those own parameters that are reported as already tuned.',
     ['inputs', 'configurations'],
     'every number of parameters and gates, every gradient, target (with NaN entries), current value, set of tuned parameters and request pattern',
     'tests use 3x3 fully specified systems without requests; NaN targets, rectangular systems, requests and tuned parameters are untested',
     [S], [('NewtonSolver.suggest_next_position', S), ('NewtonSolver.jacobian', S)], (), ['return value of suggest_next_position'])

prop('C10', 'Measured values reach the right gradient estimator',
     'After a step the Newton solver updates the gradient estimator of every parameter that has a desired value exactly once, with the measured position, that parameter\'s own value and that parameter\'s own variance, matched by name whatever the order of the entries. '
     'Estimators of parameters without desired value are not updated. '
     'Afterwards the solver\'s current position and values are the measured ones for exactly its own gates and parameters.',
     ['inputs', 'configurations'],
     'all parameter and gate sets, all orders of the entries of values and variances, extra entries, NaN targets',
     'the single test passes names in one order only, for which matching by position and by name coincide',
     [S], [('NewtonSolver.update_after_step', S)], [('_current_values', 'last values of the solver\'s parameters', S)],
     ['arguments of GradientEstimator.update', 'NewtonSolver.current_position'])

prop('C11', 'The forwarding solver moves exactly the mapped gates',
     'After an update the suggested position equals the measured position, except that every gate mapped from a measured parameter is set to that parameter\'s value converted back to its original scale. '
     'Gates not named by the mapping of a measured parameter follow the measured position (or keep their previous suggestion if the measured position does not contain them), and no gate outside the solver\'s position is ever suggested.',
     ['inputs', 'configurations'],
     'every mapping, every subset of measured parameters and gates, every rescaling factor',
     'the one test measures all parameters with unit scale; partial measurements and rescaling are not covered',
     [S], [('ForwardingSolver.update_after_step', S), ('ForwardingSolver.suggest_next_position', S), ('Solver.descale_values', S)],
     [('_next_position', 'next suggestion', S)], ['return value of suggest_next_position'])

prop('C12', 'Rescaling and descaling are exact inverses by name',
     'Rescaling divides each value by its parameter\'s factor and each variance by the factor squared; descaling multiplies likewise; parameters without factor are left alone, and entries are matched by name in any order. '
     'Rescaling followed by descaling restores values and variances.',
     ['inputs'], 'all parameter sets, orders, factors (nonzero), values and variances',
     'tests only use factor one', [S], [('Solver.rescale_values', S), ('Solver.descale_values', S)], (), ['values after rescale_values/descale_values'])

prop('C13', 'Finite differences recover the gradient of any affine function',
     'If the measured values depend affinely on the positions and the differences span the space, the finite-difference gradient (one-sided and symmetric) equals the true slope, and its covariance is the propagated covariance inv(D)^T diag(variances of the differences) inv(D). '
     'Degenerate differences raise the evaluation error and a wrong number of points a runtime error, never a wrong gradient. '
     'The vector used to pick the next measurement is a unit vector orthogonal to all differences measured so far, so a full set of requested measurements is never degenerate; a measurement of the centre reported in between is no part of a symmetric set.',
     ['inputs', 'configurations'],
     'all dimensions, all non-degenerate positions, slopes, offsets and variances',
     'tests check two fixed 3-dimensional point sets and never the covariance',
     [U, G], [('calculate_gradient_non_orthogonal', U), ('gradient_min_evaluations', U), ('get_orthogonal_vector', U), ('FiniteDifferencesGradientEstimator.require_measurement', G), ('FiniteDifferencesGradientEstimator.update', G)],
     [('_stored_measurements', 'measurements collected so far', G)], ['FiniteDifferencesGradientEstimator.estimate/covariance'])

prop('C14', 'The Kalman estimator learns from each move relative to its baseline',
     'A Kalman gradient estimator feeds its filter exactly one measurement per update: the change of position since the baseline, the change of value since the baseline and the given variance; it feeds nothing if the position did not move or if there is no baseline yet. '
     'The baseline position and value are replaced by the new ones exactly when the update is flagged as the new position or when there was no baseline. '
     'The filter update applies the measurement to the gradient entries of each value separately, so the gradient and covariance are the standard Kalman posterior.',
     ['inputs', 'histories'],
     'all gate sets and orders, positions, values and variances, both flags, all dimensions',
     'tests perform one update and only check that a threshold is no longer exceeded',
     [G, K], [('KalmanGradientEstimator.update', G), ('KalmanGradient.update', K), ('KalmanGradient.grad', K)],
     [('_current_value', 'baseline value', G), ('_current_position', 'baseline position', G)],
     ['KalmanGradientEstimator.estimate/covariance', 'calls of the filter'])

prop('C15', 'Kalman measurement requests follow the uncertainty threshold',
     'Without already-tuned gradients, a measurement is requested if and only if some eigenvector of the covariance restricted to the given gates, scaled by its eigenvalue and divided per gate by the maximum covariance, is longer than one; the request is the current position displaced along the longest of these, scaled per gate by epsilon, with every gate outside the given ones unchanged. '
     'With already-tuned gradients, a measurement is requested if and only if the variance along some unit vector of the computed basis of their null space exceeds the largest maximum covariance, and the displacement is epsilon times the one of these vectors with the largest variance. '
     'If nothing is requested the result is empty and no state changes.',
     ['inputs', 'configurations'],
     'all covariances, thresholds, epsilons, gate subsets and tuned gradients of any dimension',
     'tests use one diagonal 3x3 covariance and one tuned jacobian',
     [G], [('KalmanGradientEstimator.require_measurement', G)], (), ['return value of require_measurement'])

prop('C16', 'The Nelder-Mead simplex stays complete, measured and never loses its best',
     'Once the simplex is built it keeps exactly one more vertex than there are gates, sorted by cost, and every vertex is a position together with the values measured there. '
     'The best cost in the simplex never increases, and a measured point that was requested as contraction and is cheaper than the point it competes with (the reflected point outside, the worst vertex inside), or that was given unrequested and is cheaper than the worst vertex, always enters it. '
     'Every suggestion is computed from the present simplex (reflection, expansion or contraction of the worst vertex at the mean, or the next shrink towards the best) and covers exactly the solver\'s gates.',
     ['inputs', 'histories'],
     'every state of the search, every simplex, every measured value sequence, any number of gates',
     'there is no test of this solver at all',
     [S], [('NelderMeadSolver.update_after_step', S), ('NelderMeadSolver.suggest_next_position', S)],
     [('_simplex', 'vertices with their values', S), ('_state', 'phase of the search', S)], ['NelderMeadSolver.simplex', 'NelderMeadSolver.suggest_next_position'])

prop('C17', 'What is stored in HDF5 is read back equal, with sharing preserved',
     'Every value built from numbers, booleans, strings, None, arrays of numbers or (at least one) strings with at least one dimension, series of numbers or strings and tables of numbers with unique text or number labels, lists, tuples, dictionaries with text keys and serializable objects is read back with equal content, labels, order of labels and sequences, and container type. '
     'An object stored in several places is read back as one shared object, two distinct objects are never merged, and reserved objects come back as the reserved ones given at load time. '
     'Values that have no such representation (sets, byte strings, functions and other objects, integers beyond 64 bits, arrays, series and tables of mixed or other kinds, keys that are no text or that HDF5 would split or truncate) are refused with an error instead of being stored wrongly.',
     ['inputs'], 'all nested values of these kinds, of any depth, size and sharing pattern',
     'tests store a handful of small structures; identity of temporaries, several similar objects and strings are not covered (the string test fails today)',
     [ST], [('_to_hdf5', ST), ('_from_hdf5', ST), ('to_hdf5', ST), ('from_hdf5', ST)], [('serialized', 'objects already written', ST), ('deserialized', 'objects already read', ST)],
     ['from_hdf5(to_hdf5(x))'])

prop('C18', 'A stored program state restores an equivalent program',
     'For every serializable class of the tuning program (autotuner, tuners, solvers, gradient estimators, Kalman filter, evaluators, measurements) rebuilding an object from its stored constructor arguments succeeds in every reachable state and yields an object with the same stored state. '
     'All state that influences later decisions (tuning position, status, pending voltages, failure flags, voltage histories, queued steps, measurements collected so far, estimates, search phase, evaluator settings) survives, so that the rebuilt object, given the same measurements, takes the same decisions and returns the same results as the original from then on. '
     '(Not part of the stored state: the time-stamped sub folder that a rebuilt autotuner with a storage folder appends. A cost function given as a function has no stored form, so that storing such a solver is refused.)',
     ['crash_points', 'histories', 'configurations'],
     'every point of a tuning run at which the state is saved, every class and every field value',
     'only one estimator class is round-tripped, in one state',
     [A, T, S, G, K, E, 'qtune/experiment.py'], [('to_hdf5 methods and constructors', 'all classes using HDF5Serializable')], (), ['obj.to_hdf5()', 'type(obj)(**obj.to_hdf5())'])

prop('C19', 'The background writer stores snapshots in order and accounts for each task',
     'A write request captures the object and the reserved objects as they are at the time of the request; later changes do not affect what is stored, and sharing with reserved objects is kept. '
     'The worker processes requests in the order given, stops at the stop marker, and acknowledges every request exactly once even if writing it fails, in which case the error is logged and raised. '
     'Stopping the writer never waits for a worker that has already ended. '
     'Writing after the worker has stopped raises instead of losing data silently.',
     ['histories', 'fault_sequences'], 'every sequence of requests and failures, every state of the objects',
     'no test uses the writer', [ST], [('_writer_target', ST), ('AsynchronousHDF5Writer.write', ST), ('AsynchronousHDF5Writer.join', ST)], [('_queue', 'pending requests', ST)],
     ['files written', 'queue accounting'])

prop('C20', 'Restart and retargeting rebase the whole program consistently',
     'After a restart the tuning position is at the bottom with nothing pending and nothing evaluated, and every group, its solver and its gradient estimators refer to the voltages the experiment reports now, for all gates they know; previously recorded tuned or evaluatable voltages are untouched. '
     'After a restart a Kalman estimator has no baseline value, so that the next measurement is not interpreted as a difference. '
     'After a target change exactly the named entries of exactly the named groups\' targets have the new values, and the tuning position is at the bottom with nothing pending and nothing evaluated.',
     ['histories', 'inputs', 'configurations'], 'every state, every number of groups and gates, every subset of gates known to a group, every target change',
     'no test restarts or retargets anything', [A, T, S, G],
     [('Autotuner.restart', A), ('Autotuner.change_targets', A), ('ParameterTuner.restart', T), ('ParameterTuner.last_voltages', T), ('NewtonSolver.restart', S), ('Solver.current_position', S), ('Solver.target', S), ('GradientEstimator.current_position', G), ('KalmanGradientEstimator.restart', G)],
     [('_last_voltage', 'last voltages of a group', T), ('_current_position', 'position of solver or estimator', S)],
     ['last_voltages', 'current_position', 'target', 'current_tuner_index'])

prop('C21', 'Averaged evaluations report the mean and the error of the mean',
     'An averaging evaluator evaluates its inner evaluator exactly the requested number of times and reports, for every parameter, the mean of the non-NaN results and their (population) variance divided by the number of non-NaN results, matched by name. '
     'The raw data of every repetition is kept in order, fresh for each evaluation.',
     ['inputs'], 'every number of repetitions, parameter set and result, including NaN results', 'untested today',
     [E], [('AveragingEvaluator.evaluate', E)], (), ['return value of AveragingEvaluator.evaluate'])

prop('C22', 'Evaluators restore the gates and report failed fits as NaN',
     'When the lead-transition evaluation returns, or fails because one of its measurements fails, the experiment is set to exactly the voltages it had before; for each measurement it was displaced on exactly the assigned shifting gate by minus the charge-diagram width, measured once in that position, and nothing else was changed. '
     'If the optimiser gives up on the fit (of finite data) in the tunnel-coupling or load-time evaluation, the evaluation does not raise but reports NaN for exactly its parameter.',
     ['inputs', 'fault_sequences'], 'all gate sets and voltages, any number of measurements, every fit failure', 'no test covers the evaluators',
     [E], [('LeadTransition.evaluate', E), ('InterDotTCByLineScan.evaluate', E), ('NewLoadTime.evaluate', E)], (), ['Experiment.set_gate_voltages calls', 'return value of evaluate'])

prop('C23', 'Incoherent gate names are always refused',
     'The autotuner is ready to tune if and only if all gates of the last voltages, of the solver position and of the gradient estimators of every group exist in the experiment, and the gates a subset tuner tunes are covered by each of its Newton gradient estimators. '
     'If it is not ready, iterate raises before evaluating, computing or setting anything.',
     ['configurations', 'inputs'], 'every hierarchy length, number of estimators and combination of gate sets', 'no test covers this check',
     [A], [('Autotuner.ready_to_tune', A), ('Autotuner.iterate', A)], (), ['Autotuner.ready_to_tune'])

prop('C24', 'Signal-processing helpers compute their defining formula',
     'The n-th difference of a signal is the element minus the element n places later at every position; the moving average at each position is the mean of the last width elements (fewer at the start); the lead-transition index is the centre of the window with the largest absolute difference of signal across the window, among the windows that end before the last element. '
     'None of these functions changes the data passed in.',
     ['inputs'], 'all signals of any length, all valid widths', 'untested today',
     [U], [('nth_diff', U), ('moving_average_filter', U), ('new_find_lead_transition_index', U), ('find_lead_transition', U)], (), ['return values', 'argument after the call'])

prop('C25', 'Target tables are aligned by name with sound defaults',
     'A target table has exactly the parameters of the first per-parameter specification given, in that order; every per-parameter specification is matched by name, a single number applies to all parameters, omitted categories are NaN, and an omitted rescaling factor is one. '
     'Without any per-parameter specification, building a target raises.',
     ['inputs'], 'all parameter sets, orders and combinations of per-parameter, scalar and omitted specifications', 'tests only use two categories with equal order',
     [S], [('make_target', S)], (), ['return value of make_target'])

prop('C26', 'Every iteration is saved as a snapshot of the new state',
     'With a storage folder, each successful iteration requests exactly one write of the autotuner, after its state change, to a file inside that folder which then is the last save file; the folder is created if missing. '
     'Without a storage folder nothing is written, and an iteration that raises writes nothing.',
     ['histories', 'crash_points'], 'every state and every kind of iteration', 'no test runs an iteration',
     [A], [('Autotuner.save_current_status', A), ('Autotuner.iterate', A)], [('last_save_file', 'path of the newest snapshot', A)], ['writer requests', 'Autotuner.last_save_file'])

prop('C27', 'The self-initializing estimator hands over to the Kalman filter correctly',
     'A self-initializing Kalman estimator behaves as the finite-difference estimator until that has collected a full set of measurements; at that moment it starts a Kalman estimator with exactly the finite-difference gradient and covariance, based at the position and value just measured, and behaves as that Kalman estimator from then on. '
     'The hand-over happens exactly once and uses the configured Kalman options.',
     ['histories', 'inputs'], 'all dimensions, measurements and configurations', 'untested today',
     [G], [('SelfInitializingKalmanEstimator.update', G), ('SelfInitializingKalmanEstimator.active_estimator', G)], (), ['estimate/covariance/require_measurement before and after hand-over'])

prop('C31', 'Scan evaluations report what the fit or the scan shows, under the right names',
     'Each scan evaluation requests exactly its configured measurements, each once, around the present voltages where it sweeps a gate, and leaves all gate voltages as they were. '
     'On a scan that follows the device model, the reported tunnel coupling, load time and lead tunnel times are those of the model (with the configured sample rate), whatever the other model parameters. '
     'The lead transition reported for a gate is the position of the steepest window of that gate\'s own scan, and a sensing-dot scan reports the position of steepest slope of the scan inside the margins, the slope at the present voltage and the best slope. '
     'Values and variances are labelled with the parameter they belong to; a scan that cannot be fitted is reported as NaN for that parameter (tunnel coupling and load time).',
     ['inputs', 'fault_sequences'], 'all model parameters, scan settings, gates and scans',
     'no test runs an evaluator on a scan (one of them raised on every call)', [E],
     [('LeadTransition.evaluate', E), ('InterDotTCByLineScan.evaluate', E), ('NewLoadTime.evaluate', E), ('LeadTunnelTimePrefitVersion.evaluate', E), ('LeadTunnelTimeByLeadScan.evaluate', E), ('SensingDot1D.evaluate', E), ('SensingDot2D.evaluate', E)],
     (), ['Evaluator.evaluate', 'calls on the experiment'])

prop('C28', 'The history keeps one row per voltage setting with its parameters',
     'Appending a sequence of autotuner states to a history yields one row for each maximal run of states with equal voltages, in order; each row carries these voltages and, for every group evaluated during the run, its last parameter values and variances, its gradient estimates with their covariances and the raw data of its evaluations. '
     'The reload path of a row is the path of the last state appended to it.',
     ['histories', 'inputs'], 'every sequence of states of every hierarchy', 'untested today',
     [H], [('History.append_autotuner', H), ('History.read_autotuner_to_data_frame', H), ('extract_parameters_from_hierarchy', H), ('extract_gradients_from_hierarchy', H)], (), ['History.get_gate_values', 'History.get_parameter_values', 'History.get_reload_path'])

prop('C29', 'Starting, stepping and pausing from the GUI never runs two tuning loops',
     'Whatever the sequence of start, step, pause and close actions and however they interleave with the worker, the actions succeed and at most one worker executes tuning iterations at any time. '
     'After a pause or a close at most the iteration already under way is finished and no further one begins; close returns with the worker ended, also while the tuning is running. '
     'A step requested while idle executes one iteration; a start executes iterations until the tuning is complete, an iteration fails or a pause is requested, and can be repeated after any of these, even if the worker died. '
     'Every iteration that succeeded is appended to the history once.',
     ['schedules', 'histories'], 'every sequence of user actions, every interleaving with the worker thread and every outcome of the iterations',
     'needs thread interleavings and a running IPython/Qt shell; there is no test of the user interface (start raised on every call)',
     ['qtune/gui.py'], [('GUI._work', 'qtune/gui.py'), ('GUI.start', 'qtune/gui.py'), ('GUI.step', 'qtune/gui.py'), ('GUI.pause', 'qtune/gui.py'), ('GUI.close', 'qtune/gui.py'), ('GUI.restart_thread', 'qtune/gui.py')],
     [('_continuous, _stepped, _stop', 'orders for the worker', 'qtune/gui.py')], ['calls of Autotuner.iterate by the worker', 'History.append_autotuner calls'])

prop('C30', 'Python indices address the same elements of MATLAB objects',
     'For every Python index (an integer inside the sequence, a slice with bounds inside the sequence and any step, or a tuple of these, one per dimension; negative numbers count from the end), the MATLAB index expression produced by transform_index, and the one an indexed view of a struct array or (integers only) of a cell array stands for, selects exactly the elements, in the same order, that the Python index selects in a sequence of the same length. '
     'Iterating over a view of a struct or cell array yields one view per element in order; contents that are no containers are returned as they are.',
     ['inputs'], 'every index, step and length', 'needs a MATLAB engine; there is no test (slices with a start raised on every call)', ['qtune/mat2py.py'],
     [('transform_index', 'qtune/mat2py.py'), ('MATLABStructView.__getitem__', 'qtune/mat2py.py'), ('MATLABCellView.__getitem__', 'qtune/mat2py.py')], (), ['transform_index', 'MATLABStructView.__getitem__', 'MATLABCellView.__getitem__'])

prop('C32', 'Setting, reading and measuring through MATLAB does what was asked',
     'Setting gate voltages on the MATLAB backends sends one complete set of voltages in which exactly the named gates have the given values and every other gate keeps its present voltage, whatever the order of the names, and returns the voltages the hardware reports afterwards, by gate; a name the device does not have is refused and nothing is set. '
     'A measurement runs the routine of its kind exactly once with exactly its options (and index), returns what the routine returned, and does not change the measurement; unknown measurements are refused. '
     'Values are handed over unchanged: numbers, containers, and matrices with every element at its row and column. '
     'A MATLAB session is not connected twice, special measure is set up if it is not and a script is given, and this version of qtune is on the path unless overriding was forbidden; otherwise construction fails.',
     ['inputs', 'fault_sequences'], 'every device, request, order of gates, voltages, measurement and session state',
     'needs a MATLAB engine; there is no test (the module could not even be imported)', ['qtune/sm.py', 'qtune/sm_tune_qqd.py'],
     [('LegacyDQDRefactored.set_gate_voltages', 'qtune/sm.py'), ('LegacyDQDRefactored.measure', 'qtune/sm.py'), ('SpecialMeasureMatlab', 'qtune/sm.py'), ('SMTuneQQD.set_gate_voltages', 'qtune/sm_tune_qqd.py'), ('SMTuneQQD.measure', 'qtune/sm_tune_qqd.py')],
     (), ['Experiment interface', 'calls of the MATLAB engine'])

prop('C33', 'Quadruple-dot evaluators report the MATLAB analysis under their parameters',
     'Each evaluator of the quadruple-dot backend makes its configured measurement exactly once and reports, under exactly its own parameter names, the values of the MATLAB analysis: mean width and variance of the mean over the repetitions (line), fitted value with an error proportional to the residuals (lead), position and size of the slope (sensor), positions in order (charge, response) and the distance of the triple points. '
     'A value outside the configured bounds, or a response whose visibility is below its minimum, is reported as NaN for that parameter only; bounds not configured exclude nothing. '
     'An evaluator stored to HDF5 and read back, before or after an evaluation, reports the same.',
     ['inputs', 'histories'], 'all analysis results, bounds and error settings', 'needs a MATLAB engine; there is no test (the module could not be imported, and one default bound rejected every position)',
     ['qtune/sm_tune_qqd.py'], [(k, 'qtune/sm_tune_qqd.py') for k in ('QQDLine', 'QQDLead', 'QQDSensor1D', 'QQDSensor2D', 'QQDCharge', 'QQDDistTP', 'QQDResp')],
     (), ['Evaluator.evaluate', 'to_hdf5'])

prop('C34', 'Reloading a recorded run restores what was recorded',
     'Reloading the voltages of a recorded run in the interface sends exactly the voltages recorded for that run to the experiment, once, and then restarts the autotuner in use; it does nothing else. '
     'Reloading its state replaces the autotuner in use - for the worker and for every open reload window - by the one stored at the reload path of that run, loaded once with the reserved objects of the autotuner it replaces, and restarts it; no voltages are set. '
     'The run number shown is the one that is reloaded: a number that is negative or no number selects the first recorded run, one that is too large the last. '
     'Every iteration is recorded in the history for the autotuner that made it, even if another one is loaded meanwhile. Without an autotuner nothing is set or loaded.',
     ['inputs', 'histories', 'schedules'], 'every recorded history, selection and sequence of reloads', 'needs a user interface; there is no test of it',
     ['qtune/gui.py'], [('ReloadWidget.reload_voltages', 'qtune/gui.py'), ('ReloadWidget.reload_autotuner', 'qtune/gui.py'), ('GUI.load_auto_tuner_from_reload_widget', 'qtune/gui.py'), ('GUI._work', 'qtune/gui.py')],
     (), ['the reload window of the interface', 'History.get_gate_values', 'History.get_reload_path'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
