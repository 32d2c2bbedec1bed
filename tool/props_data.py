INL = "msf_core/include/msf_core/implementation/msf_core_inl.h"
MINL = "msf_core/include/msf_core/implementation/msf_measurement_inl.h"
MHDR = "msf_core/include/msf_core/msf_measurement.h"
SORTED = "msf_core/include/msf_core/msf_sortedContainer.h"
COREH = "msf_core/include/msf_core/msf_core.h"
UNTESTED = "The repository's tests only cover the timing package; no test ever runs the filter. "
ENGINE = "context-sensitive abstract interpretation of the instantiated templates (value numbering, branch facts), "
INST = "Decided on the template instantiations of the shipped filter nodes (all four that instantiate the core completely; thorough also with dynamic-size measurements). Library containers and Eigen are trusted; data races between callbacks are outside. "

prop("C01", "Nothing enters the filter before initialisation, no update before a prediction",
     "Until the filter has been initialised, IMU readings, externally propagated states and measurements have no effect at all: nothing is buffered, queued, corrected or published. "
     "Measurements have no effect either until the filter has made predictions from IMU data since its initialisation, and a correction that was not applied is reported as not applied. "
     "Only an initialisation makes the filter count as initialised, and only a propagation that added a state makes it count as predicting.",
     ["histories", "inputs"], "every call of an entry point in every condition of the filter, whatever the data",
     UNTESTED + "Ignored input is an absence of effects over all paths, which a test samples at best.",
     [INL, COREH], [("initialized_ / predictionMade_ guards of ProcessIMU, ProcessExternallyPropagatedState, AddMeasurement, ApplyCorrection", INL)],
     state=[("initialized_", "an initial state is in place", COREH), ("predictionMade_", "IMU predictions have been made since the initialisation", COREH)],
     tech=ENGINE + "case split on the filter's condition, then no-effect-reachable path queries",
     note=INST + "An effect is a write to anything that outlives the call, a container mutation, a publication or the application of a measurement.")
prop("C02", "(Re)initialisation starts from a clean slate and from the supplied values",
     "Initialising the filter discards all buffered states, buffered measurements and deferred measurements and restarts the divergence check; afterwards there is exactly one buffered state, at the time of the initial measurement. "
     "Every state variable for which an initial value was supplied starts with that value, every other one with its neutral value; the same holds for the initial IMU readings and the covariance (default: symmetric, built from constants). "
     "The covariance time and the last-IMU position refer to that state, it is published once and complete, and the filter counts as running only once all this is in place.",
     ["histories", "inputs"], "every history before the (re)initialisation, every subset of supplied initial values",
     UNTESTED + "Leftovers from before a reinitialisation only show with particular histories.",
     [INL, MINL, MHDR], [("MSF_Core::Init", INL), ("MSF_InitMeasurement::Apply", MINL), ("CopyInitStates", "msf_core/include/msf_core/msf_tmp.h"), ("CheckFuzzyTracking::Reset", "msf_core/include/msf_core/msf_checkFuzzyTracking.h")],
     tech=ENGINE + "exit-value summaries, must-pass queries, case split on supplied / not supplied",
     note=INST)
prop("C03", "Buffers hold at most one object per time, each under its own time, in order",
     "In the state and the measurement buffer every object is filed under its own time stamp, at most one per time, in ascending order of time. Inserting an object at a time that is taken leaves the object already there in place; "
     "changing the time of a buffered object refiles it; and no code changes the time of an object while it is buffered.",
     ["histories", "inputs"], "every sequence of buffer operations and every call of the filter's entry points",
     UNTESTED + "A stale key stays invisible until a later lookup happens to hit it.",
     [SORTED, INL], [("SortedContainer::Insert / UpdateTime", SORTED), ("writes of state and measurement times", INL)],
     tech=ENGINE + "Insert and UpdateTime run on buffers of known contents with every comparison settled and their changes replayed; effect and alias rules on every write of a time",
     note=INST + "The contents run are empty, one and several objects, with the time taken, free, and within a nanosecond of another's; std::map is trusted.")
prop("C04", "Time lookups in the buffers return the right neighbour or say there is none",
     "For every time and every buffer content, the lookups return what their names say: closest before (strictly earlier), closest after (strictly later), closest, at this time, first and last; where there is none they return the invalid object or the end position, and never a position before the first element. "
     "The filter never dereferences or steps a lookup result that may be such an end position, nor an iterator to an element that has since been removed.",
     ["histories", "inputs"], "every buffer content (empty, one, several elements) and every queried time, on every path of the filter",
     UNTESTED + "Boundary contents (empty, query before the first or after the last element, janitor runs during an update) are rare in practice and undefined behaviour shows only sometimes.",
     [SORTED, INL], [("SortedContainer lookups", SORTED), ("MSF_Core::ProcessIMU / AddMeasurement / GetPreviousMeasurement", INL)],
     tech=ENGINE + "lookups run on 24 pairs of buffer contents and query covering every relative position, each comparison settled by value and each iterator a position; iterator typestate in the filter (end check before use, no use after erase)",
     note=INST + "Four genuine defects were repaired (see known_findings.txt).")
prop("C22", "A timed interval is recorded exactly once, in seconds, under its own timer",
     "Every interval of a timer that was started is recorded exactly once, when the timer is stopped or destroyed, as the elapsed time in seconds under the tag or handle the timer was created with. "
     "A timer that is not running (constructed stopped, or stopped already) records nothing when it is stopped or destroyed. A timer runs from construction unless it was asked to be constructed stopped.",
     ["histories", "inputs"], "every sequence of construct / start / stop / destroy on a timer, every tag and handle",
     "The one existing test times a few fixed intervals with sleeps; it never destroys a running timer, stops one twice or checks what an idle timer records.",
     ["msf_timing/src/Timer.cc", "msf_timing/include/msf_timing/Timer.h"],
     [("Timer::Start / Stop / destructor", "msf_timing/src/Timer.cc"), ("Timing::AddTime", "msf_timing/src/Timer.cc")],
     tech="context-sensitive abstract interpretation (value numbering + branch facts) with must-pass and at-most-once path queries",
     note="Decided for every call sequence from the per-function summaries with the running flag as typestate. Durations are evaluated in their static units at four lengths; the clock and std::chrono are trusted.")
prop("C23", "Timing statistics equal those of the recorded samples",
     "Count, sum, mean, minimum and maximum reflect all samples recorded so far, whatever their sign; the rolling mean and variance reflect exactly the most recent samples, up to the fixed window length. "
     "No sequence of samples makes the accumulator touch memory outside its sample window.",
     ["histories", "inputs"], "every sequence of samples, of any length and sign",
     "Tests record a handful of positive durations, fewer than the window holds; wrap-around, negative or zero samples and empty accumulators are never reached.",
     ["msf_timing/include/msf_timing/Timer.h"],
     [("Accumulator::Add", "msf_timing/include/msf_timing/Timer.h"), ("RollingMean / LazyVariance", "msf_timing/include/msf_timing/Timer.h")],
     tech="abstract interpretation: the values each call leaves in the members followed through nine sequences of samples past twice the window, every array access range-checked; for the present representation also an inductive step for every sample (exit-value summaries compared as polynomials, index-range rule)",
     note="Where the representation changes, the inductive step may be reported as undecided and the sequences decide. Floating-point rounding and overflow of the int counters after 2^31 samples are outside.")
prop("C24", "Each timing tag owns one accumulator and queries read the right one",
     "A tag is given one handle when first used and keeps it; a new tag gets exactly one fresh accumulator at that handle, without disturbing the others, and no accumulator handed out is ever removed or moved. "
     "Every statistic query returns the statistic it names for the accumulator of the handle or tag asked for, samples are added to the accumulator of the given handle only, and formatting a duration never overruns its buffer.",
     ["histories", "inputs"], "every order of tag creation, recording and querying; every handle, tag and duration",
     "The test uses few tags in one fixed order and compares only some of the queries.",
     ["msf_timing/src/Timer.cc"],
     [("Timing::GetHandle / GetTag", "msf_timing/src/Timer.cc"), ("Timing::Get*Seconds / GetHz", "msf_timing/src/Timer.cc")],
     tech="abstract interpretation by case split on tag known / unknown and on the sizes of map and list; handles evaluated; sibling cross-check of all query pairs by value numbers",
     note="Each query is compared with the accumulator's own getter; std::map and std::vector semantics are trusted.")
prop("C05", "A measurement takes effect at its own time, whatever the order of arrival",
     "A measurement newer than the newest state is deferred unchanged; one older than the oldest buffered state is dropped without effect. Any other one is put into the measurement buffer and applied to the state of its own time, and after it every later buffered measurement is applied again, each once and in order of time. "
     "After each application the states behind it are propagated again, one after the other, at least as far as the next measurement needs, and after the last up to the newest state. The newest state, with its covariance brought up to date, is then published exactly once. "
     "The state for a time is the closest buffered one if that is at most 1 ms away or has no valid neighbours to interpolate between; else a new state at exactly that time, with linearly interpolated IMU readings, propagated from the state before it and inserted; and none if the closest is more than 0.1 s away or not finite.",
     ["histories", "inputs"], "every arrival order and delay of measurements, every buffer content",
     UNTESTED + "Delayed and out-of-order arrival with several buffered measurements is exactly what sampled runs do not reach.",
     [INL], [("MSF_Core::AddMeasurement", INL), ("MSF_Core::GetClosestState", INL)],
     tech=ENGINE + "case split over the relative times of measurement and states; loop induction on the buffer iterators; must-pass and no-path queries",
     note=INST + "Callees (PropagateState, PropPToState, Apply) are summarised here and decided by the properties about them.")
prop("C06", "A measurement that comes early waits its turn and is not lost",
     "A measurement newer than the newest state waits, unchanged, behind those that were deferred before it. After every newly propagated state the one that has waited longest is taken out and offered to the filter again, exactly once per removal; nothing is taken from an empty queue. "
     "Waiting measurements are discarded only by an initialisation, or by the first externally propagated state after one.",
     ["histories", "inputs"], "every interleaving of early measurements with IMU data or externally propagated states",
     UNTESTED + "Loss, duplication or reordering needs several early measurements in flight.",
     [INL, COREH], [("MSF_Core::HandlePendingMeasurements", INL), ("queueFutureMeasurements_ in AddMeasurement, Init, ProcessExternallyPropagatedState", INL)],
     state=[("queueFutureMeasurements_", "measurements newer than every state, in order of arrival", COREH)],
     tech=ENGINE + "pairing of removal and re-offer by path queries, case split on empty / not empty; effect closure of the summarised callees",
     note=INST)
prop("C07", "The covariance is propagated state by state and redone after every change",
     "The covariance of a state is predicted from the state right before it as Fd P Fd^T + Qd, with the process noise of core and auxiliary states, never over a step of zero or negative length. "
     "Bringing a state's covariance up to date starts at the last valid one and takes every state in between exactly once, up to and including that state. "
     "A correction, or a state inserted between others, makes every covariance behind it count as outdated; moving or replacing the states (time gap, initialisation, first external state) takes the mark along, so that it always is the time of a buffered state. A prediction whose position is not finite stops the filter.",
     ["histories", "inputs"], "every sequence of propagation, correction, interpolation, time gaps and initialisation",
     UNTESTED + "A stale covariance is numerically plausible and only a particular order of events makes one.",
     [INL], [("PredictProcessCovariance, PropPToState, PropagatePOneStep", INL), ("time_P_propagated in GetClosestState, ApplyCorrection, ProcessIMU, ProcessExternallyPropagatedState", INL)],
     state=[("time_P_propagated", "time of the newest state whose covariance is valid", COREH)],
     tech=ENGINE + "non-commutative polynomial normal forms for the covariance equation, loop induction for the stepping, case split over the times, and a rule on every assignment of the mark",
     note=INST + "Values of Fd and Qd themselves are not part of this property.")
TMP = "msf_core/include/msf_core/msf_tmp.h"
UPD = "msf_updates/include/msf_updates/"
PM = UPD + "pose_sensor_handler/pose_measurement.h"
prop("C08", "A correction is the Kalman update and keeps the covariance symmetric",
     "An absolute measurement with Jacobian H, residual r and noise R corrects a state with K r, where K = P H^T (H P H^T + R)^-1 and P is the covariance of that state before the update. "
     "The covariance becomes (I - K H) P (I - K H)^T + K R K^T and is exactly symmetric afterwards, like the initial covariance. "
     "The covariance is updated and the correction applied together, once each, on the same state. Every state variable gets its own part of the correction vector: vectors additively, quaternions by multiplying with the small rotation from the right and normalising.",
     ["inputs"], "every state, covariance, Jacobian, residual and noise",
     UNTESTED + "A wrong gain or covariance still converges in benign runs; only the equations for all matrices tell.",
     [MINL, TMP], [("CalculateAndApplyCorrection", MINL), ("correctState", TMP), ("ApplyCorrection", INL), ("SetPCore", MHDR)],
     state=[("P", "covariance of the error state", "msf_core/include/msf_core/msf_state.h"), ("correction_", "the correction vector", MHDR)],
     tech=ENGINE + "non-commutative polynomial normal forms of the matrix expressions (inverse of S as an atom), structural symmetry of the last assignment, and slice bookkeeping of the correction vector",
     note="Decided for the measurement updates instantiated by the shipped nodes, with static and dynamic size. Exact arithmetic; Eigen is trusted, except that assignments aliasing their own transpose are reported.")
prop("C09", "The outlier gate decides before anything changes and obeys its parameters",
     "With the gate enabled, an absolute measurement whose Mahalanobis distance sqrt(r^T S^-1 r) exceeds the threshold changes neither state nor covariance, and one that does not exceed it is applied. With the gate disabled every measurement is applied. "
     "Each sensor handler that has the gate reads its switch (off by default) and its threshold from its own parameters enable_mah_outlier_rejection and mah_threshold, and hands exactly these to each of its measurements.",
     ["inputs"], "every residual, covariance and threshold; every handler and constructor",
     UNTESTED + "An outlier of exactly the right size has to arrive with the gate enabled.",
     [MINL, UPD + "pose_sensor_handler/implementation/pose_sensorhandler.hpp"], [("CalculateAndApplyCorrection", MINL), ("constructors and Process*Measurement of the sensor handlers", UPD)],
     state=[("enable_mah_outlier_rejection_, mah_threshold_", "switch and threshold of the gate", MHDR)],
     tech=ENGINE + "normal form of the tested distance, path queries under each outcome of the comparison, and value flow from parameter to handler to measurement",
     note="Finite distances; a distance that is not a number is not covered here.")
prop("C31", "A relative measurement updates against the state of the previous one",
     "A relative measurement refers to the nearest earlier buffered measurement of the same sensor and to the state at the time of that measurement. The transition between both states is the product of all steps between them in order of time. "
     "The newer state alone is corrected, with the gain of the joint covariance of both states (the older correlated through that transition), Jacobians -H at the older and H at the newer state, and its covariance becomes P - K S K^T, exactly symmetric. "
     "If there is no such measurement, it is of another type, or there is no valid state for it, nothing is changed.",
     ["histories", "inputs"], "every pair of states, every content of the buffers",
     UNTESTED + "Relative updates need two measurements of one sensor and the history in between.",
     [MINL, INL, PM], [("CalculateAndApplyCorrectionRelative", MINL), ("GetAccumulatedStateTransitionStochasticCloning, GetPreviousMeasurement", INL), ("Apply", PM)],
     tech=ENGINE + "block-matrix normal forms, loop induction over the accumulated product and the search, path queries for the refusals",
     note="Instantiations of the shipped nodes with a pose sensor. The outlier gate of relative updates and the residual itself are not part of this property.")
prop("C10", "States configured as fixed are never corrected, and nothing else is fixed",
     "While a sensor's configuration marks a variable as fixed (pose_fixed_scale, pose_fixed_p_ic, pose_fixed_q_ic, pose_fixed_p_wv, pose_fixed_q_wv, position_fixed_p_ip, fixed_p_ip), no measurement of that sensor corrects it: its columns of the Jacobian are zero and its cross-covariances are cleared before the gain is computed, so its part of the correction is zero. "
     "Each flag fixes its own variable only, and nothing else of the covariance changes by fixing. "
     "While core_fixed_bias is set, no correction changes the gyro and accelerometer biases, and the rest of the correction is applied unchanged.",
     ["inputs"], "every state and covariance, every sensor, every combination of the flags",
     UNTESTED + "Whether a parameter drifts by correlation shows only over a run with that flag set.",
     [PM, UPD + "position_sensor_handler/position_measurement.h", UPD + "spherical_position_sensor/spherical_measurement.h", INL],
     [("CalculateH of each measurement", PM), ("fixedstates in the sensor handlers", UPD), ("ClearCrossCov", "msf_core/include/msf_core/implementation/msf_state_inl.h"), ("AugmentCorrectionVector and fixed biases in ApplyCorrection", INL)],
     state=[("fixedstates_", "bit i: state variable i is fixed for this measurement", PM)],
     tech=ENGINE + "the Jacobian and the covariance evaluated entry by entry as polynomials for each setting of the flags carried from the handler into the measurement; counter ranges for the bias entries",
     note="Quick: each flag alone and all together; thorough: every combination. A negative scale is reset by the node's sanity check, which is no correction and outside. Exact arithmetic.")

prop("C34", "Residual and Jacobian of each measurement agree with its measurement model",
     "For an absolute pose, position or pressure measurement the residual handed to the Kalman update is zero when the measurement is what the state predicts: "
     "a pose sensor measures position L*C(q_wv)*(p - p_wv + C(q)*p_ic) and attitude q_wv*q*q_ic, a position sensor p + C(q)*p_ip, a pressure sensor p_z - b_p. "
     "The Jacobian is, at that point, minus the derivative of the residual by the error state (added to vectors, a small rotation from the right for attitudes), for every variable that is not fixed; and the update gets that residual, that Jacobian, the measurement's own noise and the state the measurement belongs to. "
     "A relative pose measurement has the same properties towards both of its states, with the drift and calibration attitudes of the two states equal and, for the older attitude, no rotation in between.",
     ["inputs"], "every state, every measurement of the three kinds, no flag fixed",
     UNTESTED + "A wrong sign or frame in one block of a Jacobian shows only as slow or wrong convergence.",
     [PM, UPD + "position_sensor_handler/position_measurement.h", UPD + "pressure_sensor_handler/pressure_measurement.h"],
     [("CalculateH / Apply of PoseMeasurement", PM), ("CalculateH / Apply of PositionMeasurement", UPD + "position_sensor_handler/position_measurement.h"), ("Apply of PressureMeasurement", UPD + "pressure_sensor_handler/pressure_measurement.h")],
     tech=ENGINE + "residual and Jacobian evaluated entry by entry as polynomials over the state (unit quaternions reduced); derivative by infinitesimals and comparison of normal forms",
     note="First order at the predicted measurement only. Spherical measurements are outside: their Jacobian is taken at p and not at the lever arm's end. Exact arithmetic. An expression too large for a normal form is compared at an exact rational point and reported as undecided.")

SPHM = UPD + "spherical_position_sensor/spherical_measurement.h"
prop("C37", "Angles and distance to the antenna: residual, wrapping and Jacobian",
     "A spherical sensor measures the polar angle and azimuth, or the distance, of the antenna p + C(q)*p_ip as seen from the origin. For an absolute measurement the residual is the measurement minus what the state predicts, the azimuth difference taken to within half a turn, wherever around the sensor the antenna and the measured azimuth are. "
     "The Jacobian is the derivative of the prediction by the error state (added to vectors, a small rotation from the right for the attitude), to first order in the lever arm p_ip: exactly for p, p_ip and the attitude where the lever arm is zero, zero for all other variables. "
     "The update gets this residual, the Jacobian of the state the measurement belongs to and the measurement's own noise, exactly once; a relative measurement is not applied.",
     ["inputs"], "antenna positions all around the sensor, on and beside the axes; attitudes, lever arms, and measured azimuths on both sides of the cut",
     UNTESTED + "The azimuth jumps by a turn behind the sensor, and a missing rotation only shows away from the identity attitude.",
     [SPHM], [("CalculateH / Apply of AngleMeasurement and DistanceMeasurement", SPHM)],
     tech=ENGINE + "the terms of residual and Jacobian evaluated at exact points on a grid around the sensor, every comparison settled there, against the measurement model",
     note="A grid of 15 positions, four attitudes (one or two each in the quick tier). Directly above or below the sensor the azimuth is undefined. For longer lever arms the code's Jacobian is an approximation (taken at p) and not claimed.")

prop("C38", "No negative scale is left by a correction",
     "After each correction the corrected state itself is put to the check of the manager before the correction ends, and not corrected again after it. A state whose scale L is negative is left with the scale 0.1 by it; a scale that is not negative, and every other variable of any state, is left as it is.",
     ["inputs", "histories"], "scales on both sides of zero in each manager; every path of a correction",
     UNTESTED + "A negative scale needs a bad initialisation or an outlier, and mirrors the vision frame.",
     [INL, "msf_updates/src/pose_msf/pose_sensormanager.h"], [("ApplyCorrection", INL), ("SanityCheckCorrection", "msf_updates/src/pose_msf/pose_sensormanager.h")],
     tech=ENGINE + "one run of each manager's check per scale with the comparison settled; writes enumerated, exit value evaluated; must-pass and order queries in the correction",
     note="Managers whose state has no L change nothing. The wish that a corrected scale be positive, not merely not negative, is not the code's: zero is kept.")

prop("C33", "Prediction follows the strap-down equations, and Fd is its linearisation",
     "Propagating a state over an IMU step of length dt gives: attitude q' solving dq/dt = q*(0, w)/2 for bias-corrected rates that change linearly from the older to the newer reading (through second order in dt, through fourth order for a constant rate), normalised; "
     "velocity v' = v + ((C(q')(a' - b_a) + C(q)(a - b_a))/2 - g) dt; position p' = p + (v' + v)/2 dt; biases and auxiliary states keep their values. "
     "The transition matrix used for the covariance is the series of exp(Fc dt) of the error dynamics at the newer state's bias-corrected readings and attitude: each block right from its leading order through the second order after it, identity for everything else (auxiliary states included), whatever Fd held of earlier predictions of that step.",
     ["inputs"], "every state, reading and step length",
     UNTESTED + "An error in a high-order term or one block of Fd shows only as slow drift or an inconsistent covariance.",
     [INL, "msf_core/include/msf_core/eigen_utils.h", "msf_core/include/msf_core/msf_state.h"],
     [("PropagateState", INL), ("PredictProcessCovariance", INL), ("OmegaMatJPL, Skew", "msf_core/include/msf_core/eigen_utils.h"), ("GenericState_T()", "msf_core/include/msf_core/msf_state.h")],
     tech=ENGINE + "counted loops taken step by step, every entry evaluated as an exact polynomial in dt at rational points of state and readings (polynomial identity testing) and compared with the Picard series and the matrix exponential",
     note="Equality is decided at two to three exact rational points per entry, not for a symbolic state. Rounding is outside.")

prop("C36", "Process noise is what the configured noise densities accumulate over the step",
     "The noise matrix Qd added when the covariance is predicted is, in the core block, the integral of exp(Fc s) G diag(n^2) G' exp(Fc s)' over the step through third order of its length, with core_noise_acc, core_noise_accbias, core_noise_gyr and core_noise_gyrbias each in its own place; "
     "for every auxiliary state with a configured noise (pose_noise_scale, pose_noise_p_wv, pose_noise_q_wv, pose_noise_p_ic, pose_noise_q_ic, position_noise_p_ip, noise_p_ip, press_noise_bias_p) it is n^2 dt on the diagonal of that state's block, and it is zero everywhere else.",
     ["inputs"], "every state, reading, step length and setting of the noises",
     UNTESTED + "Wrong noise only makes the estimate over- or under-confident.",
     ["msf_core/include/msf_core/implementation/calcQCore.h", INL, "msf_updates/src/"],
     [("CalcQCore", "msf_core/include/msf_core/implementation/calcQCore.h"), ("CalculateQAuxiliaryStates of each manager", "msf_updates/src/"), ("PredictProcessCovariance", INL)],
     tech=ENGINE + "every entry of Qd evaluated as an exact polynomial in dt and the noises at rational points and compared with the integral",
     note="Twelve blocks of the generated CalcQCore are known to differ (known_findings.txt); each is pinned by the fingerprint of its exact values, so that any other deviation in them is still reported. Isotropic noise, as the core passes it.")

SMR = "msf_core/include/msf_core/msf_sensormanagerROS.h"
STI = "msf_core/include/msf_core/implementation/msf_state_inl.h"
prop("C15", "Every published message says what the filter state says",
     "Each time the filter publishes, a subscriber of pose, odometry, ext_state, state_out, pose_after_update, correction, cov_core, cov_aux or cov_core_aux gets one message, stamped with the time of the state and with the configured frames. "
     "Position and attitude are those of the state; ext_state's velocity is the state's; odometry's twist is the velocity in the body frame and the bias-corrected rate. "
     "The pose covariance is the position/attitude block of P; the twist covariance is that of the body-frame velocity and of the corrected rate (gyro bias plus gyro noise). "
     "state_out holds every state variable in order (attitudes w, x, y, z), the three covariance matrices hold their part of P row by row with the right shape. "
     "The correction is the state relative to the last externally propagated one (differences, and the rotation from it to the state), flagged as such; it is neutral and flagged as an initialisation during data playback, and withheld if the state is not finite; at initialisation it carries the core state, flagged as initialisation. "
     "The broadcast transform is the pose of the state between the configured frames.",
     ["inputs"], "every state, covariance, external state and combination of subscribers",
     UNTESTED + "A transposed index or a frame mix-up in an output looks plausible and only confuses whoever consumes it.",
     [SMR, STI, "msf_core/include/msf_core/eigen_conversions.h", "msf_core/include/msf_core/msf_tmp.h"],
     [("PublishStateInitial / AfterPropagation / AfterUpdate", SMR), ("ToPoseMsg, ToOdometryMsg, ToExtStateMsg, ToFullStateMsg, Get*Covariance", STI)],
     tech=ENGINE + "one run per topic with its subscriber present; the message's fields at the point of publication, evaluated at exact rational points and compared with the state",
     note="Topics are matched by name, so the node's topic names are part of the interface. Sequence numbers and the transform's time are outside. Equality at two exact rational points per entry.")

SHF = [UPD + "pose_sensor_handler/implementation/pose_sensorhandler.hpp", UPD + "position_sensor_handler/implementation/position_sensorhandler.hpp", UPD + "pressure_sensor_handler/implementation/pressure_sensorhandler.hpp",
       UPD + "spherical_position_sensor/implementation/spherical_sensorhandler.hpp"]
prop("C17", "Every usable sensor reading reaches the filter once, with its time and identity",
     "Each sensor handler is subscribed once to each of its inputs (pose_with_covariance_input, transform_input, pose_input, odometry_input; position_input, transform_input, navsatfix_input; pressure_height; angle_input; distance_input). "
     "A reading that is not discarded is handed to the filter exactly once, on every path, as a measurement whose time is the message's time stamp minus the handler's configured delay (the pressure sensor has none) "
     "and which carries that handler's own identity, absolute/relative mode and outlier-rejection settings (pressure is always absolute). "
     "Every handler a node creates is registered once and gets an identity different from that of every other handler.",
     ["inputs", "histories"], "every message of every input, every setting of the parameters",
     UNTESTED + "No test receives a sensor message at all.",
     SHF + ["msf_core/include/msf_core/msf_sensormanager.h"],
     [("MeasurementCallback / Process*Measurement of each handler", UPD), ("AddHandler", "msf_core/include/msf_core/msf_sensormanager.h"), ("MakeFromSensorReading", "msf_core/include/msf_core/msf_measurement.h")],
     tech=ENGINE + "path queries from each subscribed callback to the hand-over, and the members of the new measurement at that point traced to message and parameters",
     note="Which readings are discarded is C18, what value they carry is C35. Topics are matched by name.")
prop("C18", "Sensor readings are dropped for the documented reasons only",
     "A pose reading is dropped if it follows the last accepted one by less than pose_measurement_minimum_dt (less a tolerance of a millisecond), and accepted if it follows by more; the last accepted time changes exactly when a reading is accepted, and the first is accepted. "
     "Without a fixed covariance, readings whose message has none are dropped: transform_input and pose_input of the pose sensor, angle and distance, position_input and transform_input of the position sensor, and any position whose first covariance entry is zero or unknown; with a fixed covariance none is dropped for that. "
     "The position sensor takes every fifth message of transform_input and the pressure sensor every tenth, by sequence number. Every other reading is accepted. A handler reports a first reading once one was handed over, and not before any message.",
     ["inputs", "histories"], "every message of every input, every setting of the parameters",
     UNTESTED + "A wrongly dropped reading is silent; the filter only gets worse.",
     SHF, [("ProcessPoseMeasurement, ProcessPositionMeasurement, MeasurementCallback", UPD)],
     tech=ENGINE + "one run per kind of reading with the comparisons on time, covariance and sequence number settled; paths to the hand-over demanded or excluded; the kept time at the end of each",
     note="The interval is tested at settled times around it, including the first reading. A clock that jumps backwards is outside. Topics and parameters are matched by name.")
prop("C35", "A measurement is what its message says: value, frame and covariance",
     "The value of a measurement holds the message's position and attitude fields in their order (a GPS fix: the local coordinates of its own latitude, longitude and altitude; pressure: point.z; angles: point.x, point.y; distance: point.z). "
     "If pose_measurement_world_sensor is false the value is the inverse of the reported pose, whatever the covariance source. "
     "The covariance is diag(n^2) of the configured noises in their places when fixed, and otherwise the message's: position and attitude blocks without their cross terms, the position block turned into the inverted frame when the pose is. The additional pose row has a positive variance and no correlation. "
     "The value kept for the initialisation is that of the last measurement, and is what the handler reports for it.",
     ["inputs"], "every message, every setting of the parameters",
     UNTESTED + "Swapped fields or a forgotten inversion give a plausible but wrong track.",
     SHF + [PM, UPD + "position_sensor_handler/position_measurement.h", UPD + "pressure_sensor_handler/pressure_measurement.h", UPD + "spherical_position_sensor/spherical_measurement.h"],
     [("MakeFromSensorReadingImpl of each measurement", PM), ("MeasurementCallback", UPD), ("SetNoises, Get*Measurement", UPD)],
     tech=ENGINE + "the members of the measurement at the hand-over evaluated at exact rational points of the message and compared",
     note="Equality at two exact rational points per case. The attitude covariance of an inverted pose, the distortion of measurements for simulation (C26) and the averaged pressure are outside. Covariances in messages are taken to be symmetric. Exact arithmetic.")

prop("C16", "(Re)initialisation starts the filter where the measurements say, on command",
     "A request to initialise (checkbox core_init_filter or core_set_height with its level bit, service initialize_msf_scale or initialize_msf_height) initialises the filter exactly once, with the requested scale (position z divided by the height for a height request), and takes the checkbox back; nothing else does, and a height request is refused without a measurement or with a height of at most one centimetre. "
     "The state handed over predicts the latest measurements: the pose sensor's position and attitude, the absolute position, the pressure height (camera at the IMU), the point the angles and the distance put the sensor at. "
     "It is at rest, its biases are zero, its acceleration is gravity in its own frame, its scale the requested one, its attitude the configured yaw where there is one, its calibration (p_ic, q_ic, p_ip) the configured one, all attitudes of unit length. "
     "Every change of settings is kept and reaches the noise and delay of the handler it is for, before an initialisation it asks for and even if that is refused.",
     ["inputs", "histories"], "every setting, command, measurement and calibration",
     UNTESTED + "A wrong initial lever arm or a setting that never arrives only makes the filter converge badly.",
     ["msf_updates/src/pose_msf/pose_sensormanager.h", "msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h", "msf_updates/src/position_msf/position_sensormanager.h", "msf_updates/src/position_pose_msf/position_pose_sensormanager.h", "msf_updates/src/spherical_msf/spherical_sensormanager.h"],
     [("Config, Init, InitScale, InitHeight of each manager", "msf_updates/src/"), ("SetNoises, SetDelay", UPD)],
     tech=ENGINE + "every command followed from its callback to MSF_Core::Init; the state handed over there evaluated at an exact rational point and put through the measurement models of C34; settings traced to the members that use them",
     note="One exact point per case, with a measurement of each sensor received. Settings, parameters and services are matched by name. What Init does with the state is C02.")
prop("C26", "Simulated degradation: the relay passes on or withholds, drift is a random walk",
     "The distortion node passes every message of an input, unchanged and once, to the output of the same kind, if the setting for that kind (publish_pose for poses and transforms, publish_position for points and GPS fixes) is on when it arrives, and never otherwise. "
     "Each distortion of a position adds to the position drift and to the scale drift one draw each times the elapsed time, and returns the position moved by the drift and then scaled; of an attitude, turns the attitude drift by the small rotation of its draws times the elapsed time and turns the attitude by it. "
     "The drifts start at zero, one and identity, and are drawn with the configured means and deviations, each from its own parameter. "
     "The pose sensor distorts a measurement exactly once if distortion is on and a measurement came before, for the time since that one, and not at all otherwise.",
     ["inputs", "histories"], "every message, every setting and every draw",
     UNTESTED + "What a simulation of outages and drift feeds the filter is random, so that a wrong drift is hard to see.",
     ["msf_distort/src/msf_distort.cc", "msf_updates/src/msf_distort/PoseDistorter.cc", "msf_updates/include/msf_updates/PoseDistorter.h", PM, UPD + "pose_sensor_handler/implementation/pose_sensorhandler.hpp"],
     [("callbacks and main of the distortion node", "msf_distort/src/msf_distort.cc"), ("PoseDistorter::Distort", "msf_updates/src/msf_distort/PoseDistorter.cc"), ("use of the distorter", PM)],
     tech=ENGINE + "path queries from each input to its output under each setting; the drifts after a call evaluated at an exact rational point of drift, draw and time",
     note="One exact rational point per overload. Inputs, outputs and parameters are matched by name. That the draws are Gaussian is the library's.")
prop("C19", "Divergence check: a correction turning q_wv too far is rolled back",
     "In a filter with a non-temporally-drifting attitude (q_wv), the first 30 corrections after (re)initialisation only fill a history of that attitude. "
     "Afterwards a correction counts as diverged exactly if 2*max(|x|,|y|,|z|)/|w| of conj(attitude)*median exceeds the threshold (0.1), the median being taken component-wise over the 30 history entries (the 16th value in order). "
     "A diverged correction is undone for all variables except position, velocity and attitude, which keep the corrected values, and is not entered into the history. A good correction is left as it is and replaces the oldest history entry. "
     "Every correction is judged once, after it was applied and after the user's sanity check, against a copy of the state made before the correction. A filter without such an attitude never rolls a correction back. ",
     ["histories", "inputs"], "every position in the history (corrections 1 to 60), attitudes on both sides of the threshold, every state variable",
     UNTESTED + "The rollback needs more than thirty corrections and a jump to happen at all.",
     ["msf_core/include/msf_core/msf_checkFuzzyTracking.h", "msf_core/include/msf_core/msf_tools.h", INL], [("CheckFuzzyTracking::Check", "msf_core/include/msf_core/msf_checkFuzzyTracking.h"), ("GetMedian", "msf_core/include/msf_core/msf_tools.h"), ("ApplyCorrection", INL)],
     state=[("nontemporaldrifting_inittimer_, qbuff_", "history of the drift-free attitude", "msf_core/include/msf_core/msf_checkFuzzyTracking.h")],
     tech=ENGINE + "one run per position in the history with the comparisons settled at exact rational attitudes; values of every variable, counter and history entry at the exit; order of the judgement in ApplyCorrection by path queries",
     note=INST + "The median is taken as given in the decision and decided on its own.")
prop("C11", "Every attitude of the state stays a unit quaternion",
     "All attitudes of a filter state are unit quaternions at all times: a reset state has identity attitudes; propagation, every correction and the take-over of an external state normalise the attitude they compute, and the other attitudes are only copied; the attitudes a filter is initialised with are normalised whatever was measured or configured; nothing else writes an attitude of a state. "
     "The quaternion of a rotation vector (QuaternionFromSmallAngle) is unit for small and large vectors, turns about the vector and by its length to first order.",
     ["histories", "inputs"], "every write to an attitude variable of the shipped state definitions; rotation vectors below, at and above the length where the formula switches",
     UNTESTED + "Norm drift shows only after long runs, unnormalised inputs only with unusual sensors.",
     [INL, "msf_core/include/msf_core/msf_tmp.h", "msf_core/include/msf_core/eigen_utils.h"], [("CorrectState, ResetState", "msf_core/include/msf_core/msf_tmp.h"), ("QuaternionFromSmallAngle", "msf_core/include/msf_core/eigen_utils.h"), ("PropagateState", INL), ("Init of the sensor managers", "msf_updates/src/position_pose_msf/position_pose_sensormanager.h")],
     tech=ENGINE + "provenance of every value written to an attitude (normalised, identity, product or conjugate of such, copy of a state's); call sites assigning attitudes enumerated for completeness",
     note=INST + "Norms are taken as exact after normalisation; a zero or non-finite quaternion cannot be normalised and is C12.")
prop("C20", "IMU continuity: one state per reading; gaps, jumps back and spikes are handled",
     "Once initialised, each IMU reading (or externally propagated state) adds exactly one state, propagated from the latest one, then filed, its covariance predicted, then published, in this order. The state carries the reading's time, rates and acceleration and the configured noise densities. "
     "An acceleration of more than 50 m/s^2 is replaced by an earlier one and not kept as a replacement. "
     "A running filter stops, without any other effect, if an IMU reading is older than its latest state by more than 10 ms. "
     "Before the first prediction, a reading more than 0.1 s (externally propagated: 5 s) away from the latest state only moves that state, and the time its covariance is valid for, to its own time. A reading without an earlier state has no effect. "
     "The filter counts as predicting when there are more than three states, with external propagation after the first. An external state is taken over with the other variables kept, and the buffered states and measurements are discarded before the first one.",
     ["histories", "inputs"], "every reading and state of the filter, decided at settled times, magnitudes and buffer sizes on both sides of each limit",
     UNTESTED + "Gaps, jumps and spikes are rare events of real sensors.",
     [INL, COREH], [("ProcessIMU, ProcessExternallyPropagatedState", INL)],
     state=[("it_last_IMU", "position of the latest state", COREH), ("predictionMade_", "IMU predictions have been made", COREH)],
     tech=ENGINE + "one run per case with the comparisons on times, magnitude and buffer size settled; must-pass, order and no-effect path queries; members of the new state at the calls that use it",
     note=INST + "What propagation computes is C33, what is published C15. The replacement of a spike is any acceleration kept from before.")
prop("C32", "IMU input: fields, order and the use of externally propagated states",
     "Every message on imu_state_input and hl_state_input reaches the filter exactly once, with its own linear acceleration, angular velocity and time stamp. "
     "The state of the latter is used exactly if it is flagged as the current state, data playback is off, and its first ten entries are finite; it is position, velocity and attitude (w first, normalised) in this order. Otherwise the filter propagates itself. "
     "The latest external state is kept for computing corrections, whatever its flag; of one shorter than sixteen entries none is read or kept.",
     ["inputs"], "every message, every position of a non-finite entry, every flag, playback on and off",
     UNTESTED + "No test receives an IMU message.",
     ["msf_core/include/msf_core/msf_IMUHandler_ROS.h", "msf_core/include/msf_core/msf_IMUHandler.h", "msf_core/include/msf_core/msf_sensormanagerROS.h"],
     [("IMUCallback, StateCallback", "msf_core/include/msf_core/msf_IMUHandler_ROS.h"), ("ProcessIMU, ProcessState", "msf_core/include/msf_core/msf_IMUHandler.h"), ("data_playback_", "msf_core/include/msf_core/msf_sensormanagerROS.h")],
     tech=ENGINE + "path queries from each subscribed callback; one run per flag, size, playback setting and non-finite entry; arguments evaluated at exact points of the message",
     note="Topics and the playback parameter are matched by name. All four nodes that instantiate the core completely.")
prop("C12", "Values that are not finite are recognised and kept out of estimates",
     "CheckForNumeric calls a vector or matrix finite exactly if none of its entries, whichever, is NaN or infinite of either sign; CheckStateForNumeric calls a state finite exactly if all entries of all its core variables are. "
     "A covariance step after which the predicted position is not finite stops filter and prediction, one after which it is finite changes neither. "
     "No measurement is applied to a state that is not finite, and no state is interpolated between two of which one is not: the lookup returns the invalid state, for which measurements are skipped. "
     "The correction for an external filter is not sent if the state is not finite.",
     ["inputs", "histories"], "every entry of every instance of the test, NaN and both infinities; every outcome of the tests at the places acting on them",
     UNTESTED + "A NaN in one entry needs a particular fault upstream, and comparing with one is always false, so what it does next depends on how a test is written.",
     [INL, "msf_core/include/msf_core/eigen_utils.h"], [("CheckForNumeric", "msf_core/include/msf_core/eigen_utils.h"), ("CheckStateForNumeric", "msf_core/include/msf_core/implementation/msf_state_inl.h"), ("PropagatePOneStep, GetClosestState, AddMeasurement", INL), ("PublishStateAfterUpdate", "msf_core/include/msf_core/msf_sensormanagerROS.h")],
     tech=ENGINE + "every instance of CheckForNumeric evaluated with NaN or infinity in one entry at a time, loops unrolled; the vector CheckStateForNumeric passes on computed symbolically; users re-run with each outcome of the tests",
     note=INST + "Matrices of more than 60 entries are sampled in the quick tier (corners, middles and eight more). Corrections, residuals and Jacobians that are not finite are only warned about by the code and not claimed.")

GPS = "msf_core/src/lib/gps_conversion.cc"
PSH = "msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp"
prop("C27", "GPS fixes become local east-north-up positions about the first fix",
     "WGS84ToECEF gives the ECEF coordinates of the WGS84 ellipsoid for any latitude, longitude and altitude, poles and date line included. InitReference takes the ECEF point of the fix given as the reference and the directions east, north and up there as axes, replacing both if there was a reference before; "
     "ECEFToENU gives the offset of a point from the reference along these axes, near and far, and WGS84ToENU does both in one. "
     "A position handler sets the reference of its own converter exactly once: with the first fix it gets, before converting it, whatever it did before and whatever other handlers in the process got; nothing it does later sets it again.",
     ["inputs", "histories"], "fixes over the whole globe; every order of a handler's callbacks and setters around its first and later fixes",
     UNTESTED + "Wrong axes look plausible near particular places and headings, and a second handler is needed to show a shared reference.",
     [GPS, PSH], [("GPSConversion", GPS), ("MeasurementCallback(NavSatFix)", PSH)],
     tech=ENGINE + "the conversions as terms, evaluated on a grid of 56 fixes and rational attitudes against the definition; the callback re-run from the state the constructor, a fix and every other member function leave",
     note="The grid is compared to 1 mm. AdjustReference shifts the reference along the earth's axis and not up; nothing calls it and nothing is claimed about it.")

prop("C14", "State definitions: layout, sizes and protection hold at compile time",
     "For any list of state variables: they take up consecutive, gap-free ranges of the state (an attitude four entries) and the error state (an attitude three) in their order; the sizes of state, core, propagated part and covariance are the sums over the variables concerned; the drift-free variable found is the attitude if there is one, else the vector. "
     "A definition whose names and types differ in order, whose core variables are not p, v, q, b_w, b_a in front, with an attitude corrected multiplicatively, or a divergence check by a vector, does not compile; a sound one does. "
     "Outside the filter core variables can be read but neither set nor their noise blocks changed. "
     "Each variable is corrected by its own entries (added, or multiplied if so declared), and its noise block, message entries and reported range are its own.",
     ["inputs"], "twelve state definitions unlike each other, every variable of each; twenty unsound programs, each next to a sound twin",
     "The existing test fixes one state definition; the code is written for all, and what must not compile cannot be a unit test. ",
     ["msf_core/include/msf_core/msf_tmp.h", "msf_core/include/msf_core/msf_state.h", "msf_core/include/msf_core/implementation/msf_state_inl.h", "msf_core/include/msf_core/static_ordering_assertions.h", "msf_core/include/msf_core/msf_checkFuzzyTracking.h"],
     [("GetStartIndex, CountStates, CheckCorrectIndexing, IndexOfBestNonTemporalDriftingState, CorrectState", "msf_core/include/msf_core/msf_tmp.h"), ("Set, GetQBlock, Get", "msf_core/include/msf_core/msf_state.h"), ("StaticAssertCoreStateOrderingCorrect", "msf_core/include/msf_core/static_ordering_assertions.h")],
     tech="static analysis: witness programs with static assertions generated from state definitions and compile-fail pairs, put to the compiler against the current headers (nothing is run); corrections, noise blocks, messages and ranges evaluated symbolically by the analysis engine on a state definition unlike the shipped ones",
     note="A layout error in a definition unlike all twelve is not excluded. Known finding: Set<> compiles for core variables (its assertion can never fire).")
prop("C21", "Buffers keep the last minute and no more",
     "The state and the measurement buffer are both cleaned of objects more than 60 s older than their newest, at the latest with the 200th measurement update after the start or after the last cleaning. "
     "Cleaning removes nothing that is 60 s old or younger, so never the newest object, leaves at most one object that is older, and has no effect on a buffer spanning no more than 60 s, or an empty one, whose missing elements it never touches. "
     "Apart from cleaning and (re)initialisation nothing removes objects while the filter runs.",
     ["histories"], "buffers of no to many objects with the limit on, between and beside them; every value the counter of updates takes",
     UNTESTED + "A leak or an early removal shows after minutes to hours, the latter only for late measurements.",
     [INL, SORTED], [("ClearOlderThan", SORTED), ("CleanUpBuffers, AddMeasurement", INL)],
     state=[("janitorRun", "updates since the last cleaning", INL)],
     tech=ENGINE + "the erasure evaluated on twenty lists of times with every comparison settled; the counter simulated from update to update; every removal from a buffer enumerated per entry point",
     note=INST + "Lookups are taken by the contracts C04 decides. Buffers are cleaned by measurement updates only: without measurements states accumulate (observation, DESIGN.md).")
