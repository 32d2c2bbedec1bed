From 7d073f763f08a0069115ba8e146853096e98c5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:16 +0000
Subject: [PATCH 01/25] fix: start the maximum of an accumulator at the lowest
 value

numeric_limits<double>::min() is the smallest positive number, so Max()
was wrong whenever no sample exceeded it (zero or negative durations).
---
 msf_timing/include/msf_timing/Timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_timing/include/msf_timing/Timer.h b/msf_timing/include/msf_timing/Timer.h
index 85049b9..e7e7ec1 100755
--- a/msf_timing/include/msf_timing/Timer.h
+++ b/msf_timing/include/msf_timing/Timer.h
@@ -38,7 +38,7 @@ class Accumulator {
         window_sum_(0),
         sum_(0),
         min_(std::numeric_limits < T > ::max()),
-        max_(std::numeric_limits < T > ::min()) {
+        max_(std::numeric_limits < T > ::lowest()) {
   }
 
   void Add(T sample) {
-- 
2.43.0


From 7b5d2bc915b5f1ca2555ff33413e8819404a8651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:16 +0000
Subject: [PATCH 02/25] fix: do not record a sample when a timer that is not
 running is stopped

Stop() on a timer that was never started, or was stopped already, added a
sample measured from an unrelated or default time point.
---
 msf_timing/src/Timer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msf_timing/src/Timer.cc b/msf_timing/src/Timer.cc
index 7482420..52a483e 100755
--- a/msf_timing/src/Timer.cc
+++ b/msf_timing/src/Timer.cc
@@ -96,6 +96,8 @@ void Timer::Start() {
 }
 
 void Timer::Stop() {
+  if (!IsTiming())
+    return;
   std::chrono::time_point < std::chrono::system_clock > now =
       std::chrono::system_clock::now();
   double dt = static_cast<double>(std::chrono::duration_cast
-- 
2.43.0


From 6e38548664d4f814dbea365cb938d730c71da2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:07 +0000
Subject: [PATCH 03/25] fix: do not step in front of the first buffered element

Decrementing begin() is undefined and with libstdc++ yields begin() itself
for one or two elements: GetIteratorClosest then returned the first of two
elements although the second was closer, and GetPreviousMeasurement missed
the only previous measurement (and dereferenced end() for an unknown time).
---
 .../msf_core/implementation/msf_core_inl.h      | 17 ++++++-----------
 msf_core/include/msf_core/msf_sortedContainer.h |  6 ++++--
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 7742cdf..88507fa 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -720,22 +720,17 @@ MSF_Core<EKFState_T>::GetPreviousMeasurement(
     double time, int sensorID) {
   typename measurementBufferT::iterator_T it = MeasurementBuffer_
       .GetIteratorAtValue(time);
-  if (it->second->time != time) {
+  if (it == MeasurementBuffer_.GetIteratorEnd() || it->second->time != time) {
     MSF_WARN_STREAM("GetPreviousMeasurement: Error invalid iterator at value");
     return MeasurementBuffer_.GetInvalid();
   }
-  --it;
-  typename measurementBufferT::iterator_T itbeforebegin = MeasurementBuffer_
-      .GetIteratorBeforeBegin();
-  while (it != itbeforebegin
-      && (it->second->time != time && it->second->sensorID_ != sensorID)) {
+  while (it != MeasurementBuffer_.GetIteratorBegin()) {
     --it;
+    if (it->second->sensorID_ == sensorID)
+      return it->second;
   }
-  if (it == itbeforebegin) {
-    MSF_WARN_STREAM("GetPreviousMeasurement: Error hit before begin");
-    return MeasurementBuffer_.GetInvalid();
-  }
-  return it->second;
+  MSF_WARN_STREAM("GetPreviousMeasurement: Error hit before begin");
+  return MeasurementBuffer_.GetInvalid();
 }
 
 template<typename EKFState_T>
diff --git a/msf_core/include/msf_core/msf_sortedContainer.h b/msf_core/include/msf_core/msf_sortedContainer.h
index fc0bd83..1032694 100644
--- a/msf_core/include/msf_core/msf_sortedContainer.h
+++ b/msf_core/include/msf_core/msf_sortedContainer.h
@@ -107,10 +107,10 @@ class SortedContainer {
 
   /**
    * \brief Returns the iterator before the beginning of the internal container.
+   * There is no such element, this position is represented by the end iterator.
    */
   inline typename ListT::iterator GetIteratorBeforeBegin() {
-    typename ListT::iterator it = stateList.begin();
-    return --it;
+    return stateList.end();
   }
 
   /**
@@ -166,6 +166,8 @@ class SortedContainer {
   inline typename ListT::iterator GetIteratorClosestBefore(
       const double& statetime) {
     typename ListT::iterator it = stateList.lower_bound(statetime);
+    if (it == stateList.begin())  // There is no value before this time.
+      return GetIteratorBeforeBegin();
     --it;
     return it;
   }
-- 
2.43.0


From 7871a7234c8950aea9fd9279aecb1f431791b09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:07 +0000
Subject: [PATCH 04/25] fix: keep the last IMU state iterator valid when a
 state is re-timed

UpdateTime erases the map node it_last_IMU points to, so the next IMU
message after a large time gap read freed memory.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 88507fa..c0f0bf8 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -106,6 +106,8 @@ void MSF_Core<EKFState_T>::ProcessIMU(
   msf_timing::DebugTimer timer_PropGetClosestState("PropGetClosestState");
   if (it_last_IMU == stateBuffer_.GetIteratorEnd()) {
     it_last_IMU = stateBuffer_.GetIteratorClosestBefore(msg_stamp);
+    if (it_last_IMU == stateBuffer_.GetIteratorEnd())
+      return;  // No state to propagate from.
   }
 
   shared_ptr<EKFState_T> lastState = it_last_IMU->second;
@@ -167,6 +169,8 @@ void MSF_Core<EKFState_T>::ProcessIMU(
           2, "large time-gap re-initializing to last state\n");
       typename StateBuffer_T::Ptr_T tmp = stateBuffer_.UpdateTime(
           lastState->time, currentState->time);
+      // The old position of the state in the buffer does not exist any more.
+      it_last_IMU = stateBuffer_.GetIteratorAtValue(tmp);
       time_P_propagated = currentState->time;
       return;  // // early abort // // (if timegap too big)
     }
-- 
2.43.0


From c4f696064259a8d26b7f81a62d1fca1dcb01bbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:07 +0000
Subject: [PATCH 05/25] fix: keep iterator and covariance time valid with
 external propagation

The external state callback clears or re-times the state buffer but left
it_last_IMU pointing at the erased element and, for a re-timed state,
time_P_propagated at a time that may lie behind the newest state. A
following IMU message read freed memory or incremented end().
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index c0f0bf8..67ff1dc 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -258,6 +258,8 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
     if (fabs(currentState->time - lastState->time) > 5) {
       typename StateBuffer_T::Ptr_T tmp = stateBuffer_.UpdateTime(
           lastState->time, currentState->time);
+      it_last_IMU = stateBuffer_.GetIteratorAtValue(tmp);
+      time_P_propagated = currentState->time;
       MSF_WARN_STREAM_THROTTLE(
           2, "large time-gap re-initializing to last state: "
           << msf_core::timehuman(tmp->time));
@@ -299,7 +301,7 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
     }
   }
 
-  stateBuffer_.Insert(currentState);
+  it_last_IMU = stateBuffer_.Insert(currentState);
   PropagatePOneStep();
   predictionMade_ = true;
   usercalc_.PublishStateAfterPropagation(currentState);
-- 
2.43.0


From ece66fb55d8e79bc9ee422bef51e8c33dc535271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:07 +0000
Subject: [PATCH 06/25] fix: clean up the buffers after the measurements are
 applied

CleanUpBuffers ran inside GetClosestState, so a measurement delayed by more
than the buffer age could be erased while AddMeasurement iterated over it.
---
 .../include/msf_core/implementation/msf_core_inl.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 67ff1dc..ea192a5 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -718,6 +718,14 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   PropPToState(latestState);  // Get the latest covariance.
 
   usercalc_.PublishStateAfterUpdate(latestState);
+
+  // Not before all iterators into the buffers are out of use.
+  static int janitorRun = 0;
+  if (janitorRun++ > 100) {
+    // Remove very old states and measurements from the buffers.
+    CleanUpBuffers();
+    janitorRun = 0;
+  }
 }
 
 template<typename EKFState_T>
@@ -819,12 +827,6 @@ shared_ptr<EKFState_T> MSF_Core<EKFState_T>::GetClosestState(double tstamp) {
     return stateBuffer_.GetInvalid();  // Early abort.
   }
 
-  static int janitorRun = 0;
-  if (janitorRun++ > 100) {
-    // Remove very old states and measurements from the buffers.
-    CleanUpBuffers();
-    janitorRun = 0;
-  }
   return closestState;
 }
 
-- 
2.43.0


From e9345b0df3a597bc69101ba5ec2eca823a39b5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:07 +0000
Subject: [PATCH 07/25] fix: accumulate state transitions in order of time

The transition of a later interval multiplies from the left:
x(k+2) = Fd(k+1) * Fd(k) * x(k).
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index ea192a5..cfa223b 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -441,7 +441,7 @@ void MSF_Core<EKFState_T>::GetAccumulatedStateTransitionStochasticCloning(
       MSF_Core<EKFState_T>::nErrorStatesAtCompileTime> F_type;
   F = F_type::Identity();
   for (; it != itend; ++it) {
-    F = F * it->second->Fd;
+    F = it->second->Fd * F;
   }
 }
 
-- 
2.43.0


From 51fd82476cbf6298d36cb1fe0219730c9c9ea6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:07 +0000
Subject: [PATCH 08/25] fix: evaluate P + P' before assigning it to P

Eigen assigns 0.5 * (P + P.transpose()) to P element by element, so the
elements below the diagonal were averaged with already averaged ones and P
did not become symmetric.
---
 .../include/msf_core/implementation/msf_measurement_inl.h   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_measurement_inl.h b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
index 70bf1b0..6ed64c0 100644
--- a/msf_core/include/msf_core/implementation/msf_measurement_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
@@ -74,7 +74,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
 
   // Make sure P stays symmetric.
-  P = 0.5 * (P + P.transpose());
+  P = 0.5 * (P + P.transpose()).eval();
 
   core.ApplyCorrection(state, correction_);
 }
@@ -118,7 +118,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
 
   // Make sure P stays symmetric.
-  P = 0.5 * (P + P.transpose());
+  P = 0.5 * (P + P.transpose()).eval();
 
   core.ApplyCorrection(state, correction_);
 }
@@ -192,7 +192,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrectionRelative(
 
   // Make sure P stays symmetric.
   // TODO (slynen): EV, set Evalues<eps to zero, then reconstruct.
-  state_new->P = 0.5 * (state_new->P + state_new->P.transpose());
+  state_new->P = 0.5 * (state_new->P + state_new->P.transpose()).eval();
 
   core.ApplyCorrection(state_new, correction_);
 }
-- 
2.43.0


From 26d8a4c3684249c6ef731f2c19ec0ddfbc05bf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:22 +0000
Subject: [PATCH 09/25] fix: evaluate the symmetrised initial covariance before
 assigning it

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index cfa223b..58a9ca8 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -85,7 +85,7 @@ void MSF_Core<EKFState_T>::SetPCore(
             -0.0002, -0.0002, -0.0004, -0.0001, 0.0003, 0.0001, -0.0001, -0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0010, 0.0000,
             -0.0000, 0.0000, -0.0001, 0.0000, 0.0000, -0.0001, -0.0000, -0.0000, -0.0000, 0.0000, 0.0000, -0.0000, 0.0000, 0.0000, 0.0001;
 
-  P_core = 0.5 * (P_core + P_core.transpose());
+  P_core = 0.5 * (P_core + P_core.transpose()).eval();
   P.template block<coreErrorStates, coreErrorStates>(0, 0) = P_core;
 }
 
-- 
2.43.0


From 493c59f5a415ee656d9ff8d7b4549e6e02657545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 10/25] fix: do not correct a fixed prism position with
 spherical measurements

---
 .../spherical_position_sensor/spherical_measurement.h       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index 3d127f5..52fed0f 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -241,7 +241,8 @@ struct AngleMeasurement : public AngleMeasurementBase {
         / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0));
     H.block<2, 3>(0, idxstartcorr_p_) = dz_dp;
     H.block<2, 3>(0, idxstartcorr_q_) = dz_dq;
-    H.block<2, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
+    if (!fixed_p_pos_imu)
+      H.block<2, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
 
   }
 
@@ -459,7 +460,8 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
     H.block<1, 3>(0, idxstartcorr_p_) = dz_dp;
     H.block<1, 3>(0, idxstartcorr_q_) = dz_dq;
-    H.block<1, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
+    if (!fixed_p_pos_imu)
+      H.block<1, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
   }
 
   /**
-- 
2.43.0


From de2b4f3f9cf101b83bac52dcbef48aa3ed214dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 11/25] fix: derive the pose residual by p_wv with attitude and
 scale of the world-vision drift

---
 .../msf_updates/pose_sensor_handler/pose_measurement.h        | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index a64e726..e251d9e 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -247,12 +247,10 @@ struct PoseMeasurement : public PoseMeasurementBase {
             (C_wv * C_q * state.Get<StateLIdx>()(0)).eval();  //p_ic
 
 
-    // TODO (slynen): Check scale commenting
     H.block<3, 3>(0, kIdxstartcorr_pwv) =
         driftwvposfix ?
             Eigen::Matrix<double, 3, 3>::Zero() :
-            (-Eigen::Matrix<double, 3, 3>::Identity()
-            /* * state.Get<StateLIdx>()(0)*/).eval();  //p_wv
+            (-C_wv * state.Get<StateLIdx>()(0)).eval();  //p_wv
 
     // Attitude.
     H.block<3, 3>(3, kIdxstartcorr_q) = C_ci;  // q
-- 
2.43.0


From 6a0dc6f9c6b635417293ec23743533557d53fd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 12/25] fix: no yaw residual of the world-vision drift while
 its row of H is zero

---
 .../pose_sensor_handler/pose_measurement.h        | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index e251d9e..906be41 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -312,11 +312,9 @@ struct PoseMeasurement : public PoseMeasurementBase {
           * state.Get<StateDefinition_T::q>()
           * state.Get<StateQicIdx>()).conjugate() * z_q_;
       r_old.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;
-      // Vision world yaw drift.
-      q_err = state.Get<StateQwvIdx>();
-
-      r_old(6, 0) = -2 * (q_err.w() * q_err.z() + q_err.x() * q_err.y())
-          / (1 - 2 * (q_err.y() * q_err.y() + q_err.z() * q_err.z()));
+      // Vision world yaw drift: not observed, see the last row of H. A residual
+      // here would only make the outlier rejection reject the measurement.
+      r_old(6, 0) = 0;
 
       if (!CheckForNumeric(r_old, "r_old")) {
         MSF_ERROR_STREAM("r_old: "<<r_old);
@@ -425,11 +423,8 @@ struct PoseMeasurement : public PoseMeasurementBase {
       q_err = diffprobatt.conjugate() * diffmeasatt;
 
       r_new.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;
-      // Vision world yaw drift.
-      q_err = state_new.Get<StateQwvIdx>();
-
-      r_new(6, 0) = -2 * (q_err.w() * q_err.z() + q_err.x() * q_err.y())
-          / (1 - 2 * (q_err.y() * q_err.y() + q_err.z() * q_err.z()));
+      // Vision world yaw drift: not observed, see the last row of H.
+      r_new(6, 0) = 0;
 
       if (!CheckForNumeric(r_old, "r_old")) {
         MSF_ERROR_STREAM("r_old: "<<r_old);
-- 
2.43.0


From 04f4301759c564054fba276cd3efa26537e8a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 13/25] fix: attitude residual of relative pose measurements
 had the wrong sign

---
 .../include/msf_updates/pose_sensor_handler/pose_measurement.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index 906be41..ef274a6 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -420,7 +420,7 @@ struct PoseMeasurement : public PoseMeasurementBase {
       Eigen::Quaternion<double> diffmeasatt = z_q_.conjugate() * prevmeas->z_q_;
 
       Eigen::Quaternion<double> q_err;
-      q_err = diffprobatt.conjugate() * diffmeasatt;
+      q_err = diffprobatt * diffmeasatt.conjugate();
 
       r_new.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;
       // Vision world yaw drift: not observed, see the last row of H.
-- 
2.43.0


From e239a825b91c54fb6da6d9ae0dd8b85861132d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:00 +0000
Subject: [PATCH 14/25] fix: quaternion integration used X^4 and X^8 as third
 and fourth power of the exponential series

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 58a9ca8..bbe8979 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -368,10 +368,11 @@ void MSF_Core<EKFState_T>::PropagateState(shared_ptr<EKFState_T>& state_old,
   Matrix4 MatExp;
   MatExp.setIdentity();
   OmegaMean *= 0.5 * dt;
+  Matrix4 OmegaPower = OmegaMean;
   for (int i = 1; i < 5; i++) {  // Can be made fourth order or less to save cycles.
     div *= i;
-    MatExp = MatExp + OmegaMean / div;
-    OmegaMean *= OmegaMean;
+    MatExp = MatExp + OmegaPower / div;
+    OmegaPower *= OmegaMean;
   }
 
   // First oder quat integration matrix.
-- 
2.43.0


From 751df712dc6420544f813b27d1339557d43214f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 15/25] fix: pose_pressure node ignored pose_noise_p_wv

---
 .../src/pose_pressure_msf/pose_pressure_sensormanager.h       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 2a18ac1..d99e728 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -208,6 +208,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
   virtual void CalculateQAuxiliaryStates(EKFState_T& state, double dt) const {
     const msf_core::Vector3 nqwvv = msf_core::Vector3::Constant(
         config_.pose_noise_q_wv);
+    const msf_core::Vector3 npwvv = msf_core::Vector3::Constant(
+        config_.pose_noise_p_wv);
     const msf_core::Vector3 nqicv = msf_core::Vector3::Constant(
         config_.pose_noise_q_ic);
     const msf_core::Vector3 npicv = msf_core::Vector3::Constant(
@@ -223,6 +225,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
         .asDiagonal();
     state.GetQBlock<StateDefinition_T::q_wv>() =
         (dt * nqwvv.cwiseProduct(nqwvv)).asDiagonal();
+    state.GetQBlock<StateDefinition_T::p_wv>() =
+        (dt * npwvv.cwiseProduct(npwvv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::q_ic>() =
         (dt * nqicv.cwiseProduct(nqicv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::p_ic>() =
-- 
2.43.0


From 7ab5870cce9965106ebdcd2950d1842231a48a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 16/25] fix: position_pose node ignored position_noise_p_ip

---
 .../src/position_pose_msf/position_pose_sensormanager.h       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
index e285368..bbfe165 100644
--- a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
+++ b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
@@ -257,6 +257,8 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
         config_.pose_noise_p_ic);
     const msf_core::Vector1 n_L = msf_core::Vector1::Constant(
         config_.pose_noise_scale);
+    const msf_core::Vector3 npipv = msf_core::Vector3::Constant(
+        config_.position_noise_p_ip);
 
     // Compute the blockwise Q values and store them with the states,
     // these then get copied by the core to the correct places in Qd.
@@ -270,6 +272,8 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
         (dt * nqicv.cwiseProduct(nqicv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::p_ic>() =
         (dt * npicv.cwiseProduct(npicv)).asDiagonal();
+    state.GetQBlock<StateDefinition_T::p_ip>() =
+        (dt * npipv.cwiseProduct(npipv)).asDiagonal();
   }
 
   virtual void SetStateCovariance(
-- 
2.43.0


From d0a9147bece10a578494ebc384e693b3292a9ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:40 +0000
Subject: [PATCH 17/25] fix: pose sensor ignored
 pose_measurement_world_sensor=false with a fixed covariance

---
 .../pose_sensor_handler/pose_measurement.h    | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index ef274a6..8937b6c 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -93,23 +93,23 @@ struct PoseMeasurement : public PoseMeasurementBase {
       R_.block<3, 3>(0, 3) = Eigen::Matrix<double, 3, 3>::Zero();
       R_.block<3, 3>(3, 0) = Eigen::Matrix<double, 3, 3>::Zero();
       R_(6, 6) = 1e-6;  // q_wv yaw-measurement noise
+    }
 
-      /*************************************************************************************/
-      // Use this if your pose sensor is ethzasl_ptam (www.ros.org/wiki/ethzasl_ptam)
-      // ethzasl_ptam publishes the camera pose as the world seen from the camera.
-      if (!measurement_world_sensor_) {
-        Eigen::Matrix<double, 3, 3> C_zq = z_q_.toRotationMatrix();
-        z_q_ = z_q_.conjugate();
-        z_p_ = -C_zq.transpose() * z_p_;
+    /*************************************************************************************/
+    // Use this if your pose sensor is ethzasl_ptam (www.ros.org/wiki/ethzasl_ptam)
+    // ethzasl_ptam publishes the camera pose as the world seen from the camera.
+    if (!measurement_world_sensor_) {
+      Eigen::Matrix<double, 3, 3> C_zq = z_q_.toRotationMatrix();
+      z_q_ = z_q_.conjugate();
+      z_p_ = -C_zq.transpose() * z_p_;
 
-        Eigen::Matrix<double, 6, 6> C_cov(Eigen::Matrix<double, 6, 6>::Zero());
-        C_cov.block<3, 3>(0, 0) = C_zq;
-        C_cov.block<3, 3>(3, 3) = C_zq;
+      Eigen::Matrix<double, 6, 6> C_cov(Eigen::Matrix<double, 6, 6>::Zero());
+      C_cov.block<3, 3>(0, 0) = C_zq;
+      C_cov.block<3, 3>(3, 3) = C_zq;
 
-        R_.block<6, 6>(0, 0) = C_cov.transpose() * R_.block<6, 6>(0, 0) * C_cov;
-      }
-      /*************************************************************************************/
+      R_.block<6, 6>(0, 0) = C_cov.transpose() * R_.block<6, 6>(0, 0) * C_cov;
     }
+    /*************************************************************************************/
   }
  public:
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
-- 
2.43.0


From a6f90e2ca81979ab2a4f75db13d04bbba280e0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:09 +0000
Subject: [PATCH 18/25] fix: pose_pressure manager: hand all settings to the
 handlers first, including the pose delay

---
 .../pose_pressure_msf/pose_pressure_sensormanager.h    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index d99e728..4e91eca 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -86,6 +86,11 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
    */
   virtual void Config(Config_T &config, uint32_t level) {
     config_ = config;
+    // Pass the noise values and the delay to the sensor handlers.
+    pose_handler_->SetNoises(config.pose_noise_meas_p,
+                             config.pose_noise_meas_q);
+    pose_handler_->SetDelay(config.pose_delay);
+    pressure_handler_->SetNoises(config.press_noise_meas_p);
     // Init call with "init filter" checkbox.
     if ((level & msf_updates::SinglePoseSensor_INIT_FILTER)
         && config.core_init_filter == true) {
@@ -105,11 +110,6 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
       Init(scale);
       config.core_set_height = false;
     }
-
-    // Pass the noise values to the sensor handlers.
-    pose_handler_->SetNoises(config.pose_noise_meas_p,
-                             config.pose_noise_meas_q);
-    pressure_handler_->SetNoises(config.press_noise_meas_p);
   }
 
   void Init(double scale) const {
-- 
2.43.0


From 40c7ca6d23da1c9fab8a0b1f2aaf09ebf70b7e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:04 +0000
Subject: [PATCH 19/25] fix: do not read an external state the message does not
 contain

IMUHandler_ROS::StateCallback read sixteen entries (directly, and later from the
buffer used for the correction message) of an array whose length the sender
chooses. Messages with a shorter state are now treated as carrying no state.
---
 .../include/msf_core/msf_IMUHandler_ROS.h     | 38 ++++++++++++-------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/msf_core/include/msf_core/msf_IMUHandler_ROS.h b/msf_core/include/msf_core/msf_IMUHandler_ROS.h
index eb27c89..bb904aa 100644
--- a/msf_core/include/msf_core/msf_IMUHandler_ROS.h
+++ b/msf_core/include/msf_core/msf_IMUHandler_ROS.h
@@ -61,8 +61,17 @@ class IMUHandler_ROS : public IMUHandler<EKFState_T> {
   virtual ~IMUHandler_ROS() { }
 
   void StateCallback(const sensor_fusion_comm::ExtEkfConstPtr & msg) {
-    static_cast<MSF_SensorManagerROS<EKFState_T>&>(this->manager_)
-        .SetHLControllerStateBuffer(*msg);
+    // The length of the state is up to the sender: do not read (now, or later
+    // from the buffer) what the message does not contain.
+    const bool has_state = msg->state.size() >= HLI_EKF_STATE_SIZE;
+    if (has_state) {
+      static_cast<MSF_SensorManagerROS<EKFState_T>&>(this->manager_)
+          .SetHLControllerStateBuffer(*msg);
+    } else {
+      MSF_WARN_STREAM_THROTTLE(
+          2, "Ignoring the external state, it has " << msg->state.size()
+          << " entries instead of " << HLI_EKF_STATE_SIZE);
+    }
 
     // Get the imu values.
     msf_core::Vector3 linacc;
@@ -75,7 +84,7 @@ class IMUHandler_ROS : public IMUHandler<EKFState_T> {
 
     int32_t flag = msg->flag;
     // Make sure we tell the HL to ignore if data playback is on.
-    if (this->manager_.GetDataPlaybackStatus())
+    if (this->manager_.GetDataPlaybackStatus() || !has_state)
       flag = sensor_fusion_comm::ExtEkf::ignore_state;
 
     bool isnumeric = true;
@@ -86,16 +95,19 @@ class IMUHandler_ROS : public IMUHandler<EKFState_T> {
     }
 
     // Get the propagated states.
-    msf_core::Vector3 p, v;
-    msf_core::Quaternion q;
-
-    p = Eigen::Matrix<double, 3, 1>(msg->state[0], msg->state[1],
-                                    msg->state[2]);
-    v = Eigen::Matrix<double, 3, 1>(msg->state[3], msg->state[4],
-                                    msg->state[5]);
-    q = Eigen::Quaternion<double>(msg->state[6], msg->state[7], msg->state[8],
-                                  msg->state[9]);
-    q.normalize();
+    msf_core::Vector3 p = msf_core::Vector3::Zero();
+    msf_core::Vector3 v = msf_core::Vector3::Zero();
+    msf_core::Quaternion q = msf_core::Quaternion::Identity();
+
+    if (has_state) {
+      p = Eigen::Matrix<double, 3, 1>(msg->state[0], msg->state[1],
+                                      msg->state[2]);
+      v = Eigen::Matrix<double, 3, 1>(msg->state[3], msg->state[4],
+                                      msg->state[5]);
+      q = Eigen::Quaternion<double>(msg->state[6], msg->state[7], msg->state[8],
+                                    msg->state[9]);
+      q.normalize();
+    }
 
     bool is_already_propagated = false;
     if (flag == sensor_fusion_comm::ExtEkf::current_state && isnumeric) {
-- 
2.43.0


From 0fbab98948d4f0568c56ab19712a6c94af8b1935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:46 +0000
Subject: [PATCH 20/25] fix: position_pose: normalise the initial attitude of
 the vision frame

---
 msf_updates/src/position_pose_msf/position_pose_sensormanager.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
index bbfe165..2bf6f82 100644
--- a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
+++ b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
@@ -186,6 +186,7 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
 
     q = yawq;
     q_wv = (q * q_ic * q_vc.conjugate()).conjugate();
+    q_wv.normalize();
 
     MSF_WARN_STREAM("q " << STREAMQUAT(q));
     MSF_WARN_STREAM("q_wv " << STREAMQUAT(q_wv));
-- 
2.43.0


From e510863178a41169cc46c7395791b1213781d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:54 +0000
Subject: [PATCH 21/25] fix: GetQBlock: do not hand out core states' noise
 blocks for writing

---
 msf_core/include/msf_core/implementation/msf_state_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_state_inl.h b/msf_core/include/msf_core/implementation/msf_state_inl.h
index 9309d20..2b2d19a 100644
--- a/msf_core/include/msf_core/implementation/msf_state_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_state_inl.h
@@ -88,7 +88,7 @@ GenericState_T<stateVector_T, StateDefinition_T>::GetQBlock() {
 
   static_assert(
       static_cast<int>(StateVar_T::statetype_) != static_cast<int>(
-          msf_core::CoreStateWithPropagation) ||
+          msf_core::CoreStateWithPropagation) &&
       static_cast<int>(StateVar_T::statetype_) !=
       static_cast<int>(msf_core::CoreStateWithoutPropagation),
       "You requested a non-const reference to a Q-Block for a"
-- 
2.43.0


From 0571855c3ad1866745d337ac641631ea2bde0242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:54 +0000
Subject: [PATCH 22/25] fix: GetQBlock() const: return the noise block, which
 is called Q

---
 msf_core/include/msf_core/implementation/msf_state_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_state_inl.h b/msf_core/include/msf_core/implementation/msf_state_inl.h
index 2b2d19a..500560f 100644
--- a/msf_core/include/msf_core/implementation/msf_state_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_state_inl.h
@@ -105,7 +105,7 @@ template<int INDEX>
 inline const typename msf_tmp::StripReference<
     typename boost::fusion::result_of::at_c<stateVector_T, INDEX>::type>::result_t::Q_T&
 GenericState_T<stateVector_T, StateDefinition_T>::GetQBlock() const {
-  return boost::fusion::at < boost::mpl::int_<INDEX> > (statevars).Q_;
+  return boost::fusion::at < boost::mpl::int_<INDEX> > (statevars).Q;
 }
 
 /// Assembles a PoseWithCovarianceStamped message from the state
-- 
2.43.0


From 552b9c2de0f316226784959e97f62267a048d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:12 +0000
Subject: [PATCH 23/25] fix: each position handler sets its own GPS reference

The flag was a static local of the callback, shared by all handlers of a
type: only the first to get a fix set its reference, the others converted
with an unset one and took raw ECEF coordinates for local positions.
---
 .../implementation/position_sensorhandler.hpp            | 9 +++++----
 .../position_sensor_handler/position_sensorhandler.h     | 1 +
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp b/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
index 1b08ff1..c48b4d4 100644
--- a/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
@@ -30,7 +30,8 @@ PositionSensorHandler<MEASUREMENT_TYPE, MANAGER_TYPE>::PositionSensorHandler(
     : SensorHandler<msf_updates::EKFState>(meas, topic_namespace,
                                            parameternamespace),
       n_zp_(1e-6),
-      delay_(0) {
+      delay_(0),
+      gps_reference_initialized_(false) {
   ros::NodeHandle pnh("~/position_sensor");
   pnh.param("position_use_fixed_covariance", use_fixed_covariance_, false);
   bool enable_tcp_no_delay;
@@ -190,14 +191,14 @@ void PositionSensorHandler<MEASUREMENT_TYPE, MANAGER_TYPE>::MeasurementCallback(
           << " ***");
 
   // Fixed covariance will be set in measurement class -> MakeFromSensorReadingImpl.
-  static bool referenceinit = false;  //TODO (slynen): Dynreconf reset reference.
-  if (!referenceinit) {
+  //TODO (slynen): Dynreconf reset reference.
+  if (!gps_reference_initialized_) {
     gpsConversion_.InitReference(msg->latitude, msg->longitude, msg->altitude);
     MSF_WARN_STREAM(
         "Initialized GPS reference of topic: " << this->topic_namespace_ << "/"
             << subNavSatFix_.getTopic() << " to lat/lon/alt: [" << msg->latitude
             << ", " << msg->longitude << ", " << msg->altitude << "]");
-    referenceinit = true;
+    gps_reference_initialized_ = true;
   }
 
   msf_core::Vector3 ecef = gpsConversion_.WGS84ToECEF(msg->latitude,
diff --git a/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h b/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
index 8ba1970..2daf825 100644
--- a/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
+++ b/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
@@ -42,6 +42,7 @@ class PositionSensorHandler : public msf_core::SensorHandler<
   ros::Subscriber subTransformStamped_;
   ros::Subscriber subNavSatFix_;
   msf_core::GPSConversion gpsConversion_;
+  bool gps_reference_initialized_;  ///< Has the reference of gpsConversion_ been set.
 
   bool use_fixed_covariance_;  ///< Use fixed covariance set by dynamic reconfigure.
   bool provides_absolute_measurements_;  ///< Does this sensor measure relative or absolute values.
-- 
2.43.0


From d74161a3f605f49ec8f22f4f507b2889b0c35584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:21 +0000
Subject: [PATCH 24/25] fix: angle and distance Jacobians used the transposed
 attitude for the lever arm

---
 .../spherical_position_sensor/spherical_measurement.h         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index 52fed0f..51eeb1b 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -121,7 +121,7 @@ struct AngleMeasurement : public AngleMeasurementBase {
       state_in->ClearCrossCov<StateDefinition_T::p_ip>();
 
     Eigen::Matrix<double, 3, 3> C_q = state.Get<StateDefinition_T::q>()
-        .conjugate().toRotationMatrix();
+        .toRotationMatrix();
     Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>();
     Eigen::Matrix<double, 3, 1> p_ip = state.Get<StateDefinition_T::p_ip>();
     Eigen::Matrix<double, 2, 3> dz_dp;
@@ -390,7 +390,7 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
 
     // Get rotation matrices.
     Eigen::Matrix<double, 3, 3> C_q = state.Get<StateDefinition_T::q>()
-        .conjugate().toRotationMatrix();
+        .toRotationMatrix();
 
     // Preprocess for elements in H matrix.
     // Get indices of states in error vector.
-- 
2.43.0


From 88ef5d4ea345346c8e7e9a29fb22ed6926b310f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:21 +0000
Subject: [PATCH 25/25] fix: azimuth of points straight behind a spherical
 sensor was off by half a turn

---
 .../spherical_position_sensor/spherical_measurement.h    | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index 51eeb1b..37ab48e 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -273,14 +273,7 @@ struct AngleMeasurement : public AngleMeasurementBase {
           z_carth(0, 0) * z_carth(0, 0) + z_carth(1, 0) * z_carth(1, 0)
               + z_carth(2, 0) * z_carth(2, 0));
       double theta_old = acos(z_carth(2, 0) / radius_old);
-      double phi_old = atan(z_carth(1, 0) / z_carth(0, 0));
-      // Handle all exeptions that occur when transforming in spherical coordinates.
-      if (z_carth(0, 0) < 0 && z_carth(1, 0) < 0) {
-        phi_old -= M_PI;
-      }
-      if (z_carth(0, 0) < 0 && z_carth(1, 0) > 0) {
-        phi_old += M_PI;
-      }
+      double phi_old = atan2(z_carth(1, 0), z_carth(0, 0));
 
       msf_core::Vector2 z_spherical;
       z_spherical << theta_old, phi_old;
-- 
2.43.0

