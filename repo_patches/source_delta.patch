From 151f2ffd930c2071dd7df79fc9fb4228922d8cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:28 +0000
Subject: [PATCH 01/15] fix: weigh gravity by the vehicle mass in the linear
 dynamics

---
 multirotor_simulator/multirotor_dynamic_model/dynamics.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index df821f6..1814dde 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -187,7 +187,8 @@ public:
     // Kinematics linear derivative
     state_.kinematics.linear_acceleration = get_vehicle_linear_velocity_derivative(
         model_.get_mass(), get_thrust_force_in_earth_frame(state_.actuators.motor_angular_velocity),
-        model_.get_drag_force(state_.kinematics.linear_velocity), model_.get_gravity(),
+        model_.get_drag_force(state_.kinematics.linear_velocity),
+        model_.get_gravity() * model_.get_mass(),
         model_.get_stochastic_force(), external_force, state_.dynamics.force);
 
     Vector3 position_derivative =
-- 
2.43.0


From 139cb3039b99698c88e62215fe7e63999496336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:28 +0000
Subject: [PATCH 02/15] fix: advance exactly dt when a long time step is split

---
 multirotor_simulator/multirotor_dynamic_model/dynamics.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index 1814dde..1f2c23f 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -148,10 +148,11 @@ public:
       throw std::invalid_argument("The time step must be greater than zero");
       return;
     } else if (dt > LOWEST_UPDATE_FREQUENCY) {
-      Scalar num_iter = dt / LOWEST_UPDATE_FREQUENCY;
+      // Split in equal steps, not longer than the maximum, that add up to dt
+      const int num_iter = static_cast<int>(std::ceil(dt / LOWEST_UPDATE_FREQUENCY));
+      const Scalar step  = std::min<Scalar>(dt / num_iter, LOWEST_UPDATE_FREQUENCY);
       for (int i = 0; i < num_iter; i++) {
-        process_euler_explicit(actuation_angular_velocity, LOWEST_UPDATE_FREQUENCY, external_force,
-                               enable_noise);
+        process_euler_explicit(actuation_angular_velocity, step, external_force, enable_noise);
       }
       return;
     }
-- 
2.43.0


From 313b86ade0813cd30913bb70f4f5acf2027cda05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:28 +0000
Subject: [PATCH 03/15] fix: dereference the pointer in the pointer overloads
 of set_state and set_model

---
 multirotor_simulator/multirotor_dynamic_model/dynamics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index 1f2c23f..d0cbd88 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -264,7 +264,7 @@ public:
    */
   void set_state(const State *state) {
     if (state != nullptr) {
-      state_ = state;
+      state_ = *state;
     }
   }
 
@@ -282,7 +282,7 @@ public:
    */
   void set_model(const Model *model) {
     if (model != nullptr) {
-      model_ = model;
+      model_ = *model;
     }
   }
 
-- 
2.43.0


From 49fac0a52548632546ed690d1921d7ed0cf95e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:28 +0000
Subject: [PATCH 04/15] fix: do not leave the floor reaction force behind when
 the time step is rejected

---
 multirotor_simulator/multirotor_simulator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index 2e0e462..3159df8 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -136,11 +136,12 @@ public:
    * @param dt Scalar Time step (s)
    */
   void update_dynamics(const Scalar dt) {
+    Vector3 external_force = external_force_;
     if (floor_collision_enable_ && dynamics_.get_state().kinematics.position.z() < floor_height_) {
-      external_force_ =
+      external_force =
           -dynamics_.get_model_const().get_gravity() * dynamics_.get_model_const().get_mass();
     }
-    dynamics_.process_euler_explicit(actuation_motors_angular_velocity_, dt, external_force_,
+    dynamics_.process_euler_explicit(actuation_motors_angular_velocity_, dt, external_force,
                                      !floor_collision_);
     external_force_  = Vector3::Zero();
     floor_collision_ = false;
-- 
2.43.0


From 49b833853197a4ba133c1bd57cd5e58a3a74296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:28 +0000
Subject: [PATCH 05/15] fix: let set_control_mode compile for any precision

---
 multirotor_simulator/multirotor_simulator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index 3159df8..e2b405f 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -319,10 +319,10 @@ public:
     Scalar roll, pitch;
     state::internal::quaternion_to_Euler(dynamics_.get_state().kinematics.orientation, roll, pitch,
                                          reference_yaw_);
-    reference_velocity_         = Eigen::Vector3d::Zero();
-    reference_acceleration_     = Eigen::Vector3d::Zero();
+    reference_velocity_         = Vector3::Zero();
+    reference_acceleration_     = Vector3::Zero();
     reference_thrust_           = 0.0;
-    reference_angular_velocity_ = Eigen::Vector3d::Zero();
+    reference_angular_velocity_ = Vector3::Zero();
   }
 
   /**
-- 
2.43.0


From 5e6fa20cdb63b80375ce944f13b139a0e61c6332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:28 +0000
Subject: [PATCH 06/15] fix: let the INDI controller take the parameters of any
 number of rotors

---
 .../multirotor_controllers/controllers/indi_controller.hpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp b/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
index 6b05fb2..d46e61e 100644
--- a/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
+++ b/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
@@ -128,7 +128,8 @@ public:
    *
    * @param params IndiControllerParams parameters
    */
-  explicit IndiController(const IndiControllerParams<P> &params = IndiControllerParams<P>())
+  explicit IndiController(
+      const IndiControllerParams<P, num_rotors> &params = IndiControllerParams<P, num_rotors>())
       : inertia_(params.inertia), mixer_matrix_inverse_(params.mixer_matrix_inverse),
         PID(params.pid_params) {}
   /**
@@ -196,7 +197,7 @@ public:
    *
    * @param params IndiControllerParams
    */
-  inline void update_params(const IndiControllerParams<P> &params) {
+  inline void update_params(const IndiControllerParams<P, num_rotors> &params) {
     update_inertia(params.inertia);
     update_mixer_matrix_inverse(params.mixer_matrix_inverse);
     this->update_pid_params(params.pid_params);
-- 
2.43.0


From d383635eec0470b49430c6538bea926a86dda16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:28 +0000
Subject: [PATCH 07/15] fix: return the IMU measurement pair by value instead
 of a dangling reference

---
 multirotor_simulator/imu_simulator/imu.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multirotor_simulator/imu_simulator/imu.hpp b/multirotor_simulator/imu_simulator/imu.hpp
index 049032f..bab2fd3 100644
--- a/multirotor_simulator/imu_simulator/imu.hpp
+++ b/multirotor_simulator/imu_simulator/imu.hpp
@@ -236,7 +236,7 @@ public:
    * @return const std::pair<Vector3, Vector3>& Gyroscope and accelerometer measurement in body
    * frame.
    */
-  inline const std::pair<Vector3, Vector3>& get_measurement() const {
+  inline std::pair<Vector3, Vector3> get_measurement() const {
     return std::make_pair(gyro_, accel_);
   }
 
-- 
2.43.0


From c75853ecd1e9f72b4a404fe46913a5bcbac805d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:28 +0000
Subject: [PATCH 08/15] fix: express the accelerometer input in the body frame
 and the odometry acceleration in the world frame

---
 multirotor_simulator/imu_simulator/inertial_odometry.hpp | 2 +-
 multirotor_simulator/multirotor_simulator.hpp            | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/imu_simulator/inertial_odometry.hpp b/multirotor_simulator/imu_simulator/inertial_odometry.hpp
index 9bc2b21..44de6a1 100644
--- a/multirotor_simulator/imu_simulator/inertial_odometry.hpp
+++ b/multirotor_simulator/imu_simulator/inertial_odometry.hpp
@@ -239,7 +239,7 @@ protected:
     angular_velocity_ = gyro_filtered_;
 
     // Linear acceleration in world frame
-    linear_acceleration_ = orientation_.inverse() * accel_filtered_;
+    linear_acceleration_ = orientation_ * accel_filtered_;
 
     // Integrate angular velocity to get orientation quaternion
     orientation_ = get_quaternion_integrate(orientation_, angular_velocity_, dt);
diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index e2b405f..0e0a11b 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -244,7 +244,8 @@ public:
   inline void update_imu(const Scalar dt) {
     // Convert force from world to body frame
     imu_.update(dt,
-                dynamics_.get_state().kinematics.orientation * dynamics_.get_state().dynamics.force,
+                dynamics_.get_state().kinematics.orientation.inverse() *
+                    dynamics_.get_state().dynamics.force / dynamics_.get_model_const().get_mass(),
                 dynamics_.get_state().kinematics.angular_velocity);
   }
 
-- 
2.43.0


From 45e3fb770b5a5bcb1e90b4864223a86b2ed3735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:28 +0000
Subject: [PATCH 09/15] fix: store the mixer matrix instead of shadowing it
 with a local

---
 multirotor_simulator/multirotor_dynamic_model/model.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/model.hpp b/multirotor_simulator/multirotor_dynamic_model/model.hpp
index 2b07b8e..75a5946 100644
--- a/multirotor_simulator/multirotor_dynamic_model/model.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/model.hpp
@@ -169,7 +169,7 @@ private:
   Matrix3N mixer_force_matrix_;    // [Fx, Fy, Fz] = Mixer * a^2
   Matrix3N mixer_torque_matrix_;   // [Mx, My, Mz] = Mixer * a^2
   Matrix3N mixer_inertia_matrix_;  // [Ix, Iy, Iz] = Mixer * a^2
-  MatrixN6 mixer_matrix_;          // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
+  Matrix6N mixer_matrix_;          // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
 
   // Noise properties
   std::default_random_engine random_number_generator_;  // Random number generator
@@ -196,7 +196,7 @@ public:
     params_ = params;
 
     // Motor mixer matrix
-    Matrix6N mixer_matrix_ = compute_mixer_matrix<6>(params.motors_params);
+    mixer_matrix_ = compute_mixer_matrix<6>(params.motors_params);
 
     // Update mixer matrix
     mixer_force_vector_  = mixer_matrix_.row(2);
@@ -479,7 +479,7 @@ public:
    *
    * @return MatrixN6 Mixer matrix
    */
-  inline const MatrixN6 &get_mixer_matrix() const { return mixer_matrix_; }
+  inline const Matrix6N &get_mixer_matrix() const { return mixer_matrix_; }
 
 public:
   // Static functions
-- 
2.43.0


From a73e70b023adc58492e32ce4fc5a64dfe43dbbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:47 +0000
Subject: [PATCH 10/15] fix: keep the filtered derivative finite when the PID
 is run with a zero time step

---
 pid_controller/include/pid_controller/pid.hpp    | 10 +++++++---
 pid_controller/include/pid_controller/pid_1d.hpp | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pid_controller/include/pid_controller/pid.hpp b/pid_controller/include/pid_controller/pid.hpp
index 0e05728..a7df633 100644
--- a/pid_controller/include/pid_controller/pid.hpp
+++ b/pid_controller/include/pid_controller/pid.hpp
@@ -663,10 +663,14 @@ protected:
                                                      const Vector &proportional_error) {
     // Compute the derivative contribution of the error filtered with a first
     // order filter
-    Vector derivate_proportional_error_increment = (proportional_error - proportional_error_) / dt;
+    // If no time has elapsed there is no rate to measure, keep the last one
+    if (dt != 0) {
+      Vector derivate_proportional_error_increment =
+          (proportional_error - proportional_error_) / dt;
 
-    filtered_derivate_error_ = alpha_.cwiseProduct(derivate_proportional_error_increment) +
-                               (Vector::Ones() - alpha_).cwiseProduct(filtered_derivate_error_);
+      filtered_derivate_error_ = alpha_.cwiseProduct(derivate_proportional_error_increment) +
+                                 (Vector::Ones() - alpha_).cwiseProduct(filtered_derivate_error_);
+    }
 
     // Compute the derivate contribution
     Vector derivate_error_contribution = compute_derivative_contribution(filtered_derivate_error_);
diff --git a/pid_controller/include/pid_controller/pid_1d.hpp b/pid_controller/include/pid_controller/pid_1d.hpp
index 7d3f4d5..883d4e6 100644
--- a/pid_controller/include/pid_controller/pid_1d.hpp
+++ b/pid_controller/include/pid_controller/pid_1d.hpp
@@ -567,10 +567,14 @@ protected:
                                                      const Scalar proportional_error) {
     // Compute the derivative contribution of the error filtered with a first
     // order filter
-    Scalar derivate_proportional_error_increment = (proportional_error - proportional_error_) / dt;
+    // If no time has elapsed there is no rate to measure, keep the last one
+    if (dt != 0) {
+      Scalar derivate_proportional_error_increment =
+          (proportional_error - proportional_error_) / dt;
 
-    filtered_derivate_error_ =
-        alpha_ * derivate_proportional_error_increment + (1.0 - alpha_) * filtered_derivate_error_;
+      filtered_derivate_error_ = alpha_ * derivate_proportional_error_increment +
+                                 (1.0 - alpha_) * filtered_derivate_error_;
+    }
 
     // Compute the derivate contribution
     Scalar derivate_error_contribution = compute_derivative_contribution(filtered_derivate_error_);
-- 
2.43.0


From 89349fbf8ee35970d56cb231a257ce79893cee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:47 +0000
Subject: [PATCH 11/15] fix: let the integral reset flag act on an integrator
 held at its anti-windup limit

---
 pid_controller/include/pid_controller/pid.hpp    | 2 +-
 pid_controller/include/pid_controller/pid_1d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pid_controller/include/pid_controller/pid.hpp b/pid_controller/include/pid_controller/pid.hpp
index a7df633..811a060 100644
--- a/pid_controller/include/pid_controller/pid.hpp
+++ b/pid_controller/include/pid_controller/pid.hpp
@@ -630,7 +630,7 @@ protected:
     // axis
     if (reset_integral_flag_ != 0) {
       for (int j = 0; j < proportional_error.size(); j++) {
-        if (std::abs(integral_accum_error_[j]) > antiwindup_cte_[j]) {
+        if (std::abs(integral_accum_error_[j]) >= antiwindup_cte_[j]) {
           if (std::signbit(integral_accum_error_[j]) != std::signbit(proportional_error[j])) {
             integral_accum_error_[j] = 0.0;
           }
diff --git a/pid_controller/include/pid_controller/pid_1d.hpp b/pid_controller/include/pid_controller/pid_1d.hpp
index 883d4e6..e73834d 100644
--- a/pid_controller/include/pid_controller/pid_1d.hpp
+++ b/pid_controller/include/pid_controller/pid_1d.hpp
@@ -535,7 +535,7 @@ protected:
     // If sing of the error changes and the integrator is saturated, reset the
     // integral for each axis
     if (reset_integral_flag_ != 0) {
-      if (std::abs(integral_accum_error_) > antiwindup_cte_) {
+      if (std::abs(integral_accum_error_) >= antiwindup_cte_) {
         if (std::signbit(integral_accum_error_) != std::signbit(proportional_error)) {
           integral_accum_error_ = 0.0;
         }
-- 
2.43.0


From 92bad2e2e947de19db0f3cc3024e5c13f0a6f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:22 +0000
Subject: [PATCH 12/15] fix: report no saturation limits in get_params while
 the output saturation is disabled

---
 pid_controller/include/pid_controller/pid.hpp    | 4 +++-
 pid_controller/include/pid_controller/pid_1d.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pid_controller/include/pid_controller/pid.hpp b/pid_controller/include/pid_controller/pid.hpp
index 811a060..856bdc0 100644
--- a/pid_controller/include/pid_controller/pid.hpp
+++ b/pid_controller/include/pid_controller/pid.hpp
@@ -390,7 +390,9 @@ public:
     params.alpha                        = get_alpha();
     params.reset_integral_flag          = get_reset_integral_saturation_flag();
     params.proportional_saturation_flag = get_proportional_saturation_flag();
-    get_saturation_limits(params.upper_output_saturation, params.lower_output_saturation);
+    if (saturation_flag_) {
+      get_saturation_limits(params.upper_output_saturation, params.lower_output_saturation);
+    }
     return params;
   }
 
diff --git a/pid_controller/include/pid_controller/pid_1d.hpp b/pid_controller/include/pid_controller/pid_1d.hpp
index e73834d..e93c409 100644
--- a/pid_controller/include/pid_controller/pid_1d.hpp
+++ b/pid_controller/include/pid_controller/pid_1d.hpp
@@ -335,7 +335,9 @@ public:
     params.antiwindup_cte      = get_anti_windup();
     params.alpha               = get_alpha();
     params.reset_integral_flag = get_reset_integral_saturation_flag();
-    get_saturation_limits(params.upper_output_saturation, params.lower_output_saturation);
+    if (saturation_flag_) {
+      get_saturation_limits(params.upper_output_saturation, params.lower_output_saturation);
+    }
     return params;
   }
 
-- 
2.43.0


From 6babf6bcc932c768dbaf1ac3ac926233435f4b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:22 +0000
Subject: [PATCH 13/15] fix: separate all the fields of the printed state

---
 .../multirotor_dynamic_model/common/state.hpp            | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/common/state.hpp b/multirotor_simulator/multirotor_dynamic_model/common/state.hpp
index ca14570..8d991a8 100644
--- a/multirotor_simulator/multirotor_dynamic_model/common/state.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/common/state.hpp
@@ -203,10 +203,7 @@ std::ostream& operator<<(std::ostream& os, const Actuators<T, num_rotors>& actua
 template <typename T = double, int num_rotors = 4>
 std::ostream& print_actuators(std::ostream& os, const Actuators<T, num_rotors>& actuators) {
   for (int i = 0; i < num_rotors; i++) {
-    os << "motor_" << i << "_angular_velocity: " << actuators.motor_angular_velocity[i];
-    if (i < num_rotors - 1) {
-      os << ", ";
-    }
+    os << "motor_" << i << "_angular_velocity: " << actuators.motor_angular_velocity[i] << ", ";
   }
   for (int i = 0; i < num_rotors; i++) {
     os << "motor_" << i << "_angular_acceleration: " << actuators.motor_angular_acceleration[i];
@@ -247,8 +244,8 @@ std::ostream& operator<<(std::ostream& os, const State<T, num_rotors>& state) {
 
 template <typename T = double, int num_rotors = 4>
 void print_state(const State<T, num_rotors>& state) {
-  state::internal::print_kinematics(std::cout, state.kinematics);
-  state::internal::print_dynamics(std::cout, state.dynamics);
+  state::internal::print_kinematics(std::cout, state.kinematics) << ", ";
+  state::internal::print_dynamics(std::cout, state.dynamics) << ", ";
   state::internal::print_actuators(std::cout, state.actuators);
 }
 
-- 
2.43.0


From d31ada6b01c09fb9e2a305e0133678dd323e50bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:27 +0000
Subject: [PATCH 14/15] fix: refuse model parameters with a wrong number of
 motors

Model::update_params accepted any number of motors: one too many writes a column
outside the mixer matrix (Eigen assertion), too few leave rotors without limits.
---
 multirotor_simulator/multirotor_dynamic_model/model.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/multirotor_simulator/multirotor_dynamic_model/model.hpp b/multirotor_simulator/multirotor_dynamic_model/model.hpp
index 75a5946..d59813b 100644
--- a/multirotor_simulator/multirotor_dynamic_model/model.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/model.hpp
@@ -510,6 +510,10 @@ public:
       std::cout << "ERROR: vehicle aero moment coefficient must be positive definite" << std::endl;
       return false;
     }
+    if (params.motors_params.size() != static_cast<std::size_t>(num_rotors)) {
+      std::cout << "ERROR: there must be one set of motor parameters per rotor" << std::endl;
+      return false;
+    }
     for (auto &motor : params.motors_params) {
       if (motor.max_speed < motor.min_speed) {
         std::cout << "ERROR: motor max speed must be greater than min speed" << std::endl;
-- 
2.43.0


From 89495c2a890ce91401c121990f56657d4ebc8801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:14 +0000
Subject: [PATCH 15/15] fix: give a model built from refused parameters defined
 contents

Model's constructor relied on update_params to fill the parameters and the mixer
matrices; when the parameters are refused they stayed uninitialised and the flight
depended on what the memory held.
---
 .../multirotor_dynamic_model/model.hpp               | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/model.hpp b/multirotor_simulator/multirotor_dynamic_model/model.hpp
index d59813b..9f60da4 100644
--- a/multirotor_simulator/multirotor_dynamic_model/model.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/model.hpp
@@ -162,14 +162,14 @@ public:
 
 private:
   // Model parameters
-  ModelParamsP params_;
+  ModelParamsP params_ = ModelParamsP();
 
   // Motor mixer matrix
-  VectorN mixer_force_vector_;     // Fz = Mixer * w^2
-  Matrix3N mixer_force_matrix_;    // [Fx, Fy, Fz] = Mixer * a^2
-  Matrix3N mixer_torque_matrix_;   // [Mx, My, Mz] = Mixer * a^2
-  Matrix3N mixer_inertia_matrix_;  // [Ix, Iy, Iz] = Mixer * a^2
-  Matrix6N mixer_matrix_;          // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
+  VectorN mixer_force_vector_    = VectorN::Zero();   // Fz = Mixer * w^2
+  Matrix3N mixer_force_matrix_   = Matrix3N::Zero();  // [Fx, Fy, Fz] = Mixer * a^2
+  Matrix3N mixer_torque_matrix_  = Matrix3N::Zero();  // [Mx, My, Mz] = Mixer * a^2
+  Matrix3N mixer_inertia_matrix_ = Matrix3N::Zero();  // [Ix, Iy, Iz] = Mixer * a^2
+  Matrix6N mixer_matrix_         = Matrix6N::Zero();  // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
 
   // Noise properties
   std::default_random_engine random_number_generator_;  // Random number generator
-- 
2.43.0

