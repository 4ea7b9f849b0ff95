From 50ff6b9e25b3d839ddd7caa6fea806e1227e9758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 01/11] fix: apply gravity as a force (mass times gravity)

The gravity acceleration was summed with the forces and then divided by the
mass, so vehicles with a mass other than 1 kg did not fall with g and did not
balance the m*g the floor and the controllers use.
---
 multirotor_simulator/multirotor_dynamic_model/dynamics.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index df821f6..1814dde 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -187,7 +187,8 @@ public:
     // Kinematics linear derivative
     state_.kinematics.linear_acceleration = get_vehicle_linear_velocity_derivative(
         model_.get_mass(), get_thrust_force_in_earth_frame(state_.actuators.motor_angular_velocity),
-        model_.get_drag_force(state_.kinematics.linear_velocity), model_.get_gravity(),
+        model_.get_drag_force(state_.kinematics.linear_velocity),
+        model_.get_gravity() * model_.get_mass(),
         model_.get_stochastic_force(), external_force, state_.dynamics.force);
 
     Vector3 position_derivative =
-- 
2.43.0


From ce44636a09c3690efbbbb3f8b71fec3489a6a3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 02/11] fix: integrate exactly the requested time when sub
 stepping

A step longer than the maximum integration step was rounded up to a whole
number of maximum steps, e.g. 0.015 s advanced the simulation 0.02 s.
---
 .../multirotor_dynamic_model/dynamics.hpp                 | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index 1814dde..0bc66e2 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -148,11 +148,15 @@ public:
       throw std::invalid_argument("The time step must be greater than zero");
       return;
     } else if (dt > LOWEST_UPDATE_FREQUENCY) {
-      Scalar num_iter = dt / LOWEST_UPDATE_FREQUENCY;
-      for (int i = 0; i < num_iter; i++) {
+      // Integrate the whole interval: full sub steps first, then the remaining time
+      Scalar remaining_time = dt;
+      while (remaining_time > LOWEST_UPDATE_FREQUENCY) {
         process_euler_explicit(actuation_angular_velocity, LOWEST_UPDATE_FREQUENCY, external_force,
                                enable_noise);
+        remaining_time -= LOWEST_UPDATE_FREQUENCY;
       }
+      process_euler_explicit(actuation_angular_velocity, remaining_time, external_force,
+                             enable_noise);
       return;
     }
 
-- 
2.43.0


From d2cf6bd3d647cb5cf7c12f362a75d181c0fb4a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 03/11] fix: store the 6D mixer matrix of the model

A local variable shadowed the member, so get_mixer_matrix() returned
uninitialised memory (with the transposed shape).
---
 multirotor_simulator/multirotor_dynamic_model/model.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/model.hpp b/multirotor_simulator/multirotor_dynamic_model/model.hpp
index 2b07b8e..75a5946 100644
--- a/multirotor_simulator/multirotor_dynamic_model/model.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/model.hpp
@@ -169,7 +169,7 @@ private:
   Matrix3N mixer_force_matrix_;    // [Fx, Fy, Fz] = Mixer * a^2
   Matrix3N mixer_torque_matrix_;   // [Mx, My, Mz] = Mixer * a^2
   Matrix3N mixer_inertia_matrix_;  // [Ix, Iy, Iz] = Mixer * a^2
-  MatrixN6 mixer_matrix_;          // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
+  Matrix6N mixer_matrix_;          // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
 
   // Noise properties
   std::default_random_engine random_number_generator_;  // Random number generator
@@ -196,7 +196,7 @@ public:
     params_ = params;
 
     // Motor mixer matrix
-    Matrix6N mixer_matrix_ = compute_mixer_matrix<6>(params.motors_params);
+    mixer_matrix_ = compute_mixer_matrix<6>(params.motors_params);
 
     // Update mixer matrix
     mixer_force_vector_  = mixer_matrix_.row(2);
@@ -479,7 +479,7 @@ public:
    *
    * @return MatrixN6 Mixer matrix
    */
-  inline const MatrixN6 &get_mixer_matrix() const { return mixer_matrix_; }
+  inline const Matrix6N &get_mixer_matrix() const { return mixer_matrix_; }
 
 public:
   // Static functions
-- 
2.43.0


From 12eea3242ad35cd575009ef661cba566821cce01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 04/11] fix: return the IMU measurement by value

get_measurement() returned a reference to a temporary.
---
 multirotor_simulator/imu_simulator/imu.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multirotor_simulator/imu_simulator/imu.hpp b/multirotor_simulator/imu_simulator/imu.hpp
index 049032f..bab2fd3 100644
--- a/multirotor_simulator/imu_simulator/imu.hpp
+++ b/multirotor_simulator/imu_simulator/imu.hpp
@@ -236,7 +236,7 @@ public:
    * @return const std::pair<Vector3, Vector3>& Gyroscope and accelerometer measurement in body
    * frame.
    */
-  inline const std::pair<Vector3, Vector3>& get_measurement() const {
+  inline std::pair<Vector3, Vector3> get_measurement() const {
     return std::make_pair(gyro_, accel_);
   }
 
-- 
2.43.0


From b6c932f733072763d49af5ea922293271f23484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 05/11] fix: let set_control_mode compile for float simulators

---
 multirotor_simulator/multirotor_simulator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index 2e0e462..9a928d5 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -318,10 +318,10 @@ public:
     Scalar roll, pitch;
     state::internal::quaternion_to_Euler(dynamics_.get_state().kinematics.orientation, roll, pitch,
                                          reference_yaw_);
-    reference_velocity_         = Eigen::Vector3d::Zero();
-    reference_acceleration_     = Eigen::Vector3d::Zero();
+    reference_velocity_         = Vector3::Zero();
+    reference_acceleration_     = Vector3::Zero();
     reference_thrust_           = 0.0;
-    reference_angular_velocity_ = Eigen::Vector3d::Zero();
+    reference_angular_velocity_ = Vector3::Zero();
   }
 
   /**
-- 
2.43.0


From bc2e1b763c3b677ac9692ed002d408bc28b9c007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 06/11] fix: copy the pointed state and model in the pointer
 setters of Dynamics

---
 multirotor_simulator/multirotor_dynamic_model/dynamics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index 0bc66e2..4a53a76 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -267,7 +267,7 @@ public:
    */
   void set_state(const State *state) {
     if (state != nullptr) {
-      state_ = state;
+      state_ = *state;
     }
   }
 
@@ -285,7 +285,7 @@ public:
    */
   void set_model(const Model *model) {
     if (model != nullptr) {
-      model_ = model;
+      model_ = *model;
     }
   }
 
-- 
2.43.0


From 263006d6c71be600a4cbcd8534e2b4b7e81d6c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 07/11] fix: take the INDI parameters of the actual number of
 rotors

The constructor and update_params only accepted four rotor parameters, so a
controller or simulator with any other number of rotors did not compile.
---
 .../multirotor_controllers/controllers/indi_controller.hpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp b/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
index 6b05fb2..fcb4bd4 100644
--- a/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
+++ b/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
@@ -128,7 +128,8 @@ public:
    *
    * @param params IndiControllerParams parameters
    */
-  explicit IndiController(const IndiControllerParams<P> &params = IndiControllerParams<P>())
+  explicit IndiController(const IndiControllerParams<P, num_rotors> &params =
+                              IndiControllerParams<P, num_rotors>())
       : inertia_(params.inertia), mixer_matrix_inverse_(params.mixer_matrix_inverse),
         PID(params.pid_params) {}
   /**
@@ -196,7 +197,7 @@ public:
    *
    * @param params IndiControllerParams
    */
-  inline void update_params(const IndiControllerParams<P> &params) {
+  inline void update_params(const IndiControllerParams<P, num_rotors> &params) {
     update_inertia(params.inertia);
     update_mixer_matrix_inverse(params.mixer_matrix_inverse);
     this->update_pid_params(params.pid_params);
-- 
2.43.0


From 11276546ff6435aefb7951ae79504baf3c8418ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:21 +0000
Subject: [PATCH 08/11] fix: feed the IMU with the body frame acceleration and
 integrate it in world frame

The simulator rotated the force from body to world (instead of world to body)
and did not divide it by the mass, and the inertial odometry rotated the
measured acceleration from world to body (instead of body to world).
---
 multirotor_simulator/imu_simulator/inertial_odometry.hpp | 2 +-
 multirotor_simulator/multirotor_simulator.hpp            | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/imu_simulator/inertial_odometry.hpp b/multirotor_simulator/imu_simulator/inertial_odometry.hpp
index 9bc2b21..44de6a1 100644
--- a/multirotor_simulator/imu_simulator/inertial_odometry.hpp
+++ b/multirotor_simulator/imu_simulator/inertial_odometry.hpp
@@ -239,7 +239,7 @@ protected:
     angular_velocity_ = gyro_filtered_;
 
     // Linear acceleration in world frame
-    linear_acceleration_ = orientation_.inverse() * accel_filtered_;
+    linear_acceleration_ = orientation_ * accel_filtered_;
 
     // Integrate angular velocity to get orientation quaternion
     orientation_ = get_quaternion_integrate(orientation_, angular_velocity_, dt);
diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index 9a928d5..6d70d4c 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -241,9 +241,10 @@ public:
    * @param dt Scalar Time step (s)
    */
   inline void update_imu(const Scalar dt) {
-    // Convert force from world to body frame
+    // Convert force per unit of mass from world to body frame
     imu_.update(dt,
-                dynamics_.get_state().kinematics.orientation * dynamics_.get_state().dynamics.force,
+                dynamics_.get_state().kinematics.orientation.inverse() *
+                    (dynamics_.get_state().dynamics.force / dynamics_.get_model_const().get_mass()),
                 dynamics_.get_state().kinematics.angular_velocity);
   }
 
-- 
2.43.0


From fcfa746f64169934321eb4e1db1f7669e07c39aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:21 +0000
Subject: [PATCH 09/11] fix: report no output limits in the PID parameters when
 saturation is disabled

get_params() returned the limits of a previous configuration, so feeding its
result back enabled a saturation that was disabled.
---
 pid_controller/include/pid_controller/pid.hpp    | 4 +++-
 pid_controller/include/pid_controller/pid_1d.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pid_controller/include/pid_controller/pid.hpp b/pid_controller/include/pid_controller/pid.hpp
index 0e05728..632da61 100644
--- a/pid_controller/include/pid_controller/pid.hpp
+++ b/pid_controller/include/pid_controller/pid.hpp
@@ -390,7 +390,9 @@ public:
     params.alpha                        = get_alpha();
     params.reset_integral_flag          = get_reset_integral_saturation_flag();
     params.proportional_saturation_flag = get_proportional_saturation_flag();
-    get_saturation_limits(params.upper_output_saturation, params.lower_output_saturation);
+    if (get_output_saturation_flag()) {
+      get_saturation_limits(params.upper_output_saturation, params.lower_output_saturation);
+    }
     return params;
   }
 
diff --git a/pid_controller/include/pid_controller/pid_1d.hpp b/pid_controller/include/pid_controller/pid_1d.hpp
index 7d3f4d5..9c8f084 100644
--- a/pid_controller/include/pid_controller/pid_1d.hpp
+++ b/pid_controller/include/pid_controller/pid_1d.hpp
@@ -335,7 +335,9 @@ public:
     params.antiwindup_cte      = get_anti_windup();
     params.alpha               = get_alpha();
     params.reset_integral_flag = get_reset_integral_saturation_flag();
-    get_saturation_limits(params.upper_output_saturation, params.lower_output_saturation);
+    if (get_output_saturation_flag()) {
+      get_saturation_limits(params.upper_output_saturation, params.lower_output_saturation);
+    }
     return params;
   }
 
-- 
2.43.0


From c7ac1273d3a78affc1dcb92757ae1a49e9401ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:40 +0000
Subject: [PATCH 10/11] fix: reject model parameters with a wrong number of
 motors

The motor parameters are indexed up to the number of rotors, and the mixer
matrices have one column per rotor, so any other number of motors read or
wrote out of bounds.
---
 multirotor_simulator/multirotor_dynamic_model/model.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/multirotor_simulator/multirotor_dynamic_model/model.hpp b/multirotor_simulator/multirotor_dynamic_model/model.hpp
index 75a5946..30a6cf9 100644
--- a/multirotor_simulator/multirotor_dynamic_model/model.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/model.hpp
@@ -510,6 +510,10 @@ public:
       std::cout << "ERROR: vehicle aero moment coefficient must be positive definite" << std::endl;
       return false;
     }
+    if (params.motors_params.size() != static_cast<size_t>(num_rotors)) {
+      std::cout << "ERROR: there must be parameters for each motor" << std::endl;
+      return false;
+    }
     for (auto &motor : params.motors_params) {
       if (motor.max_speed < motor.min_speed) {
         std::cout << "ERROR: motor max speed must be greater than min speed" << std::endl;
-- 
2.43.0


From 4058b0c147b17b7fa9efad0997946b91c34e383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:40 +0000
Subject: [PATCH 11/11] fix: reject zero mass, singular inertia and zero motor
 time constant

They must be positive, as the error messages say: the dynamics divide by them.
---
 multirotor_simulator/multirotor_dynamic_model/model.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/model.hpp b/multirotor_simulator/multirotor_dynamic_model/model.hpp
index 30a6cf9..5c7dcaf 100644
--- a/multirotor_simulator/multirotor_dynamic_model/model.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/model.hpp
@@ -494,11 +494,11 @@ public:
    * @return false Parameters are invalid
    */
   bool check_params(ModelParamsP params) {
-    if (params.vehicle_mass < 0) {
+    if (params.vehicle_mass <= 0) {
       std::cout << "ERROR: vehicle mass must be positive" << std::endl;
       return false;
     }
-    if (params.vehicle_inertia.determinant() < 0) {
+    if (params.vehicle_inertia.determinant() <= 0) {
       std::cout << "ERROR: vehicle inertia must be positive definite" << std::endl;
       return false;
     }
@@ -519,7 +519,7 @@ public:
         std::cout << "ERROR: motor max speed must be greater than min speed" << std::endl;
         return false;
       }
-      if (motor.time_constant < 0) {
+      if (motor.time_constant <= 0) {
         std::cout << "ERROR: motor time constant must be positive" << std::endl;
         return false;
       }
-- 
2.43.0

