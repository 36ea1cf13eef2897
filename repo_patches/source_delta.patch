From 903a791bf0102f856ae8a1b8456c697913b62b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:47 +0000
Subject: [PATCH 01/17] fix: steady solvers give the same results when run
 again

---
 pterasoftware/steady_horseshoe_vortex_lattice_method.py | 3 +++
 pterasoftware/steady_ring_vortex_lattice_method.py      | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pterasoftware/steady_horseshoe_vortex_lattice_method.py b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
index 597273b..b9c5f9e 100644
--- a/pterasoftware/steady_horseshoe_vortex_lattice_method.py
+++ b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
@@ -196,6 +196,9 @@ class SteadyHorseshoeVortexLatticeMethodSolver:
 
         :return: None
         """
+        # Discard the streamline seed points of any previous run.
+        self.seed_points = np.empty((0, 3))
+
         # Initialize a variable to hold the global position of the panel as we
         # iterate through them.
         global_panel_position = 0
diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index d392b07..06a752e 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -260,6 +260,9 @@ class SteadyRingVortexLatticeMethodSolver:
 
         :return: None
         """
+        # Discard the streamline seed points of any previous run.
+        self.seed_points = np.empty((0, 3))
+
         # Initialize a variable to hold the global position of the panel as we
         # iterate through them.
         global_panel_position = 0
@@ -324,7 +327,7 @@ class SteadyRingVortexLatticeMethodSolver:
             front_right_vortex_vertices=self.panel_front_right_vortex_vertices,
             front_left_vortex_vertices=self.panel_front_left_vortex_vertices,
             back_left_vortex_vertices=self.panel_back_left_vortex_vertices,
-            strengths=self.vortex_strengths,
+            strengths=np.ones(self.num_panels),
         )
 
         # Find the matrix of normalized velocities induced at every panel's
-- 
2.43.0


From 0a5be2a1fc9f8cf8157fb559338be6057abed596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:15 +0000
Subject: [PATCH 02/17] fix: unsteady solver discards the results of previous
 runs

---
 .../unsteady_ring_vortex_lattice_method.py    | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index 5f48792..97d05ee 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -205,6 +205,15 @@ class UnsteadyRingVortexLatticeMethodSolver:
         )
         logging.basicConfig(level=logging_level_value)
 
+        # Discard the wake data of any previous run.
+        self.num_wake_ring_vortices_list = []
+        self.wake_ring_vortex_strengths_list = []
+        self.wake_ring_vortex_ages_list = []
+        self.wake_ring_vortex_front_right_vertices_list = []
+        self.wake_ring_vortex_front_left_vertices_list = []
+        self.wake_ring_vortex_back_left_vertices_list = []
+        self.wake_ring_vortex_back_right_vertices_list = []
+
         # The following loop iterates through the steps to populate currently empty
         # attributes with lists of pre-allocated arrays. During the simulation,
         # these arrays will be filled with data that describe the wake. Using this
@@ -1640,6 +1649,23 @@ class UnsteadyRingVortexLatticeMethodSolver:
 
             results_step += 1
 
+        # Discard the final or cycle-averaged results of any previous run.
+        for results in (
+            self.unsteady_problem.final_near_field_forces_wind_axes,
+            self.unsteady_problem.final_near_field_force_coefficients_wind_axes,
+            self.unsteady_problem.final_near_field_moments_wind_axes,
+            self.unsteady_problem.final_near_field_moment_coefficients_wind_axes,
+            self.unsteady_problem.final_mean_near_field_forces_wind_axes,
+            self.unsteady_problem.final_mean_near_field_force_coefficients_wind_axes,
+            self.unsteady_problem.final_mean_near_field_moments_wind_axes,
+            self.unsteady_problem.final_mean_near_field_moment_coefficients_wind_axes,
+            self.unsteady_problem.final_rms_near_field_forces_wind_axes,
+            self.unsteady_problem.final_rms_near_field_force_coefficients_wind_axes,
+            self.unsteady_problem.final_rms_near_field_moments_wind_axes,
+            self.unsteady_problem.final_rms_near_field_moment_coefficients_wind_axes,
+        ):
+            results.clear()
+
         # For each airplane object, calculate and then save the final or
         # cycle-averaged forces, moments, force coefficients, and moment coefficients.
         for airplane_id, airplane in enumerate(self.steady_problems[0].airplanes):
-- 
2.43.0


From abe7d0989d2ca975066cf3b5eaef1c4f0de67abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:26 +0000
Subject: [PATCH 03/17] fix: panels can calculate the velocity their vortices
 induce

---
 pterasoftware/panel.py | 68 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 61 insertions(+), 7 deletions(-)

diff --git a/pterasoftware/panel.py b/pterasoftware/panel.py
index b581018..08db19f 100644
--- a/pterasoftware/panel.py
+++ b/pterasoftware/panel.py
@@ -12,6 +12,8 @@ This module contains the following functions:
 
 import numpy as np
 
+from . import aerodynamics
+
 
 class Panel:
     """This class is used to contain the panels of a wing.
@@ -359,12 +361,12 @@ class Panel:
         normalized_induced_velocity = np.zeros(3)
 
         if self.ring_vortex is not None:
-            normalized_induced_velocity += (
-                self.ring_vortex.calculate_normalized_induced_velocity(point=point)
+            normalized_induced_velocity += self._calculate_ring_vortex_velocity(
+                point=point, strength=1.0
             )
         if self.horseshoe_vortex is not None:
-            normalized_induced_velocity += (
-                self.horseshoe_vortex.calculate_normalized_induced_velocity(point=point)
+            normalized_induced_velocity += self._calculate_horseshoe_vortex_velocity(
+                point=point, strength=1.0
             )
 
         return normalized_induced_velocity
@@ -385,14 +387,66 @@ class Panel:
         induced_velocity = np.zeros(3)
 
         if self.ring_vortex is not None:
-            induced_velocity += self.ring_vortex.calculate_induced_velocity(point=point)
+            induced_velocity += self._calculate_ring_vortex_velocity(
+                point=point, strength=self.ring_vortex.strength
+            )
         if self.horseshoe_vortex is not None:
-            induced_velocity += self.horseshoe_vortex.calculate_induced_velocity(
-                point=point
+            induced_velocity += self._calculate_horseshoe_vortex_velocity(
+                point=point, strength=self.horseshoe_vortex.strength
             )
 
         return induced_velocity
 
+    def _calculate_ring_vortex_velocity(self, point, strength):
+        """This method calculates the velocity induced at a point by this panel's
+        ring vortex if it had a given strength.
+
+        :param point: 1D array
+            This is a vector containing the x, y, and z coordinates of the point.
+        :param strength: float
+            This is the strength of the vortex in meters squared per second.
+        :return: 1D array
+            This is a vector containing the x, y, and z components of the velocity.
+        """
+        return aerodynamics.collapsed_velocities_from_ring_vortices(
+            points=np.array([point], dtype=float),
+            back_right_vortex_vertices=np.array([self.ring_vortex.right_leg.origin]),
+            front_right_vortex_vertices=np.array(
+                [self.ring_vortex.right_leg.termination]
+            ),
+            front_left_vortex_vertices=np.array([self.ring_vortex.left_leg.origin]),
+            back_left_vortex_vertices=np.array([self.ring_vortex.left_leg.termination]),
+            strengths=np.array([strength]),
+        )[0]
+
+    def _calculate_horseshoe_vortex_velocity(self, point, strength):
+        """This method calculates the velocity induced at a point by this panel's
+        horseshoe vortex if it had a given strength.
+
+        :param point: 1D array
+            This is a vector containing the x, y, and z coordinates of the point.
+        :param strength: float
+            This is the strength of the vortex in meters squared per second.
+        :return: 1D array
+            This is a vector containing the x, y, and z components of the velocity.
+        """
+        return aerodynamics.collapsed_velocities_from_horseshoe_vortices(
+            points=np.array([point], dtype=float),
+            back_right_vortex_vertices=np.array(
+                [self.horseshoe_vortex.right_leg.origin]
+            ),
+            front_right_vortex_vertices=np.array(
+                [self.horseshoe_vortex.right_leg.termination]
+            ),
+            front_left_vortex_vertices=np.array(
+                [self.horseshoe_vortex.left_leg.origin]
+            ),
+            back_left_vortex_vertices=np.array(
+                [self.horseshoe_vortex.left_leg.termination]
+            ),
+            strengths=np.array([strength]),
+        )[0]
+
     def calculate_projected_area(self, n_hat):
         """This method calculates the area of the panel projected on some plane
         defined by its unit normal vector.
-- 
2.43.0


From 5d75ce0ab4b7e0f75548e8536ab82391c253dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:57 +0000
Subject: [PATCH 04/17] fix: unsteady trim reads the final coefficients the
 solver provides

---
 pterasoftware/trim.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pterasoftware/trim.py b/pterasoftware/trim.py
index d4e6bb9..cf7f0e8 100644
--- a/pterasoftware/trim.py
+++ b/pterasoftware/trim.py
@@ -283,12 +283,22 @@ def analyze_unsteady_trim(
 
         this_solver.run(logging_level="Critical")
 
-        force_coefficients = (
-            this_solver.unsteady_problem.final_total_near_field_force_coefficients_wind_axes
-        )
-        moment_coefficients = (
-            this_solver.unsteady_problem.final_total_near_field_moment_coefficients_wind_axes
-        )
+        # Get the final coefficients if the problem is static, and the cycle-averaged
+        # coefficients otherwise. Trim analyses have only one airplane.
+        if this_problem.max_period == 0:
+            force_coefficients = (
+                this_problem.final_near_field_force_coefficients_wind_axes[0]
+            )
+            moment_coefficients = (
+                this_problem.final_near_field_moment_coefficients_wind_axes[0]
+            )
+        else:
+            force_coefficients = (
+                this_problem.final_mean_near_field_force_coefficients_wind_axes[0]
+            )
+            moment_coefficients = (
+                this_problem.final_mean_near_field_moment_coefficients_wind_axes[0]
+            )
 
         net_force_coefficients = np.linalg.norm(
             force_coefficients - external_force_coefficients
-- 
2.43.0


From 3b0cec134102823f1deccbda6bc74aa4770c11f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:57 +0000
Subject: [PATCH 05/17] fix: trim analyses reject problems and initial values
 outside their limits

---
 pterasoftware/trim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pterasoftware/trim.py b/pterasoftware/trim.py
index cf7f0e8..1174cfc 100644
--- a/pterasoftware/trim.py
+++ b/pterasoftware/trim.py
@@ -55,7 +55,7 @@ def analyze_steady_trim(
     :return:
     """
     if len(problem.airplanes) != 1:
-        trim_logger.error(
+        raise Exception(
             "The problem objects for trim analyses must have only one airplane."
         )
 
@@ -225,16 +225,16 @@ def analyze_unsteady_trim(
     base_beta = operating_point.beta
 
     if base_velocity < velocity_bounds[0] or base_velocity > velocity_bounds[1]:
-        trim_logger.error(
+        raise Exception(
             "The operating point's velocity must be within the specified velocity "
             "bounds."
         )
     if base_alpha < alpha_bounds[0] or base_alpha > alpha_bounds[1]:
-        trim_logger.error(
+        raise Exception(
             "The operating point's alpha must be within the specified alpha bounds."
         )
     if base_beta < beta_bounds[0] or base_beta > beta_bounds[1]:
-        trim_logger.error(
+        raise Exception(
             "The operating point's beta must be within the specified beta bounds."
         )
 
-- 
2.43.0


From 57e19b6cac83b962fd962af081aab4aa19f79322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:57 +0000
Subject: [PATCH 06/17] fix: steady trim leaves the operating point at the
 trimmed external thrust

---
 pterasoftware/trim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pterasoftware/trim.py b/pterasoftware/trim.py
index 1174cfc..36e9d79 100644
--- a/pterasoftware/trim.py
+++ b/pterasoftware/trim.py
@@ -104,6 +104,7 @@ def analyze_steady_trim(
         problem.operating_point.velocity = velocity
         problem.operating_point.alpha = alpha
         problem.operating_point.beta = beta
+        problem.operating_point.external_thrust = external_thrust
 
         dynamic_pressure = problem.operating_point.calculate_dynamic_pressure()
         s_ref = problem.airplanes[0].s_ref
-- 
2.43.0


From c719695f566aadb833049053321d5e0686950f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:22 +0000
Subject: [PATCH 07/17] fix: airplanes generated by movements keep the base
 airplane's weight and reference dimensions

---
 pterasoftware/movement.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 8ba9b6e..17e94b0 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -429,6 +429,12 @@ class AirplaneMovement:
         # Generate the airplane name.
         name = self.base_airplane.name
 
+        # Generate the airplane's weight and reference dimensions.
+        weight = self.base_airplane.weight
+        s_ref = self.base_airplane.s_ref
+        c_ref = self.base_airplane.c_ref
+        b_ref = self.base_airplane.b_ref
+
         # Iterate through the time steps.
         for step in range(num_steps):
             # Get the reference position at this time step.
@@ -439,7 +445,15 @@ class AirplaneMovement:
 
             # Make a new airplane object for this time step.
             this_airplane = geometry.Airplane(
-                name=name, x_ref=x_ref, y_ref=y_ref, z_ref=z_ref, wings=these_wings
+                name=name,
+                x_ref=x_ref,
+                y_ref=y_ref,
+                z_ref=z_ref,
+                wings=these_wings,
+                weight=weight,
+                s_ref=s_ref,
+                c_ref=c_ref,
+                b_ref=b_ref,
             )
 
             # Add this new object to the list of airplanes.
-- 
2.43.0


From 111cd29766546532f076bab578481a7d99207a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:22 +0000
Subject: [PATCH 08/17] fix: wings and wing cross sections generated by
 movements keep their base's orientation vectors

---
 pterasoftware/movement.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 17e94b0..966f27f 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -795,7 +795,9 @@ class WingMovement:
 
         # Generate the non-changing wing attributes.
         name = self.base_wing.name
+        unit_normal_vector = self.base_wing.unit_normal_vector
         symmetric = self.base_wing.symmetric
+        unit_chordwise_vector = self.base_wing.unit_chordwise_vector
         num_chordwise_panels = self.base_wing.num_chordwise_panels
         chordwise_spacing = self.base_wing.chordwise_spacing
 
@@ -815,7 +817,9 @@ class WingMovement:
                 y_le=y_le,
                 z_le=z_le,
                 wing_cross_sections=cross_sections,
+                unit_normal_vector=unit_normal_vector,
                 symmetric=symmetric,
+                unit_chordwise_vector=unit_chordwise_vector,
                 num_chordwise_panels=num_chordwise_panels,
                 chordwise_spacing=chordwise_spacing,
             )
@@ -1199,6 +1203,7 @@ class WingCrossSectionMovement:
 
         # Generate the non-changing wing cross section attributes.
         chord = self.base_wing_cross_section.chord
+        unit_normal_vector = self.base_wing_cross_section.unit_normal_vector
         airfoil = self.base_wing_cross_section.airfoil
         control_surface_deflection = self.control_surface_deflection_base
         control_surface_type = self.base_wing_cross_section.control_surface_type
@@ -1222,6 +1227,7 @@ class WingCrossSectionMovement:
                 y_le=y_le,
                 z_le=z_le,
                 chord=chord,
+                unit_normal_vector=unit_normal_vector,
                 twist=twist,
                 airfoil=airfoil,
                 control_surface_type=control_surface_type,
-- 
2.43.0


From d537aed07b3c572e4fd1a626f2c94db0a2cb1aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:22 +0000
Subject: [PATCH 09/17] fix: operating points generated by movements keep the
 base's external thrust and viscosity

---
 pterasoftware/movement.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 966f27f..c4092f3 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -1352,6 +1352,8 @@ class OperatingPointMovement:
         density = self.base_operating_point.density
         alpha = self.base_operating_point.alpha
         beta = self.base_operating_point.beta
+        external_thrust = self.base_operating_point.external_thrust
+        nu = self.base_operating_point.nu
 
         # Iterate through the time steps.
         for step in range(num_steps):
@@ -1360,7 +1362,12 @@ class OperatingPointMovement:
 
             # Make a new operating point object for this time step.
             this_operating_point = operating_point.OperatingPoint(
-                density=density, velocity=velocity, alpha=alpha, beta=beta
+                density=density,
+                velocity=velocity,
+                alpha=alpha,
+                beta=beta,
+                external_thrust=external_thrust,
+                nu=nu,
             )
 
             # Add this new object to the list of operating points.
-- 
2.43.0


From 46772342f95ee3a8bd6bebd28e1d66e61bce583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:06 +0000
Subject: [PATCH 10/17] fix: movements reproduce swept, cranked and leftward
 base wing cross sections

---
 pterasoftware/movement.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index c4092f3..7568579 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -742,8 +742,12 @@ class WingMovement:
                     # Find the base sweep angle of this wing cross section compared
                     # to the inner wing cross section at the first time step.
                     base_wing_cross_section_sweep = (
-                        np.arctan(
-                            (this_z_le - last_z_les[0]) / (this_y_le - last_y_les[0])
+                        np.arctan2(
+                            this_z_le - last_z_les[0],
+                            np.sqrt(
+                                (this_x_le - last_x_les[0]) ** 2
+                                + (this_y_le - last_y_les[0]) ** 2
+                            ),
                         )
                         * 180
                         / np.pi
@@ -752,9 +756,7 @@ class WingMovement:
                     # Find the base heave angle of this wing cross section compared
                     # to the inner wing cross section at the first time step.
                     base_wing_cross_section_heave = (
-                        np.arctan(
-                            (this_x_le - last_x_les[0]) / (this_y_le - last_y_les[0])
-                        )
+                        np.arctan2(this_x_le - last_x_les[0], this_y_le - last_y_les[0])
                         * 180
                         / np.pi
                     )
-- 
2.43.0


From 87bde37f43eeaf40ae88bc9cb4979f4330ec2a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:06 +0000
Subject: [PATCH 11/17] fix: a section's base sweep and heave are measured from
 the inner section's base position

---
 pterasoftware/movement.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 7568579..4d1a337 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -717,6 +717,15 @@ class WingMovement:
                 this_y_le = this_base_wing_cross_section.y_le
                 this_z_le = this_base_wing_cross_section.z_le
 
+                # Get the inner base wing cross section's leading edge. Its time
+                # history may not start at its base position.
+                last_base_wing_cross_section = self.wing_cross_section_movements[
+                    wing_cross_section_movement_location - 1
+                ].base_wing_cross_section
+                last_x_le = last_base_wing_cross_section.x_le
+                last_y_le = last_base_wing_cross_section.y_le
+                last_z_le = last_base_wing_cross_section.z_le
+
                 # Initialize variables to hold the inner wing cross section's time
                 # histories of its leading edge coordinates.
                 last_x_les = []
@@ -733,20 +742,20 @@ class WingMovement:
                 # Find the span between this wing cross section and the inner wing
                 # cross section.
                 wing_cross_section_span = np.sqrt(
-                    (this_x_le - last_x_les[0]) ** 2
-                    + (this_y_le - last_y_les[0]) ** 2
-                    + (this_z_le - last_z_les[0]) ** 2
+                    (this_x_le - last_x_le) ** 2
+                    + (this_y_le - last_y_le) ** 2
+                    + (this_z_le - last_z_le) ** 2
                 )
 
-                if this_y_le != last_y_les[0]:
+                if this_y_le != last_y_le:
                     # Find the base sweep angle of this wing cross section compared
                     # to the inner wing cross section at the first time step.
                     base_wing_cross_section_sweep = (
                         np.arctan2(
-                            this_z_le - last_z_les[0],
+                            this_z_le - last_z_le,
                             np.sqrt(
-                                (this_x_le - last_x_les[0]) ** 2
-                                + (this_y_le - last_y_les[0]) ** 2
+                                (this_x_le - last_x_le) ** 2
+                                + (this_y_le - last_y_le) ** 2
                             ),
                         )
                         * 180
@@ -756,7 +765,7 @@ class WingMovement:
                     # Find the base heave angle of this wing cross section compared
                     # to the inner wing cross section at the first time step.
                     base_wing_cross_section_heave = (
-                        np.arctan2(this_x_le - last_x_les[0], this_y_le - last_y_les[0])
+                        np.arctan2(this_x_le - last_x_le, this_y_le - last_y_le)
                         * 180
                         / np.pi
                     )
-- 
2.43.0


From 3c1373fb3e7d6da5091ceda52c49e9313e28d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:19 +0000
Subject: [PATCH 12/17] fix: convergence meshes have at least one spanwise
 panel per wing section

---
 pterasoftware/convergence.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index 9d8bdea..10a15ed 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -15,7 +15,6 @@ This module contains the following functions:
     unsteady problem."""
 
 import logging
-import math
 import time
 
 import numpy as np
@@ -198,15 +197,14 @@ def analyze_steady_convergence(
 
                             # As we can't directly specify the panel aspect ratio,
                             # calculate the number of spanwise panels that
-                            # corresponds to the desired panel aspect ratio.
+                            # corresponds to the desired panel aspect ratio. Every
+                            # section has at least one.
                             this_num_spanwise_panels = round(
                                 (section_length * num_chordwise_panels)
                                 / (section_standard_mean_chord * panel_aspect_ratio)
                             )
 
-                            this_num_spanwise_panels = math.ceil(
-                                this_num_spanwise_panels
-                            )
+                            this_num_spanwise_panels = max(1, this_num_spanwise_panels)
                         else:
                             this_num_spanwise_panels = 0
 
@@ -778,9 +776,7 @@ def analyze_unsteady_convergence(
                                         )
                                     )
 
-                                    this_num_spanwise_panels = math.ceil(
-                                        this_num_spanwise_panels
-                                    )
+                                    this_num_spanwise_panels = max(1, this_num_spanwise_panels)
                                 else:
                                     this_num_spanwise_panels = 0
 
-- 
2.43.0


From 47a2e197d177f8b487c2c52c2344deb68d95efa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:19 +0000
Subject: [PATCH 13/17] fix: convergence meshes keep the orientation vectors of
 the reference wings

---
 pterasoftware/convergence.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index 10a15ed..1b6759e 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -216,6 +216,7 @@ def analyze_steady_convergence(
                                 y_le=ref_wing_cross_section.y_le,
                                 z_le=ref_wing_cross_section.z_le,
                                 chord=ref_wing_cross_section.chord,
+                                unit_normal_vector=ref_wing_cross_section.unit_normal_vector,
                                 twist=ref_wing_cross_section.twist,
                                 control_surface_type=ref_wing_cross_section.control_surface_type,
                                 control_surface_hinge_point=ref_wing_cross_section.control_surface_hinge_point,
@@ -239,7 +240,9 @@ def analyze_steady_convergence(
                             x_le=ref_wing.x_le,
                             y_le=ref_wing.y_le,
                             z_le=ref_wing.z_le,
+                            unit_normal_vector=ref_wing.unit_normal_vector,
                             symmetric=ref_wing.symmetric,
+                            unit_chordwise_vector=ref_wing.unit_chordwise_vector,
                             chordwise_spacing=ref_wing.chordwise_spacing,
                             # These values change.
                             num_chordwise_panels=num_chordwise_panels,
@@ -802,6 +805,7 @@ def analyze_unsteady_convergence(
                                     y_le=ref_base_wing_cross_section.y_le,
                                     z_le=ref_base_wing_cross_section.z_le,
                                     chord=ref_base_wing_cross_section.chord,
+                                    unit_normal_vector=ref_base_wing_cross_section.unit_normal_vector,
                                     twist=ref_base_wing_cross_section.twist,
                                     control_surface_type=ref_base_wing_cross_section.control_surface_type,
                                     control_surface_hinge_point=ref_base_wing_cross_section.control_surface_hinge_point,
@@ -857,7 +861,9 @@ def analyze_unsteady_convergence(
                                 x_le=ref_base_wing.x_le,
                                 y_le=ref_base_wing.y_le,
                                 z_le=ref_base_wing.z_le,
+                                unit_normal_vector=ref_base_wing.unit_normal_vector,
                                 symmetric=ref_base_wing.symmetric,
+                                unit_chordwise_vector=ref_base_wing.unit_chordwise_vector,
                                 chordwise_spacing=ref_base_wing.chordwise_spacing,
                                 # These values change.
                                 num_chordwise_panels=num_chordwise_panels,
-- 
2.43.0


From 23e6ea0ed7b865e6bfe9e7869c1eb947b616a00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:18 +0000
Subject: [PATCH 14/17] fix: printing unsteady results works for static
 problems

---
 pterasoftware/output.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index 23baf45..66a23a8 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -979,14 +979,27 @@ def print_unsteady_results(unsteady_solver):
         This is the solver object with the results to be printed.
     :return: None
     """
-    forces = unsteady_solver.unsteady_problem.final_mean_near_field_forces_wind_axes
-    moments = unsteady_solver.unsteady_problem.final_mean_near_field_moments_wind_axes
-    force_coefficients = (
-        unsteady_solver.unsteady_problem.final_mean_near_field_force_coefficients_wind_axes
-    )
-    moment_coefficients = (
-        unsteady_solver.unsteady_problem.final_mean_near_field_moment_coefficients_wind_axes
-    )
+    unsteady_problem = unsteady_solver.unsteady_problem
+
+    # Static problems have no cycles to average over, so print their final results.
+    if unsteady_problem.max_period == 0:
+        forces = unsteady_problem.final_near_field_forces_wind_axes
+        moments = unsteady_problem.final_near_field_moments_wind_axes
+        force_coefficients = (
+            unsteady_problem.final_near_field_force_coefficients_wind_axes
+        )
+        moment_coefficients = (
+            unsteady_problem.final_near_field_moment_coefficients_wind_axes
+        )
+    else:
+        forces = unsteady_problem.final_mean_near_field_forces_wind_axes
+        moments = unsteady_problem.final_mean_near_field_moments_wind_axes
+        force_coefficients = (
+            unsteady_problem.final_mean_near_field_force_coefficients_wind_axes
+        )
+        moment_coefficients = (
+            unsteady_problem.final_mean_near_field_moment_coefficients_wind_axes
+        )
 
     # For each airplane object, calculate and print the average force, moment,
     # force coefficient, and moment coefficient values.
-- 
2.43.0


From 7925e02762ca8f4ee30cbecb95cf8fd18382d8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:47 +0000
Subject: [PATCH 15/17] fix: animations show scalars when only the final
 results were calculated

---
 pterasoftware/output.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index 66a23a8..4f19b4c 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -378,9 +378,10 @@ def animate(
     # Check if the user wants to show scalars on the wing panels.
     if show_scalars:
 
-        # Now iterate through each time step and gather all the scalars for its list
-        # of airplanes. These values will be used to configure the color map.
-        for airplanes in step_airplanes:
+        # Now iterate through each time step with results and gather all the scalars
+        # for its list of airplanes. These values will be used to configure the color
+        # map.
+        for airplanes in step_airplanes[first_results_step:]:
             scalars_to_add = get_scalars(airplanes, scalar_type)
             all_scalars = np.hstack((all_scalars, scalars_to_add))
 
-- 
2.43.0


From e53835cfcd64bde0e76934673a810db49b8f461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:09 +0000
Subject: [PATCH 16/17] fix: read airfoil files whose headers are not valid
 UTF-8

---
 pterasoftware/geometry.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index 7ed0784..24bfe47 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -886,8 +886,11 @@ class Airfoil:
                 package="pterasoftware",
             )
 
-            # Read the text from the airfoil file.
-            raw_text = importlib.resources.read_text(airfoils, name + ".dat")
+            # Read the text from the airfoil file. Some of the files' headers contain
+            # characters that are not valid UTF-8.
+            raw_text = importlib.resources.read_text(
+                airfoils, name + ".dat", encoding="latin-1"
+            )
 
             # Trim the text at the return characters.
             trimmed_text = raw_text[raw_text.find("\n") :]
-- 
2.43.0


From d67a21bc5a09affb14063c4ea643c77e6e5902bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:24 +0000
Subject: [PATCH 17/17] fix: give the two airfoil files with capitals in their
 names the lower-case names they are looked up by

---
 .../airfoils/{ah81k144wfKlappe.dat => ah81k144wfklappe.dat}       | 0
 .../{griffith30SymSuction.dat => griffith30symsuction.dat}        | 0
 2 files changed, 0 insertions(+), 0 deletions(-)
 rename pterasoftware/airfoils/{ah81k144wfKlappe.dat => ah81k144wfklappe.dat} (100%)
 rename pterasoftware/airfoils/{griffith30SymSuction.dat => griffith30symsuction.dat} (100%)

diff --git a/pterasoftware/airfoils/ah81k144wfKlappe.dat b/pterasoftware/airfoils/ah81k144wfklappe.dat
similarity index 100%
rename from pterasoftware/airfoils/ah81k144wfKlappe.dat
rename to pterasoftware/airfoils/ah81k144wfklappe.dat
diff --git a/pterasoftware/airfoils/griffith30SymSuction.dat b/pterasoftware/airfoils/griffith30symsuction.dat
similarity index 100%
rename from pterasoftware/airfoils/griffith30SymSuction.dat
rename to pterasoftware/airfoils/griffith30symsuction.dat
-- 
2.43.0

