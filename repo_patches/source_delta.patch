From 7c108e21f67dc0423f7083ef9c957dda4b4ae6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:10 +0000
Subject: [PATCH 01/21] fix: eccentricity of a circular orbit no longer raises
 when p / a rounds above one

---
 src/openspace/math/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/math/functions.py b/src/openspace/math/functions.py
index c6dcfde..255f75c 100644
--- a/src/openspace/math/functions.py
+++ b/src/openspace/math/functions.py
@@ -173,7 +173,7 @@ class Eccentricity:
            but :math:`km` is the preferred unit throughout this package to ensure computational
            consistency and accuracy.
         """
-        return sqrt(1 - p / a)
+        return sqrt(max(1 - p / a, 0.0))
 
 
 class Flattening:
-- 
2.43.0


From 1c28f9c552218be59c2528c48971b2cfb434eb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 02/21] fix: geodetic latitude at and near the poles no longer
 raises a domain error

---
 src/openspace/coordinates/positions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/coordinates/positions.py b/src/openspace/coordinates/positions.py
index 026b5cf..59b375f 100644
--- a/src/openspace/coordinates/positions.py
+++ b/src/openspace/coordinates/positions.py
@@ -253,7 +253,7 @@ class _PositionConvertITRF:
         # Equation 2.77f
         n: float = a * sqrt(1.0 + eps2 * d * d / b2)
         arg = (eps2 + 1.0) * (d / n)
-        lamb: float = asin(arg)
+        lamb: float = asin(max(-1.0, min(1.0, arg)))
 
         # Equation 2.77g
         h: float = rho * cos(lamb) + z * sin(lamb) - a2 / n
-- 
2.43.0


From 2605dc8f405a6a150342f26bd6b7c4d6af766a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:13 +0000
Subject: [PATCH 03/21] fix: moon latitude series adds the 541 arcsecond term
 instead of nesting it (equation 3.49)

---
 src/openspace/bodies/celestial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/celestial.py b/src/openspace/bodies/celestial.py
index 7838e72..4749e71 100644
--- a/src/openspace/bodies/celestial.py
+++ b/src/openspace/bodies/celestial.py
@@ -313,7 +313,7 @@ class Moon:
 
         # Equation 3.49
         beta = (
-            a0 * sin(f + lam - l0 + a1 * sin(2.0 * f + a2 * sin(lp)))
+            a0 * sin(f + lam - l0 + a1 * sin(2.0 * f) + a2 * sin(lp))
             - a3 * sin(f - 2.0 * d)
             + a4 * sin(l + f - 2.0 * d)
             - a5 * sin(-l + f - 2.0 * d)
-- 
2.43.0


From 566dc82de2720a82a8610223c5c4709d63be6024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:14 +0000
Subject: [PATCH 04/21] fix: finite maneuvers rotate the burn from the ric
 frame to the inertial frame

---
 src/openspace/bodies/artificial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index ab06592..6d01842 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -147,7 +147,7 @@ class Spacecraft:
         :param dt: duration of the maneuver in days
         :type dt: float
         """
-        gcrf_thrust: Vector3D = HCW.frame_matrix(self.current_state()).multiply_vector(ric_dv)
+        gcrf_thrust: Vector3D = HCW.frame_matrix(self.current_state()).transpose().multiply_vector(ric_dv)
         self.propagator.maneuver(
             gcrf_thrust,
             self.m_dot,
-- 
2.43.0


From 84a78ee4fb8bfc532f6fcab655434d24f3121688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:16 +0000
Subject: [PATCH 05/21] fix: finite maneuvers consume propellant instead of
 creating it

---
 src/openspace/bodies/artificial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 6d01842..51823fc 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -155,7 +155,7 @@ class Spacecraft:
             self.isp,
         )
         m_spec: float = self.m_dot / self.total_mass()
-        dt: float = (-1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
+        dt: float = (1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
         self.propellant_mass -= self.m_dot * dt
 
     def sma(self) -> float:
-- 
2.43.0


From 4a3544ad54e2058c9a4c89439a1951b0a167459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:18 +0000
Subject: [PATCH 06/21] fix: thrust accounts for the mass burnt in the earlier
 steps of a long maneuver

---
 src/openspace/propagators/inertial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/openspace/propagators/inertial.py b/src/openspace/propagators/inertial.py
index 82e660a..28e316d 100644
--- a/src/openspace/propagators/inertial.py
+++ b/src/openspace/propagators/inertial.py
@@ -73,6 +73,9 @@ class RK4:
             self.state.velocity.plus(da.scaled(h)),
         )
 
+        # Burnt propellant is no longer accelerated in the next step
+        self.m0 -= self.m_dot * h
+
     def maneuver(self, gcrf_thrust: Vector3D, m_dot: float, m0: float, isp: float) -> None:
         """propagate the state using continuous thrust principles
 
-- 
2.43.0


From b0248d65720d2cfc11cf2a70b5a2876e85e4b09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:20 +0000
Subject: [PATCH 07/21] fix: tracking a different target while already tracking
 one retargets the spacecraft

---
 src/openspace/bodies/artificial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 51823fc..4e71ed9 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -304,7 +304,7 @@ class Spacecraft:
         :type target: Spacecraft
         """
         # Include slew duration if not already target-pointing
-        if self.steering != Spacecraft.STEERING_MODES[2]:
+        if self.steering != Spacecraft.STEERING_MODES[2] or self.tracked_target is not target:
             self.steering = Spacecraft.STEERING_MODES[2]
             self.tracked_target = target
             self.slewing = True
-- 
2.43.0


From 078c45827d7daf2199645101f5ef452ccd74d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 08/21] fix: visual magnitude uses the size and albedo of the
 observed spacecraft

---
 src/openspace/bodies/artificial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 4e71ed9..cd0419b 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -351,7 +351,7 @@ class Spacecraft:
         :rtype: float
         """
         # Store the target's body radius
-        r: float = self.body_radius
+        r: float = target.body_radius
 
         # Calculate the range to the target
         dist: float = self.range(target)
@@ -360,7 +360,7 @@ class Spacecraft:
         phi: float = pi - self.sun_angle(target)
 
         # Calculate the flux and vismag
-        fdiff: float = (2 / 3) * self.albedo * r * r / (pi * dist * dist) * ((sin(phi) + (pi - phi) * cos(phi)))
+        fdiff: float = (2 / 3) * target.albedo * r * r / (pi * dist * dist) * ((sin(phi) + (pi - phi) * cos(phi)))
         return -26.74 - 2.5 * log10(fdiff)
 
     def sun_angle(self, target: "Spacecraft") -> float:
-- 
2.43.0


From 5840313763b370c9e4fe609a4855b24bdd98b279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:23 +0000
Subject: [PATCH 09/21] fix: copies of an inertial state keep its thrust and
 perturbation setting

---
 src/openspace/coordinates/states.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/openspace/coordinates/states.py b/src/openspace/coordinates/states.py
index 94c7602..6b3bb22 100644
--- a/src/openspace/coordinates/states.py
+++ b/src/openspace/coordinates/states.py
@@ -137,6 +137,13 @@ class GCRF(State):
         #: boolean to determine if perturbations are modeled during propagation
         self.use_perturbations: bool = True
 
+    def copy(self) -> "GCRF":
+        """create a duplicate of the calling state that keeps its thrust and perturbation setting"""
+        state: GCRF = super().copy()
+        state.thrust = self.thrust.copy()
+        state.use_perturbations = self.use_perturbations
+        return state
+
     def acceleration_from_gravity(self) -> Vector3D:
         """calculates the gravity due to a nonspherical earth
 
-- 
2.43.0


From f5a14a8497588c1bc8c82b50adf4f515ab629e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:25 +0000
Subject: [PATCH 10/21] fix: propagation honours the perturbation setting of
 the propagated state

---
 src/openspace/propagators/inertial.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/openspace/propagators/inertial.py b/src/openspace/propagators/inertial.py
index 28e316d..7970465 100644
--- a/src/openspace/propagators/inertial.py
+++ b/src/openspace/propagators/inertial.py
@@ -52,26 +52,31 @@ class RK4:
         epoch_1 = epoch_0.plus_days(ddays)
         y1: GCRF = GCRF(epoch_1, y[0].plus(k1[0].scaled(dsecs)), y[1].plus(k1[1].scaled(dsecs)))
         y1.thrust = self.thrust_vector(dsecs)
+        y1.use_perturbations = self.state.use_perturbations
         k2: List[Vector3D] = y1.derivative()
 
         y2: GCRF = GCRF(epoch_1, y[0].plus(k2[0].scaled(dsecs)), y[1].plus(k2[1].scaled(dsecs)))
         y2.thrust = self.thrust_vector(dsecs)
+        y2.use_perturbations = self.state.use_perturbations
         k3: List[Vector3D] = y2.derivative()
 
         epoch_2 = epoch_1.plus_days(ddays)
         y3: GCRF = GCRF(epoch_2, y[0].plus(k3[0].scaled(h)), y[1].plus(k3[1].scaled(h)))
         y3.thrust = self.thrust_vector(dsecs * 2)
+        y3.use_perturbations = self.state.use_perturbations
         k4: List[Vector3D] = y3.derivative()
 
         coeff: float = 1 / 6
         dv: Vector3D = k1[0].plus(k2[0].scaled(2).plus(k3[0].scaled(2).plus(k4[0]))).scaled(coeff)
         da: Vector3D = k1[1].plus(k2[1].scaled(2).plus(k3[1].scaled(2).plus(k4[1]))).scaled(coeff)
 
+        use_perturbations: bool = self.state.use_perturbations
         self.state = GCRF(
             epoch_2,
             self.state.position.plus(dv.scaled(h)),
             self.state.velocity.plus(da.scaled(h)),
         )
+        self.state.use_perturbations = use_perturbations
 
         # Burnt propellant is no longer accelerated in the next step
         self.m0 -= self.m_dot * h
-- 
2.43.0


From 64a9c8ff9d358a4bfa69e00510fe02d3a46b9fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:26 +0000
Subject: [PATCH 11/21] fix: impulsive maneuvers keep the step size and
 perturbation setting of the spacecraft

---
 src/openspace/bodies/artificial.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index cd0419b..aaa2a7e 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -135,9 +135,10 @@ class Spacecraft:
         :param ric_burn: burn vector with components of radial, in-track, and cross-track (km/s)
         :type ric_burn: Vector3D
         """
-        self.propagator = RK4(
-            StateConvert.hcw.to_gcrf(HCW(self.current_epoch(), Vector3D(0, 0, 0), ric_burn), self.current_state())
-        )
+        origin: GCRF = self.current_state()
+        burned: GCRF = StateConvert.hcw.to_gcrf(HCW(self.current_epoch(), Vector3D(0, 0, 0), ric_burn), origin)
+        burned.use_perturbations = origin.use_perturbations
+        self.propagator.state = burned
 
     def finite_maneuver(self, ric_dv: Vector3D) -> None:
         """perform a maneuver using ric acceleration accross a specified time
-- 
2.43.0


From a85ad9868fa8cb0717f50bdea634e018990604d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:28 +0000
Subject: [PATCH 12/21] fix: attitude follows the steering mode after maneuvers

---
 src/openspace/bodies/artificial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index aaa2a7e..ec8195b 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -139,6 +139,7 @@ class Spacecraft:
         burned: GCRF = StateConvert.hcw.to_gcrf(HCW(self.current_epoch(), Vector3D(0, 0, 0), ric_burn), origin)
         burned.use_perturbations = origin.use_perturbations
         self.propagator.state = burned
+        self.update_attitude()
 
     def finite_maneuver(self, ric_dv: Vector3D) -> None:
         """perform a maneuver using ric acceleration accross a specified time
@@ -158,6 +159,7 @@ class Spacecraft:
         m_spec: float = self.m_dot / self.total_mass()
         dt: float = (1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
         self.propellant_mass -= self.m_dot * dt
+        self.update_attitude()
 
     def sma(self) -> float:
         """calculate the semi-major axis of the calling spacecraft
-- 
2.43.0


From 40d7a9458659cedb97ec57ea2222e688e45aee1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:30 +0000
Subject: [PATCH 13/21] fix: angular noise can be applied to vectors along the
 z axis

---
 src/openspace/math/linalg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/openspace/math/linalg.py b/src/openspace/math/linalg.py
index 4df3fe1..ba2c058 100644
--- a/src/openspace/math/linalg.py
+++ b/src/openspace/math/linalg.py
@@ -168,7 +168,10 @@ class Vector3D:
         :return: new vector offset using gaussian distribution for the angle
         :rtype: Vector3D
         """
-        return self.rotation_about_axis(self.cross(Vector3D(0, 0, 1)), gauss(0, ang_err)).rotation_about_axis(
+        axis: Vector3D = self.cross(Vector3D(0, 0, 1))
+        if axis.magnitude() == 0:
+            axis = Vector3D(1, 0, 0)
+        return self.rotation_about_axis(axis, gauss(0, ang_err)).rotation_about_axis(
             self, uniform(0, 2 * pi)
         )
 
-- 
2.43.0


From 5506d29cf82d0131acd7e2063d3588fdda67ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:32 +0000
Subject: [PATCH 14/21] fix: gauss sector ratio is defined for negative omega,
 so arcs through perigee converge

---
 src/openspace/estimation/iod.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 91dd2d0..eeca524 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -1,4 +1,4 @@
-from math import asin, atan2, cos, pi, sin, sqrt
+from math import asin, asinh, atan2, cos, pi, sin, sinh, sqrt
 
 from openspace.bodies.celestial import Earth
 from openspace.coordinates.elements import ClassicalElements
@@ -143,6 +143,12 @@ class Gauss:
         :return: w(omega)
         :rtype: float
         """
+        if w == 0:
+            return 4 / 3
+        if w < 0:
+            h: float = 2 * asinh(sqrt(-w))
+            sh: float = sinh(h)
+            return (sinh(2 * h) - 2 * h) / (sh * sh * sh)
         g: float = 2 * asin(sqrt(w))
         sg: float = sin(g)
         return (2 * g - sin(2 * g)) / (sg * sg * sg)
-- 
2.43.0


From ebff422d07fc8e27c8331a2925df99156e25bce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:20 +0000
Subject: [PATCH 15/21] fix: argument of latitude of an equatorial orbit is
 measured from its reported node

---
 src/openspace/math/functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/openspace/math/functions.py b/src/openspace/math/functions.py
index 255f75c..8a35e93 100644
--- a/src/openspace/math/functions.py
+++ b/src/openspace/math/functions.py
@@ -845,6 +845,10 @@ class ArgumentOfLatitude:
            find equation reference
         """
         u: float = atan2(r.z, -r.x * w.y + r.y * w.x)
+        if w.x == 0 and w.y == 0:
+            # equatorial orbit: measure from the node reported as its right ascension
+            raan: float = RightAscensionNode.from_w(w)
+            u = atan2(w.z * (r.y * cos(raan) - r.x * sin(raan)), r.x * cos(raan) + r.y * sin(raan))
         if u < 0:
             u += 2 * pi
         return u
-- 
2.43.0


From 003923b5ea63abacd28c4e9a298f48538edd1d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:22 +0000
Subject: [PATCH 16/21] fix: argument of perigee from two positions stays in
 its range and is defined for equatorial orbits

---
 src/openspace/estimation/iod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index eeca524..3f45f32 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -4,6 +4,7 @@ from openspace.bodies.celestial import Earth
 from openspace.coordinates.elements import ClassicalElements
 from openspace.estimation.obs import Observation
 from openspace.math.constants import SECONDS_IN_DAY
+from openspace.math.functions import EquationsOfMotion
 from openspace.math.linalg import Vector3D
 
 
@@ -39,7 +40,7 @@ class Gauss:
 
         # equation 2.111
         w: Vector3D = ea.cross(e0)
-        ua: float = atan2(ra.z, -ra.x * w.y + ra.y * w.x)
+        ua: float = EquationsOfMotion.U.from_r_w(ra, w)
         inc: float = atan2(sqrt(w.x * w.x + w.y * w.y), w.z)
         raan: float = atan2(w.x, -w.y)
         if inc < 0:
-- 
2.43.0


From d26737cf4483276cc9a746f2314999ccfe948b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:30 +0000
Subject: [PATCH 17/21] fix: the slew to a target at another epoch is measured
 to where the target is at the current epoch

---
 src/openspace/bodies/artificial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index ec8195b..6195359 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -308,6 +308,9 @@ class Spacecraft:
         """
         # Include slew duration if not already target-pointing
         if self.steering != Spacecraft.STEERING_MODES[2] or self.tracked_target is not target:
+            # Measure the slew to where the target is now
+            if target.current_epoch().value != self.current_epoch().value:
+                target.step_to_epoch(self.current_epoch())
             self.steering = Spacecraft.STEERING_MODES[2]
             self.tracked_target = target
             self.slewing = True
-- 
2.43.0


From 5b2707268eb442e3881588bcaa6ac42a0ea2aa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:24 +0000
Subject: [PATCH 18/21] fix: RelativeKalman shared its default covariance and
 noise matrices between all filters

---
 src/openspace/estimation/filtering.py | 4 ++--
 src/openspace/math/linalg.py          | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/openspace/estimation/filtering.py b/src/openspace/estimation/filtering.py
index 04c7deb..1f2338c 100644
--- a/src/openspace/estimation/filtering.py
+++ b/src/openspace/estimation/filtering.py
@@ -63,13 +63,13 @@ class RelativeKalman:
         self.x10: Vector6D
 
         #: current covariance of the state
-        self.p00: Matrix6D = RelativeKalman.DEFAULT_COVARIANCE
+        self.p00: Matrix6D = RelativeKalman.DEFAULT_COVARIANCE.copy()
 
         #: predicted covariance of the state
         self.p10: Matrix6D
 
         #: processing noise of the filter
-        self.q: Matrix6D = RelativeKalman.DEFAULT_NOISE
+        self.q: Matrix6D = RelativeKalman.DEFAULT_NOISE.copy()
 
         #: state transition matrix for the filter state
         self.f: Matrix6D = self.propagator.system_matrix(0)
diff --git a/src/openspace/math/linalg.py b/src/openspace/math/linalg.py
index ba2c058..2ad1f1f 100644
--- a/src/openspace/math/linalg.py
+++ b/src/openspace/math/linalg.py
@@ -880,6 +880,14 @@ class Matrix6D:
             Vector6D(0, 0, 0, 0, 0, 1),
         )
 
+    def copy(self) -> "Matrix6D":
+        """create a duplicate of the calling matrix
+
+        :return: a matrix with equal elements that shares no rows with the calling matrix
+        :rtype: Matrix6D
+        """
+        return Matrix6D(self.row1, self.row2, self.row3, self.row4, self.row5, self.row6)
+
     def diagonal(self) -> Vector6D:
         """create a vector whose elements are equal to the diagonal of the matrix
 
-- 
2.43.0


From 67096a3ece2f301a541b00d4a19abb94d65c40a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:52 +0000
Subject: [PATCH 19/21] fix: eccentric and mean anomalies are returned in [0, 2
 pi) for any number of revolutions

---
 src/openspace/math/functions.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/openspace/math/functions.py b/src/openspace/math/functions.py
index 8a35e93..37252e5 100644
--- a/src/openspace/math/functions.py
+++ b/src/openspace/math/functions.py
@@ -734,9 +734,7 @@ class EccentricAnomaly:
             else:
                 ea0 = ean
 
-        if ean < 0:
-            ean += 2 * pi
-        return ean
+        return ean % (2 * pi)
 
     @staticmethod
     def from_rdv_r_a_n(r_dot_v: float, r: float, a: float, n: float) -> float:
@@ -878,9 +876,7 @@ class MeanAnomaly:
         :rtype: float
         """
         ma: float = ea - e * sin(ea)
-        if ma < 0:
-            ma += 2 * pi
-        return ma
+        return ma % (2 * pi)
 
 
 class EquationsOfMotion:
-- 
2.43.0


From 756c03d2135137ed29bebd59acbad95e396e2cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:09 +0000
Subject: [PATCH 20/21] fix: the solution of Kepler's equation terminates for
 every eccentricity below one

---
 src/openspace/math/functions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/openspace/math/functions.py b/src/openspace/math/functions.py
index 37252e5..d363462 100644
--- a/src/openspace/math/functions.py
+++ b/src/openspace/math/functions.py
@@ -695,6 +695,9 @@ class EccentricAnomaly:
     #: the tolerance used to stop the recursive solutions of Kepler's equation
     TOLERANCE: float = 1e-12
 
+    #: the most iterations used, reached only when rounding keeps the steps above the tolerance
+    MAX_ITERATIONS: int = 100
+
     @staticmethod
     def from_ma_e(ma: float, e: float) -> float:
         r"""calculate the eccentric anomaly using algorithm 2 in :ref:`vallado`
@@ -718,6 +721,8 @@ class EccentricAnomaly:
         :rtype: float
         """
         converged: bool = False
+        iterations: int = 0
+        ma = ma % (2 * pi)
         ea0: float = ma
         num: float
         den: float
@@ -729,7 +734,8 @@ class EccentricAnomaly:
 
         while not converged:
             ean = ea0 + (ma - ea0 + e * sin(ea0)) / (1 - e * cos(ea0))
-            if abs(ean - ea0) < EccentricAnomaly.TOLERANCE:
+            iterations += 1
+            if abs(ean - ea0) < EccentricAnomaly.TOLERANCE or iterations == EccentricAnomaly.MAX_ITERATIONS:
                 converged = True
             else:
                 ea0 = ean
-- 
2.43.0


From 3ffaae59eeea2d71dad0fcba58ffe528cd2ca99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:56 +0000
Subject: [PATCH 21/21] fix: retargeting no longer moves the previous target
 when the new one tracks back

---
 src/openspace/bodies/artificial.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 6195359..4d3590b 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -308,13 +308,14 @@ class Spacecraft:
         """
         # Include slew duration if not already target-pointing
         if self.steering != Spacecraft.STEERING_MODES[2] or self.tracked_target is not target:
+            boresight: Vector3D = self.body_z
+            self.steering = Spacecraft.STEERING_MODES[2]
+            self.tracked_target = target
             # Measure the slew to where the target is now
             if target.current_epoch().value != self.current_epoch().value:
                 target.step_to_epoch(self.current_epoch())
-            self.steering = Spacecraft.STEERING_MODES[2]
-            self.tracked_target = target
             self.slewing = True
-            t: float = self.body_z.angle(self.target_vector(target)) * self.slew_scalar
+            t: float = boresight.angle(self.target_vector(target)) * self.slew_scalar
             self.slew_stop = self.current_epoch().plus_days(t)
 
         self.update_attitude()
-- 
2.43.0

