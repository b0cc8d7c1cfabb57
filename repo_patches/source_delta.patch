From 577c0a48b0dafb913eec4f3162f013253a71f1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:52 +0000
Subject: [PATCH 01/57] fix: convert inclination to radians in ground velocity
 calculations

---
 src/tatc/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 04f2202..b9a8469 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -303,7 +303,7 @@ def compute_ground_velocity(altitude: float, inclination: float) -> float:
     mean_motion_rad_s = np.sqrt(constants.EARTH_MU / semimajor_axis**3)
     return constants.EARTH_MEAN_RADIUS * (
         mean_motion_rad_s
-        - (2 * np.pi * np.cos(np.degrees(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
+        - (2 * np.pi * np.cos(np.radians(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
     )
 
 
@@ -326,7 +326,7 @@ def along_track_distance_to_access_time(
     mean_motion_rad_s = np.sqrt(constants.EARTH_MU / semimajor_axis**3)
     ground_velocity = constants.EARTH_MEAN_RADIUS * (
         mean_motion_rad_s
-        - (2 * np.pi * np.cos(np.degrees(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
+        - (2 * np.pi * np.cos(np.radians(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
     )
     return along_track / ground_velocity
 
@@ -350,7 +350,7 @@ def access_time_to_along_track_distance(
     mean_motion_rad_s = np.sqrt(constants.EARTH_MU / semimajor_axis**3)
     ground_velocity = constants.EARTH_MEAN_RADIUS * (
         mean_motion_rad_s
-        - (2 * np.pi * np.cos(np.degrees(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
+        - (2 * np.pi * np.cos(np.radians(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
     )
     return ground_velocity * access_time
 
-- 
2.43.0


From fa4078d6dc92ffbf53b55cf9cf00f1511fcdfd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:52 +0000
Subject: [PATCH 02/57] fix: use full off-nadir look angle to compute field of
 view

---
 src/tatc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index b9a8469..4dfb799 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -151,7 +151,7 @@ def swath_width_to_field_of_view(
         constants.EARTH_MEAN_RADIUS + altitude
     )
     # eta is the angular radius from sub-satellite point to center of view
-    sin_eta = min(sin_rho, np.sin(np.radians(look_angle) / 2))
+    sin_eta = min(sin_rho, np.sin(np.radians(look_angle)))
     # epsilon is the satellite elevation from the center of view
     cos_epsilon = sin_eta / sin_rho
     # lambda is the Earth central angle to the center of view
-- 
2.43.0


From 0965c20b2a012a43a4b9f391eb549fb2d52c7648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:52 +0000
Subject: [PATCH 03/57] fix: treat fields of regard above 180 degrees as
 viewing the full visible disk

---
 src/tatc/schemas/instrument.py | 4 ++--
 src/tatc/utils.py              | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tatc/schemas/instrument.py b/src/tatc/schemas/instrument.py
index 073633e..ca38278 100644
--- a/src/tatc/schemas/instrument.py
+++ b/src/tatc/schemas/instrument.py
@@ -101,8 +101,8 @@ class Instrument(BaseModel):
         """
         return compute_footprint(
             orbit_track=orbit_track,
-            cross_track_field_of_view=self.field_of_regard,
-            along_track_field_of_view=self.field_of_regard,
+            cross_track_field_of_view=min(self.field_of_regard, 180),
+            along_track_field_of_view=min(self.field_of_regard, 180),
             roll_angle=0,
             pitch_angle=0,
             is_rectangular=False,
diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 4dfb799..84a3960 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -188,7 +188,8 @@ def field_of_regard_to_swath_width(
         constants.EARTH_MEAN_RADIUS + altitude
     )
     # eta is the angular radius of the region viewable by the satellite
-    sin_eta = min(sin_rho, np.sin(np.radians(field_of_regard) / 2))
+    # (a field of regard of 180 degrees or more views the entire visible disk)
+    sin_eta = min(sin_rho, np.sin(np.radians(min(field_of_regard, 180)) / 2))
     # epsilon is the min satellite elevation for obs (grazing angle)
     cos_epsilon = sin_eta / sin_rho
     # lambda is the Earth central angle
@@ -238,7 +239,8 @@ def compute_min_elevation_angle(
         float: The minimum elevation angle (degrees) for observation.
     """
     # eta is the angular radius of the region viewable by the satellite
-    sin_eta = np.sin(np.radians(field_of_regard) / 2)
+    # (a field of regard of 180 degrees or more views the entire visible disk)
+    sin_eta = np.sin(np.radians(min(field_of_regard, 180)) / 2)
     # rho is the angular radius of the earth viewed by the satellite
     sin_rho = (constants.EARTH_MEAN_RADIUS + elevation) / (
         constants.EARTH_MEAN_RADIUS + altitude
-- 
2.43.0


From caf1629cbb05b276f7bb3690396de6db4a69148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:09 +0000
Subject: [PATCH 04/57] fix: keep orbital period in orbits derived from Molniya
 and Tundra orbits

---
 src/tatc/schemas/orbit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index f9f80c1..7b5fc02 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -1093,7 +1093,7 @@ class MolniyaOrbit(OrbitBase):
             epoch=self.epoch,
             inclination=self.inclination,
             right_ascension_ascending_node=raan,
-            eccentricity=self.get_eccentricity(),
+            orbital_period=self.orbital_period,
             perigee_argument=self.perigee_argument,
         )
 
@@ -1178,6 +1178,7 @@ class TundraOrbit(MolniyaOrbit):
             epoch=self.epoch,
             inclination=self.inclination,
             right_ascension_ascending_node=raan,
+            orbital_period=self.orbital_period,
             eccentricity=self.eccentricity,
             perigee_argument=self.perigee_argument,
         )
-- 
2.43.0


From fd7795b7e0f0afd02adb4fdb035cb67839a18fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:10 +0000
Subject: [PATCH 05/57] fix: report the specified orbital period of Molniya and
 Tundra orbits

---
 src/tatc/schemas/orbit.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 7b5fc02..43063d3 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -1045,6 +1045,15 @@ class MolniyaOrbit(OrbitBase):
             / (4 * (np.pi**2))
         )
 
+    def get_orbit_period(self) -> timedelta:
+        """
+        Gets the approximate orbit period.
+
+        Returns:
+            timedelta: the orbit period
+        """
+        return timedelta(seconds=self.orbital_period)
+
     def get_eccentricity(self) -> float:
         """
         Gets the eccentricity (float between 0 and 1).
-- 
2.43.0


From 7a7fa695af3add5127db0b64ba9b395c4067fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:43 +0000
Subject: [PATCH 06/57] fix: wrap derived orbit angles that round up to 360
 degrees

---
 src/tatc/schemas/orbit.py | 60 +++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 43063d3..5807e57 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -24,6 +24,20 @@ from .point import Point
 from .. import config, constants, utils
 
 
+def _wrap_degrees(angle: float) -> float:
+    """
+    Wraps an angle to the half-open interval [0, 360) degrees.
+
+    Args:
+        angle (float): Angle (degrees) to wrap.
+
+    Returns:
+        float: the wrapped angle
+    """
+    # second modulo handles small negative angles rounded up to 360
+    return np.mod(np.mod(angle, 360), 360)
+
+
 class TwoLineElements(BaseModel):
     """
     Orbit defined with standard two line elements.
@@ -775,10 +789,12 @@ class CircularOrbit(OrbitBase):
         Returns:
             CircularOrbit: the derived orbit
         """
-        true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360)
+        true_anomaly = _wrap_degrees(
+            utils.mean_anomaly_to_true_anomaly(
+                np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360)
+            )
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = _wrap_degrees(self.right_ascension_ascending_node + delta_raan)
         return CircularOrbit(
             altitude=self.altitude,
             true_anomaly=true_anomaly,
@@ -885,10 +901,12 @@ class SunSynchronousOrbit(OrbitBase):
         Returns:
             CircularOrbit: the derived orbit
         """
-        true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360)
+        true_anomaly = _wrap_degrees(
+            utils.mean_anomaly_to_true_anomaly(
+                np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360)
+            )
         )
-        raan = np.mod(self.get_right_ascension_ascending_node() + delta_raan, 360)
+        raan = _wrap_degrees(self.get_right_ascension_ascending_node() + delta_raan)
         # TODO the resulting orbit *is* still sun-synchronous; however, with a
         # different equator-crossing time. Need to do the math to determine.
         # For now, simply return a circular orbit with the correct parameters.
@@ -964,11 +982,13 @@ class KeplerianOrbit(CircularOrbit):
         Returns:
             KeplerianOrbit: the derived orbit
         """
-        true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
-            eccentricity=self.eccentricity,
+        true_anomaly = _wrap_degrees(
+            utils.mean_anomaly_to_true_anomaly(
+                np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
+                eccentricity=self.eccentricity,
+            )
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = _wrap_degrees(self.right_ascension_ascending_node + delta_raan)
         return KeplerianOrbit(
             altitude=self.altitude,
             true_anomaly=true_anomaly,
@@ -1091,11 +1111,13 @@ class MolniyaOrbit(OrbitBase):
         Returns:
             Molniya Orbit: the derived orbit
         """
-        true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
-            eccentricity=self.get_eccentricity(),
+        true_anomaly = _wrap_degrees(
+            utils.mean_anomaly_to_true_anomaly(
+                np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
+                eccentricity=self.get_eccentricity(),
+            )
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = _wrap_degrees(self.right_ascension_ascending_node + delta_raan)
         return MolniyaOrbit(
             altitude=self.altitude,
             true_anomaly=true_anomaly,
@@ -1176,11 +1198,13 @@ class TundraOrbit(MolniyaOrbit):
         Returns:
             Tundra Orbit: the derived orbit
         """
-        true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
-            eccentricity=self.get_eccentricity(),
+        true_anomaly = _wrap_degrees(
+            utils.mean_anomaly_to_true_anomaly(
+                np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
+                eccentricity=self.get_eccentricity(),
+            )
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = _wrap_degrees(self.right_ascension_ascending_node + delta_raan)
         return TundraOrbit(
             altitude=self.altitude,
             true_anomaly=true_anomaly,
-- 
2.43.0


From a5979cfb332abd61da8a83ad57037dbd0364cb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:43 +0000
Subject: [PATCH 07/57] fix: validate two line element format before
 chronological order

---
 src/tatc/schemas/orbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 5807e57..6b31dc2 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -46,9 +46,9 @@ class TwoLineElements(BaseModel):
     type: Literal["tle"] = Field("tle", description="Orbit type discriminator.")
     tle: Annotated[
         List[str],
-        AfterValidator(utils.is_chronological_tle),
-        AfterValidator(utils.is_valid_tle),
         AfterValidator(utils.is_even_length_list),
+        AfterValidator(utils.is_valid_tle),
+        AfterValidator(utils.is_chronological_tle),
     ] = Field(
         ...,
         description="Two line elements. Multiple TLEs must be in chronological order.",
-- 
2.43.0


From 5b98b1af8f07039ca709b997a833f935f268782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:43 +0000
Subject: [PATCH 08/57] fix: read negative b-star and second derivative terms
 of two line elements

---
 src/tatc/schemas/orbit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 6b31dc2..b2705a3 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -157,9 +157,9 @@ class TwoLineElements(BaseModel):
             float: the second derivative of mean motion
         """
         # pylint: disable=E1136
-        return float("0." + self.tle[2 * tle_i][44:50].strip()) * 10 ** (
-            int(self.tle[2 * tle_i][50:52])
-        )
+        return float(
+            self.tle[2 * tle_i][44] + "." + self.tle[2 * tle_i][45:50]
+        ) * 10 ** (int(self.tle[2 * tle_i][50:52]))
 
     def get_b_star(self, tle_i=0) -> float:
         """
@@ -172,9 +172,9 @@ class TwoLineElements(BaseModel):
             float: the b-star term
         """
         # pylint: disable=E1136
-        return float("0." + self.tle[2 * tle_i][53:59].strip()) * 10 ** (
-            int(self.tle[2 * tle_i][59:61])
-        )
+        return float(
+            self.tle[2 * tle_i][53] + "." + self.tle[2 * tle_i][54:59]
+        ) * 10 ** (int(self.tle[2 * tle_i][59:61]))
 
     def get_ephemeris_type(self, tle_i=0) -> int:
         """
-- 
2.43.0


From 2c26fcb788ce7119682d1ba361fa420406d5cb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:03 +0000
Subject: [PATCH 09/57] fix: read alpha-5 catalog numbers of two line elements

---
 src/tatc/schemas/orbit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index b2705a3..c11bf44 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -14,6 +14,7 @@ import numpy as np
 from pydantic import AfterValidator, BaseModel, Field
 from sgp4.api import Satrec, WGS72
 from sgp4 import exporter
+from sgp4.alpha5 import from_alpha5
 from sgp4.conveniences import sat_epoch_datetime
 from skyfield.api import EarthSatellite, Time, wgs84
 from skyfield.positionlib import Geocentric
@@ -81,7 +82,7 @@ class TwoLineElements(BaseModel):
             int: the catalog number
         """
         # pylint: disable=E1136
-        return int(self.tle[2 * tle_i][2:7])
+        return from_alpha5(self.tle[2 * tle_i][2:7])
 
     def get_classification(self, tle_i=0) -> str:
         """
-- 
2.43.0


From 68f58b4a95f6437381c8191a9b351c9a19edf2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:03 +0000
Subject: [PATCH 10/57] fix: read blank-padded fields of two line elements

---
 src/tatc/schemas/orbit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index c11bf44..9e7b470 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -188,7 +188,7 @@ class TwoLineElements(BaseModel):
             int: the ephemeris type
         """
         # pylint: disable=E1136
-        return int(self.tle[2 * tle_i][62])
+        return int(self.tle[2 * tle_i][62].strip() or 0)
 
     def get_element_set_number(self, tle_i=0) -> int:
         """
@@ -201,7 +201,7 @@ class TwoLineElements(BaseModel):
             int: the element set number
         """
         # pylint: disable=E1136
-        return int(self.tle[2 * tle_i][64:68])
+        return int(self.tle[2 * tle_i][64:68].strip() or 0)
 
     def get_inclination(self, tle_i=0) -> float:
         """
@@ -240,7 +240,7 @@ class TwoLineElements(BaseModel):
             float: the eccentricity
         """
         # pylint: disable=E1136
-        return float("0." + self.tle[2 * tle_i + 1][26:33].strip())
+        return float("0." + self.tle[2 * tle_i + 1][26:33].replace(" ", "0"))
 
     def get_perigee_argument(self, tle_i=0) -> float:
         """
@@ -304,7 +304,7 @@ class TwoLineElements(BaseModel):
             timedelta: the revolution number
         """
         # pylint: disable=E1136
-        return int(self.tle[2 * tle_i + 1][63:68])
+        return int(self.tle[2 * tle_i + 1][63:68].strip() or 0)
 
     def get_semimajor_axis(self, tle_i=0) -> float:
         """
-- 
2.43.0


From c7dd86e4b77b6f53774ae8548da0e6698242ff54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:03 +0000
Subject: [PATCH 11/57] fix: assign the closest two line elements to each
 partition of a timeline

---
 src/tatc/schemas/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 9e7b470..0654045 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -481,7 +481,7 @@ class TwoLineElements(BaseModel):
             [start] + list(epoch_midpoints[midpoint_indices]) + [end],
             (
                 [self.get_closest_tle_index(start)]
-                + list(map(int, tle_i[midpoint_indices]))
+                + [int(tle_i[i + 1]) for i in midpoint_indices]
                 + [self.get_closest_tle_index(end)]
             ),
         )
-- 
2.43.0


From 5b3661398eefd60cb73b7948f993c5092ff46e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:03 +0000
Subject: [PATCH 12/57] fix: repeat orbit tracks in the Earth-fixed frame

---
 src/tatc/schemas/orbit.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 0654045..8f90f72 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -623,9 +623,11 @@ class TwoLineElements(BaseModel):
                         + np.sign(offset / timedelta(1))
                         * np.mod(np.abs(offset), repeat_cycle)
                     )
-                repeat_track = self.as_skyfield().at(repeat_times)
-                return Geocentric(
-                    repeat_track.position.au, repeat_track.velocity.au_per_d, ts_times
+                # orbit repeats in the Earth-fixed frame
+                return Geocentric.from_time_and_frame_vectors(
+                    ts_times,
+                    itrs,
+                    *self.as_skyfield().at(repeat_times).frame_xyz_and_velocity(itrs),
                 )
         # compute satellite positions
         return self.as_skyfield().at(ts_times)
-- 
2.43.0


From 200ae39381b059973a85f6aa540ef4c3541867d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:42 +0000
Subject: [PATCH 13/57] fix: report visible intervals that contain the entire
 analysis period

---
 src/tatc/analysis/coverage.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index 856f86f..8e686ee 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -63,7 +63,16 @@ def _get_visible_interval_series(
 
     # build the observation periods
     obs_periods = []
-    if len(events) > 0 and np.all(events == 1):
+    if len(events) == 0:
+        # if there are no events, visibility is constant over the analysis period
+        topos = wgs84.latlon(point.latitude, point.longitude, point.elevation)
+        orbit_track = satellite.orbit.to_tle().get_orbit_track(start)
+        is_visible = (orbit_track - topos.at(t_0)).altaz()[
+            0
+        ].degrees >= min_elevation_angle
+    else:
+        is_visible = np.all(events == 1)
+    if is_visible:
         # if all events are type 1 (culminate), create a period from start to end
         obs_periods += [
             pd.Interval(
-- 
2.43.0


From 410e530898f6fc2bbe29e2591d6b440685094e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:42 +0000
Subject: [PATCH 14/57] fix: weight gridded observations by the samples of each
 observation

---
 src/tatc/analysis/coverage.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index 8e686ee..9c1b844 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -442,18 +442,17 @@ def grid_observations(
     # convert access and revisit to numeric values before aggregation
     gdf["access"] = gdf["access"] / timedelta(seconds=1)
     gdf["revisit"] = gdf["revisit"] / timedelta(seconds=1)
-    gdf = (
-        cells.sjoin(gdf, how="inner", predicate="contains")
-        .dissolve(
-            by="cell_id",
-            aggfunc={
-                "samples": "sum",
-                "access": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-                "revisit": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-            },
-        )
-        .reset_index()
-    )
+    # join observations to cells (one row for each observation)
+    gdf = cells.sjoin(gdf, how="inner", predicate="contains").reset_index(drop=True)
+    samples = gdf["samples"]
+    gdf = gdf.dissolve(
+        by="cell_id",
+        aggfunc={
+            "samples": "sum",
+            "access": lambda r: np.average(r, weights=samples[r.index]),
+            "revisit": lambda r: np.average(r, weights=samples[r.index]),
+        },
+    ).reset_index()
     # convert access and revisit from numeric values after aggregation
     gdf["access"] = gdf["access"].apply(lambda t: timedelta(seconds=t))
     gdf["revisit"] = gdf["revisit"].apply(
-- 
2.43.0


From 5e2536d9490c768a406c4bad7975fcd42eac7968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:42 +0000
Subject: [PATCH 15/57] fix: weight gridded latencies by the samples of each
 latency

---
 src/tatc/analysis/latency.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/tatc/analysis/latency.py b/src/tatc/analysis/latency.py
index 50528fa..948a0d4 100644
--- a/src/tatc/analysis/latency.py
+++ b/src/tatc/analysis/latency.py
@@ -273,17 +273,16 @@ def grid_latencies(
     gdf = reduced_latencies.copy()
     # convert latency to numeric values before aggregation
     gdf["latency"] = gdf["latency"] / timedelta(seconds=1)
-    gdf = (
-        cells.sjoin(gdf, how="inner", predicate="contains")
-        .dissolve(
-            by="cell_id",
-            aggfunc={
-                "samples": "sum",
-                "latency": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-            },
-        )
-        .reset_index()
-    )
+    # join latencies to cells (one row for each latency)
+    gdf = cells.sjoin(gdf, how="inner", predicate="contains").reset_index(drop=True)
+    samples = gdf["samples"]
+    gdf = gdf.dissolve(
+        by="cell_id",
+        aggfunc={
+            "samples": "sum",
+            "latency": lambda r: np.average(r, weights=samples[r.index]),
+        },
+    ).reset_index()
     # convert latency from numeric values after aggregation
     gdf["latency"] = gdf["latency"].apply(
         lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-- 
2.43.0


From 17ad35754449ba62e0570b635fd4df99d6dfca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:42 +0000
Subject: [PATCH 16/57] fix: order dilution of precision point coordinates as
 longitude, latitude

---
 src/tatc/analysis/dop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index fab7deb..7d274d2 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -126,7 +126,7 @@ def compute_dop(
         "dop": pd.Series(dop, dtype="float", index=times),
         "geometry": pd.Series(
             gpd.points_from_xy(
-                [point.latitude] * len(dop), [point.longitude] * len(dop)
+                [point.longitude] * len(dop), [point.latitude] * len(dop)
             ),
             dtype="object",
             index=times,
-- 
2.43.0


From 30fe9b664a07b7b8ebd3fe9489236296a8e0d8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:42 +0000
Subject: [PATCH 17/57] fix: include point elevation in dilution of precision

---
 src/tatc/analysis/dop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index 7d274d2..e83b62f 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -68,7 +68,7 @@ def compute_dop(
     sk_times = timescale.from_datetimes(times)
 
     # construct skyfield geodetic position for user
-    sk_position = wgs84.latlon(point.latitude, point.longitude)
+    sk_position = wgs84.latlon(point.latitude, point.longitude, point.elevation)
 
     # compute elevation/azimuth angles and range
     altazs = [(sk_sat - sk_position).at(sk_times).altaz() for sk_sat in sk_sats]
-- 
2.43.0


From bc9289557b4f047a840a6a474fce9b0f797ae2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:42 +0000
Subject: [PATCH 18/57] fix: generate unique equally spaced point and cell
 identifiers

---
 src/tatc/generation/points.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tatc/generation/points.py b/src/tatc/generation/points.py
index 8151d85..45f2392 100644
--- a/src/tatc/generation/points.py
+++ b/src/tatc/generation/points.py
@@ -194,7 +194,9 @@ def _compute_equally_spaced_point_id(
     Returns:
         int: The id of this point.
     """
-    return int(j * int(360 / theta_j) + np.mod(i, int(360 / theta_i)))
+    # number of grid columns (consistent with rounding of generated indices)
+    columns = int(np.round(360 / theta_i))
+    return int(j * columns + np.mod(i, columns))
 
 
 def _get_bounds(mask: Union[Polygon, MultiPolygon]) -> tuple:
-- 
2.43.0


From 2ba1f9028c6eb57558547b1ca1b1e5ebe09270f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:42 +0000
Subject: [PATCH 19/57] fix: wrap interior rings over the south pole

---
 src/tatc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 84a3960..4e9e4d9 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -910,7 +910,7 @@ def _wrap_polygon_over_south_pole(
             [
                 [
                     [
-                        (c[0] + lat_shift if c[1] <= -90 else c[0],),
+                        c[0] + lat_shift if c[1] <= -90 else c[0],
                         -180 - c[1] if c[1] <= -90 else c[1],
                     ]
                     for c in i.coords
-- 
2.43.0


From f611a015ea60e72ed61b6e2d493222c0cd3b31f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:42 +0000
Subject: [PATCH 20/57] fix: interpolate latitude at the antimeridian of
 polygons containing a pole

---
 src/tatc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 4e9e4d9..84d4dd6 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1081,7 +1081,7 @@ def _split_polygon_antimeridian(
             n_s = 1 if np.array(coords)[:, 1].mean() > 0 else -1
             # interpolate latitude at antimeridian
             lat = np.interp(
-                180, [coords[-1][0], coords[0][0] + 180], [coords[-1][1], coords[0][1]]
+                180, [coords[-1][0], coords[0][0] + 360], [coords[-1][1], coords[0][1]]
             )
             # reconstruct polygon (ccw) with added coords on antimeridian
             # TODO potential problem if provided polygon has z-dimension
-- 
2.43.0


From 8db9d4473f3775154b883eb7343f8da07c625a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:42 +0000
Subject: [PATCH 21/57] fix: normalize a copy of the provided geometry

---
 src/tatc/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 84d4dd6..f221abd 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1185,6 +1185,8 @@ def normalize_geometry(
     elif isinstance(geometry, gpd.GeoSeries):
         geometry = gpd.GeoDataFrame(geometry=geometry, crs="EPSG:4326")
     if isinstance(geometry, gpd.GeoDataFrame):
+        # operate on a copy of the data frame
+        geometry = geometry.copy()
         geometry["geometry"] = geometry.apply(
             lambda r: split_polygon(r.geometry),
             axis=1,
-- 
2.43.0


From 046e2beebe6195cfb9e8f72336c31d7d82dbbd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:42 +0000
Subject: [PATCH 22/57] fix: report unreadable or empty configuration files as
 specified

---
 src/tatc/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tatc/config.py b/src/tatc/config.py
index 86aeaee..f6464db 100644
--- a/src/tatc/config.py
+++ b/src/tatc/config.py
@@ -9,7 +9,7 @@ import os
 import pathlib
 
 import yaml
-from yaml.parser import ParserError
+from yaml import YAMLError
 from pydantic import BaseModel, Field, ValidationError
 
 
@@ -75,10 +75,10 @@ def load_yaml_config(path: pathlib.Path):
     with open(path, "r", encoding="utf-8") as f:
         try:
             config = yaml.safe_load(f)
-        except ParserError as err:
+        except (YAMLError, UnicodeDecodeError) as err:
             raise ConfigError(f"Couldn't parse config file - {err}") from err
     try:
-        return RuntimeConfiguration(**config)
+        return RuntimeConfiguration.model_validate({} if config is None else config)
     except ValidationError as err:
         raise ConfigError(f"Couldn't validate config file - {err}") from err
 
-- 
2.43.0


From f4ff2a888e8597aeb13b5816f18316f0a03bba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:19 +0000
Subject: [PATCH 23/57] fix: project pixels at their cone angle from the
 instrument boresight

---
 src/tatc/schemas/instrument.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/instrument.py b/src/tatc/schemas/instrument.py
index ca38278..dfd52e9 100644
--- a/src/tatc/schemas/instrument.py
+++ b/src/tatc/schemas/instrument.py
@@ -324,8 +324,8 @@ class PointedInstrument(Instrument):
 
         return compute_projected_ray_position(
             orbit_track=orbit_track,
-            cross_track_field_of_view=cone,
-            along_track_field_of_view=cone,
+            cross_track_field_of_view=2 * cone,
+            along_track_field_of_view=2 * cone,
             roll_angle=self.roll_angle,
             pitch_angle=self.pitch_angle,
             is_rectangular=False,
-- 
2.43.0


From 0d7e36dd06f1484b08a8a91204f696ec5c029087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:19 +0000
Subject: [PATCH 24/57] fix: arrange mutual orbiting groups at the reference
 orbit true anomaly

---
 src/tatc/schemas/satellite.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tatc/schemas/satellite.py b/src/tatc/schemas/satellite.py
index 66e8146..617d922 100644
--- a/src/tatc/schemas/satellite.py
+++ b/src/tatc/schemas/satellite.py
@@ -363,6 +363,9 @@ class MOGConstellation(Satellite):
                 s * np.dot(t, np.array([1, 0, 0])),
                 s * np.dot(t, np.cross(l_0, np.array([1, 0, 0]))),
             )
+            # advance to the true anomaly of reference orbit
+            # pylint: disable=E1101
+            n += np.radians(self.orbit.true_anomaly)
 
             # eccentric anomaly (radians) implicit equation [Eq. (32) in Leroy et al. (2020)]
             psi_ = 0
-- 
2.43.0


From e97fc972828636289c94d40000d060162afd29c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:19 +0000
Subject: [PATCH 25/57] fix: do not clip Earth-centered orbit track coordinates
 to a geodetic mask

---
 src/tatc/analysis/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 3ff3274..be133eb 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -231,7 +231,7 @@ def collect_orbit_track(
         sun = de421["earth"].at(orbit_track.t).observe(de421["sun"]).position.m
         beta = np.pi / 2 - angle_between(plane_normal, sun)
         track["solar_beta"] = np.degrees(beta)
-    if mask is not None:
+    if mask is not None and coordinates == OrbitCoordinate.WGS84:
         track = gpd.clip(track, mask).reset_index(drop=True)
     return track
 
-- 
2.43.0


From 2e4df26010694fa2a579b39cccc3fbbc8585632d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:19 +0000
Subject: [PATCH 26/57] fix: support unconstrained yaw angles for radio
 occultation observations

---
 src/tatc/analysis/ro_coverage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tatc/analysis/ro_coverage.py b/src/tatc/analysis/ro_coverage.py
index f68639b..b53061f 100644
--- a/src/tatc/analysis/ro_coverage.py
+++ b/src/tatc/analysis/ro_coverage.py
@@ -124,7 +124,10 @@ def _collect_ro_series(
     # occultation arc
     occ_arc = None
     # valid if tangent point intersects and yaw angle below maximum
-    valid = np.logical_and(tp_sign < 0, np.abs(rx_tx_yaw) % (180 - max_yaw) < max_yaw)
+    valid = np.logical_and(
+        tp_sign < 0,
+        np.minimum(np.abs(rx_tx_yaw), 180 - np.abs(rx_tx_yaw)) < max_yaw,
+    )
     # events occur when validity changes value
     is_event = np.diff(valid)
     # loop over valid times
-- 
2.43.0


From 539afcfd12d2bcf0b1cfd5f14184ac68d2f47943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:19 +0000
Subject: [PATCH 27/57] fix: use transmitter orbit track for radio occultation
 azimuth

---
 src/tatc/analysis/ro_coverage.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tatc/analysis/ro_coverage.py b/src/tatc/analysis/ro_coverage.py
index b53061f..45f0e39 100644
--- a/src/tatc/analysis/ro_coverage.py
+++ b/src/tatc/analysis/ro_coverage.py
@@ -155,8 +155,7 @@ def _collect_ro_series(
 
             # azimuth of transmitter from geodetic tangent point (clockwise from North)
             tp_tx_azmimuth = (
-                (transmitter.orbit.to_tle().as_skyfield() - tpp_geo)
-                .at(timescale.from_datetime(times[j]))
+                (tx_pv[j] - tpp_geo.at(timescale.from_datetime(times[j])))
                 .altaz()[1]
                 .degrees
             )
-- 
2.43.0


From f16e938689e3cb162e3e25bf42f345fae386f929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:35 +0000
Subject: [PATCH 28/57] fix: clear lazy-loaded orbit values when orbit fields
 change

---
 src/tatc/schemas/orbit.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 8f90f72..42d5b5f 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -39,7 +39,30 @@ def _wrap_degrees(angle: float) -> float:
     return np.mod(np.mod(angle, 360), 360)
 
 
-class TwoLineElements(BaseModel):
+class LazyLoadModel(BaseModel):
+    """
+    Base class for models with lazy-loaded (cached) values derived from fields.
+    """
+
+    def _clear_lazy_load(self) -> None:
+        """
+        Clears lazy-loaded values.
+        """
+        for key in ("tle", "tle_epochs", "repeat_cycle"):
+            if key not in type(self).model_fields:
+                self.__dict__.pop(key, None)
+
+    def __setattr__(self, name, value):
+        super().__setattr__(name, value)
+        self._clear_lazy_load()
+
+    def model_copy(self, *, update=None, deep=False):
+        copied = super().model_copy(update=update, deep=deep)
+        copied._clear_lazy_load()
+        return copied
+
+
+class TwoLineElements(LazyLoadModel):
     """
     Orbit defined with standard two line elements.
     """
@@ -716,7 +739,7 @@ class TwoLineElements(BaseModel):
         return self
 
 
-class OrbitBase(BaseModel):
+class OrbitBase(LazyLoadModel):
     """
     Base class for orbits.
     """
-- 
2.43.0


From bdb4769214486e3ec652c675ba3b9a61184ea84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:14 +0000
Subject: [PATCH 29/57] fix: retain all segments of ground tracks buffered as
 lines

---
 src/tatc/analysis/track.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index be133eb..1eefe65 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -22,7 +22,7 @@ from shapely.geometry import (
     Point,
     LineString,
 )
-from shapely.ops import clip_by_rect, split
+from shapely.ops import clip_by_rect, split, unary_union
 import pyproj
 
 from ..schemas.instrument import PointedInstrument
@@ -543,6 +543,7 @@ def compute_ground_track(
         )
         # filter to valid observations
         track = track[track.valid_obs].reset_index(drop=True)
+        # segments for each sub-track (divided by anti-meridian crossings)
         segments = []
         swath_widths = []
         for _, sub_track in track.groupby(["orbit_id", "track_id"]):
@@ -554,8 +555,10 @@ def compute_ground_track(
             swath_widths.append(sub_track.swath_width.mean())
             # no anti-meridian crossings if all absolute longitude differences
             # are less than 180 deg
-            if np.all(np.abs(np.diff(lon)) < 180):
-                segments.append(LineString(points))
+            if len(points) == 1:
+                segments.append([points.iloc[0]])
+            elif np.all(np.abs(np.diff(lon)) < 180):
+                segments.append([LineString(points)])
             else:
                 # find anti-meridian crossings and calculate shift direction
                 # coords from W -> E (shift < 0) will add 360 degrees to E component
@@ -571,7 +574,7 @@ def compute_ground_track(
                     LineString([(shift_dir, -180), (shift_dir, 180)]),
                 )
                 # map longitudes from (-540, -180] to (-180, 180] and from [180, 540) to [-180, 180)
-                segments.extend(
+                segments.append(
                     [
                         (
                             LineString([(c[0] + 360, c[1], c[2]) for c in line.coords])
@@ -594,8 +597,13 @@ def compute_ground_track(
             pyproj.CRS(crs), track.crs, always_xy=True
         )
         polygons = [
-            buffer_footprint(segment, to_crs, from_crs, swath_width, elevation)
-            for segment, swath_width in zip(segments, swath_widths)
+            unary_union(
+                [
+                    buffer_footprint(part, to_crs, from_crs, swath_width, elevation)
+                    for part in parts
+                ]
+            )
+            for parts, swath_width in zip(segments, swath_widths)
         ]
         # dissolve the original track
         track = track.dissolve(by=["orbit_id", "track_id"]).reset_index(drop=True)
-- 
2.43.0


From 1fed6f9c8f6aef4b6b54bed037cdaed2e468879f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:14 +0000
Subject: [PATCH 30/57] fix: retain pointed instruments when serializing space
 systems

---
 src/tatc/schemas/satellite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/satellite.py b/src/tatc/schemas/satellite.py
index 617d922..2ae2cd9 100644
--- a/src/tatc/schemas/satellite.py
+++ b/src/tatc/schemas/satellite.py
@@ -22,7 +22,7 @@ from tatc.utils import (
     compute_min_elevation_angle,
 )
 from ..constants import EARTH_MEAN_RADIUS
-from .instrument import Instrument
+from .instrument import Instrument, PointedInstrument
 from .orbit import TwoLineElements, CircularOrbit, SunSynchronousOrbit, KeplerianOrbit
 
 
@@ -39,7 +39,7 @@ class SpaceSystem(BaseModel):
     orbit: Union[
         TwoLineElements, CircularOrbit, SunSynchronousOrbit, KeplerianOrbit
     ] = Field(..., description="Orbit specification.")
-    instruments: List[Instrument] = Field(
+    instruments: List[Union[PointedInstrument, Instrument]] = Field(
         [Instrument()], min_length=1, description="List of assigned instruments."
     )
 
-- 
2.43.0


From df3998c18288a3c9eb582f20daa8131bf2c11a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:14 +0000
Subject: [PATCH 31/57] fix: support streets of coverage constellations in
 architectures

---
 src/tatc/schemas/architecture.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tatc/schemas/architecture.py b/src/tatc/schemas/architecture.py
index e82f4ab..e22a543 100644
--- a/src/tatc/schemas/architecture.py
+++ b/src/tatc/schemas/architecture.py
@@ -14,6 +14,7 @@ from .satellite import (
     TrainConstellation,
     WalkerConstellation,
     MOGConstellation,
+    SOCConstellation,
 )
 from .point import GroundStation
 
@@ -25,7 +26,13 @@ class Architecture(BaseModel):
 
     name: str = Field(..., description="Name of this mission.")
     satellites: List[
-        Union[Satellite, TrainConstellation, WalkerConstellation, MOGConstellation]
+        Union[
+            Satellite,
+            TrainConstellation,
+            WalkerConstellation,
+            MOGConstellation,
+            SOCConstellation,
+        ]
     ] = Field([], description="List of member space systems.")
     stations: List[GroundStation] = Field(
         [], description="List of member ground stations."
-- 
2.43.0


From 5784deeda7f31ecc7a3463aab6056812e7ac1500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:14 +0000
Subject: [PATCH 32/57] fix: use all two line elements to compute dilution of
 precision

---
 src/tatc/analysis/dop.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index e83b62f..3100baf 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -13,7 +13,7 @@ from typing import List
 import pandas as pd
 import numpy as np
 import geopandas as gpd
-from skyfield.api import wgs84, EarthSatellite
+from skyfield.api import wgs84
 
 from ..constants import timescale
 from ..schemas import Point, Satellite
@@ -54,14 +54,9 @@ def compute_dop(
     - geopandas.GeoDataFrame: the dop for the given user location and satellite.
 
     """
-    # construct skyfield satellites for each satellite
-    sk_sats = [
-        EarthSatellite(
-            satellite.orbit.to_tle().tle[0],
-            satellite.orbit.to_tle().tle[1],
-            satellite.name,
-        )
-        for satellite in satellites
+    # propagate orbit track for each satellite
+    orbit_tracks = [
+        satellite.orbit.to_tle().get_orbit_track(times) for satellite in satellites
     ]
 
     # construct skyfield times for each datetime
@@ -71,7 +66,9 @@ def compute_dop(
     sk_position = wgs84.latlon(point.latitude, point.longitude, point.elevation)
 
     # compute elevation/azimuth angles and range
-    altazs = [(sk_sat - sk_position).at(sk_times).altaz() for sk_sat in sk_sats]
+    altazs = [
+        (orbit_track - sk_position.at(sk_times)).altaz() for orbit_track in orbit_tracks
+    ]
     el = np.array(list(map(lambda i: i[0].radians, altazs)))
     az = np.array(list(map(lambda i: i[1].radians, altazs)))
     r = np.array(list(map(lambda i: i[2].m, altazs)))
-- 
2.43.0


From 7ac3c31eea9f6a71a5b3bf237578bfbc531b9570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:38 +0000
Subject: [PATCH 33/57] fix: retain masked ground tracks at all latitudes

---
 src/tatc/analysis/track.py | 85 ++++++++++++++++++++++++++++----------
 1 file changed, 63 insertions(+), 22 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 1eefe65..e965ef7 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -21,6 +21,7 @@ from shapely.geometry import (
     MultiPolygon,
     Point,
     LineString,
+    box,
 )
 from shapely.ops import clip_by_rect, split, unary_union
 import pyproj
@@ -30,6 +31,7 @@ from ..schemas.satellite import Satellite
 from ..utils import (
     buffer_footprint,
     buffer_target,
+    compute_ground_velocity,
     field_of_regard_to_swath_width,
 )
 from ..constants import de421, EARTH_MEAN_RADIUS, timescale
@@ -284,6 +286,61 @@ def _get_utm_epsg_code(point: Point, swath_width: float) -> str:
     )
 
 
+def _buffer_mask(
+    mask: Union[Polygon, MultiPolygon, gpd.GeoDataFrame, gpd.GeoSeries],
+    altitude: float,
+    inclination: float,
+    field_of_regard: float,
+    time_step: float,
+) -> Union[Polygon, MultiPolygon]:
+    """
+    Buffers a mask to include all sub-satellite points that may observe it.
+
+    Args:
+        mask (Polygon, MultiPolygon, geopandas.GeoDataFrame, geopandas.GeoSeries):
+                The mask to buffer.
+        altitude (float): The spacecraft altitude (meters).
+        inclination (float): The spacecraft orbit inclination (degrees).
+        field_of_regard (float): The spacecraft instrument field of regard (degrees).
+        time_step (float): The simulation time step (seconds).
+
+    Returns:
+        Union[Polygon, MultiPolygon]: The buffered mask.
+    """
+    geometry = (
+        unary_union(list(mask.geometry))
+        if isinstance(mask, (gpd.GeoDataFrame, gpd.GeoSeries))
+        else mask
+    )
+    min_lon, min_lat, max_lon, max_lat = geometry.bounds
+    # angular distance (degrees) traveled in one time step plus half of swath width
+    theta = np.degrees(
+        (
+            compute_ground_velocity(altitude, inclination) * time_step
+            + field_of_regard_to_swath_width(altitude, field_of_regard) / 2
+        )
+        / EARTH_MEAN_RADIUS
+    )
+    # scale distance to account for convergence of meridians
+    lat = max(abs(min_lat), abs(max_lat))
+    if lat + theta < 90:
+        delta_lon = np.degrees(
+            np.arcsin(np.sin(np.radians(theta)) / np.cos(np.radians(lat)))
+        )
+        scaling = 1 + delta_lon / theta
+        if lat + scaling * theta < 90 and max_lon - min_lon + 2 * scaling * theta < 360:
+            return buffer_target(
+                geometry=geometry,
+                altitude=altitude,
+                inclination=inclination,
+                field_of_regard=field_of_regard,
+                time_step=time_step,
+                distance_scaling=scaling,
+            )
+    # otherwise, include all longitudes
+    return box(-180, max(-90, min_lat - theta), 180, min(90, max_lat + theta))
+
+
 def collect_ground_track(
     satellite: Satellite,
     times: List[datetime],
@@ -333,17 +390,9 @@ def collect_ground_track(
     instrument = satellite.instruments[instrument_index]
     if mask is not None and len(times) > 1:
         ssp = wgs84.geographic_position_of(orbit_track)
-        buffered_mask = buffer_target(
-            geometry=(
-                mask
-                if isinstance(mask, (Polygon, MultiPolygon))
-                else (
-                    mask.dissolve().iloc[0].geometry
-                    if isinstance(mask, gpd.GeoDataFrame)
-                    else mask.iloc[0]
-                )
-            ),
-            altitude=satellite.orbit.to_tle().get_altitude(),
+        buffered_mask = _buffer_mask(
+            mask,
+            altitude=np.max(ssp.elevation.m),
             inclination=satellite.orbit.to_tle().get_inclination(),
             field_of_regard=instrument.field_of_regard,
             time_step=np.diff(times).mean() / timedelta(seconds=1),
@@ -662,17 +711,9 @@ def collect_ground_pixels(
         )
     if mask is not None and len(times) > 1:
         ssp = wgs84.geographic_position_of(orbit_track)
-        buffered_mask = buffer_target(
-            geometry=(
-                mask
-                if isinstance(mask, (Polygon, MultiPolygon))
-                else (
-                    mask.dissolve().iloc[0].geometry
-                    if isinstance(mask, gpd.GeoDataFrame)
-                    else mask.iloc[0]
-                )
-            ),
-            altitude=satellite.orbit.to_tle().get_altitude(),
+        buffered_mask = _buffer_mask(
+            mask,
+            altitude=np.max(ssp.elevation.m),
             inclination=satellite.orbit.to_tle().get_inclination(),
             field_of_regard=instrument.field_of_regard,
             time_step=np.diff(times).mean() / timedelta(seconds=1),
-- 
2.43.0


From 00953069c06497612bad2a8d1ef6d512bda7569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:51 +0000
Subject: [PATCH 34/57] fix: compute footprints of single-sample orbit tracks

---
 src/tatc/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index f221abd..4c7e61b 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -612,7 +612,14 @@ def compute_footprint(
     return project_polygon_to_elevation(
         split_polygon(
             Polygon(
-                [(point.longitude.degrees, point.latitude.degrees) for point in points]
+                [
+                    # handle scalar and single-element vector positions
+                    (
+                        np.ravel(point.longitude.degrees)[0],
+                        np.ravel(point.latitude.degrees)[0],
+                    )
+                    for point in points
+                ]
             )
         ),
         elevation,
-- 
2.43.0


From a3c50cc482dcdfff0a0c940060538217a8f5603c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:46 +0000
Subject: [PATCH 35/57] fix: observe points on the boundary of split pointed
 footprints

---
 src/tatc/analysis/coverage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index 9c1b844..a727d13 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -238,7 +238,7 @@ def collect_observations(
                     pitch_angle=instrument.pitch_angle,
                     is_rectangular=instrument.is_rectangular,
                     elevation=point.elevation,
-                ).contains(geo.Point(point.longitude, point.latitude))
+                ).covers(geo.Point(point.longitude, point.latitude))
             )
         )
     ]
-- 
2.43.0


From b950c3db0ae9b5e0885b7ab34f5e0b2d79e825fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:06 +0000
Subject: [PATCH 36/57] fix: grid observations and latencies without defined
 revisit or latency

---
 src/tatc/analysis/coverage.py | 8 ++------
 src/tatc/analysis/latency.py  | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index a727d13..bbfc1f9 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -412,9 +412,7 @@ def reduce_observations(aggregated_observations: gpd.GeoDataFrame) -> gpd.GeoDat
     ).reset_index()
     # convert access and revisit from numeric values after aggregation
     gdf["access"] = gdf["access"].apply(lambda t: timedelta(seconds=t))
-    gdf["revisit"] = gdf["revisit"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["revisit"] = pd.to_timedelta(gdf["revisit"], unit="s")
     return gdf
 
 
@@ -455,7 +453,5 @@ def grid_observations(
     ).reset_index()
     # convert access and revisit from numeric values after aggregation
     gdf["access"] = gdf["access"].apply(lambda t: timedelta(seconds=t))
-    gdf["revisit"] = gdf["revisit"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["revisit"] = pd.to_timedelta(gdf["revisit"], unit="s")
     return gdf
diff --git a/src/tatc/analysis/latency.py b/src/tatc/analysis/latency.py
index 948a0d4..d5ca45c 100644
--- a/src/tatc/analysis/latency.py
+++ b/src/tatc/analysis/latency.py
@@ -245,9 +245,7 @@ def reduce_latencies(latency_observations: gpd.GeoDataFrame) -> gpd.GeoDataFrame
         },
     ).reset_index()
     # convert latency from numeric values after aggregation
-    gdf["latency"] = gdf["latency"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["latency"] = pd.to_timedelta(gdf["latency"], unit="s")
     return gdf
 
 
@@ -284,7 +282,5 @@ def grid_latencies(
         },
     ).reset_index()
     # convert latency from numeric values after aggregation
-    gdf["latency"] = gdf["latency"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["latency"] = pd.to_timedelta(gdf["latency"], unit="s")
     return gdf
-- 
2.43.0


From cdb29e0889fc2b680f75c7b6c885f2c3eaaeda1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:27 +0000
Subject: [PATCH 37/57] fix: retain overlapping components of split polygons

---
 src/tatc/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 4c7e61b..dae89c7 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -21,7 +21,7 @@ from shapely.geometry import (
     GeometryCollection,
     LineString,
 )
-from shapely.ops import split, transform
+from shapely.ops import split, transform, unary_union
 from skyfield.api import wgs84
 from skyfield.framelib import itrs
 from skyfield.toposlib import GeographicPosition
@@ -1166,8 +1166,12 @@ def split_polygon(
     )
     # invalid polygons can arise from narrow sensor geometries in polar regions
     if not polygon.is_valid:
-        # try to fix geometry
-        polygon = make_valid(polygon)
+        # try to fix geometry (retaining any overlap among wrapped components)
+        polygon = (
+            unary_union([make_valid(p) for p in polygon.geoms])
+            if isinstance(polygon, MultiPolygon)
+            else make_valid(polygon)
+        )
         if isinstance(polygon, GeometryCollection):
             polygon = _convert_collection_to_polygon(polygon)
     return polygon
-- 
2.43.0


From 2e7a057b4c30d62d48eede2ad134f8bde1e65059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:03 +0000
Subject: [PATCH 38/57] fix: split polygons that cross the anti-meridian on
 both sides

---
 src/tatc/utils.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index dae89c7..53506a0 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1125,12 +1125,16 @@ def _split_polygon_antimeridian(
                 for i in polygon.interiors
             ],
         )
-        # split along the anti-meridian (-180 for shift > 0; 180 for shift < 0)
-        shift_dir = -180 if shift.max() >= 1 else 180
-        parts = split(pgon, LineString([(shift_dir, -180), (shift_dir, 180)]))
-        # convert to multi polygon
-        if isinstance(parts, GeometryCollection):
-            parts = _convert_collection_to_polygon(parts)
+        # split along the anti-meridian (on either or both sides)
+        parts = pgon
+        for anti_meridian in (-180, 180):
+            if pgon.bounds[0] < anti_meridian < pgon.bounds[2]:
+                parts = _convert_collection_to_polygon(
+                    split(
+                        parts,
+                        LineString([(anti_meridian, -180), (anti_meridian, 180)]),
+                    )
+                )
         # return polygon with components wrapped over anti-meridian
         return _wrap_polygon_over_antimeridian(parts)
     if isinstance(polygon, MultiPolygon):
-- 
2.43.0


From 47090d4dd01e8583e5de46b2ddac8a14284de7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:53 +0000
Subject: [PATCH 39/57] fix: retain line ground tracks with several
 anti-meridian crossings

---
 src/tatc/analysis/track.py | 60 ++++++++++++--------------------------
 1 file changed, 18 insertions(+), 42 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index e965ef7..3e4891b 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -23,7 +23,7 @@ from shapely.geometry import (
     LineString,
     box,
 )
-from shapely.ops import clip_by_rect, split, unary_union
+from shapely.ops import clip_by_rect, unary_union
 import pyproj
 
 from ..schemas.instrument import PointedInstrument
@@ -597,50 +597,26 @@ def compute_ground_track(
         swath_widths = []
         for _, sub_track in track.groupby(["orbit_id", "track_id"]):
             # project points to specified elevation
-            points = sub_track.geometry.apply(lambda p: Point(p.x, p.y, elevation))
-            # extract longitudes
-            lon = sub_track.geometry.apply(lambda p: p.x)
+            points = [Point(p.x, p.y, elevation) for p in sub_track.geometry]
             # extract average swath width
             swath_widths.append(sub_track.swath_width.mean())
-            # no anti-meridian crossings if all absolute longitude differences
-            # are less than 180 deg
             if len(points) == 1:
-                segments.append([points.iloc[0]])
-            elif np.all(np.abs(np.diff(lon)) < 180):
-                segments.append([LineString(points)])
-            else:
-                # find anti-meridian crossings and calculate shift direction
-                # coords from W -> E (shift < 0) will add 360 degrees to E component
-                # coords from E -> W (shift > 0) will subtract 360 degrees from W component
-                shift = np.insert(np.cumsum(np.around(np.diff(lon) / 360)), 0, 0)
-                points = [
-                    Point(p.x - 360 * shift[i], p.y, p.z) for i, p in enumerate(points)
-                ]
-                # split along the anti-meridian (-180 for shift > 0; 180 for shift < 0)
-                shift_dir = -180 if shift.max() >= 1 else 180
-                collection = split(
-                    LineString(points),
-                    LineString([(shift_dir, -180), (shift_dir, 180)]),
-                )
-                # map longitudes from (-540, -180] to (-180, 180] and from [180, 540) to [-180, 180)
-                segments.append(
-                    [
-                        (
-                            LineString([(c[0] + 360, c[1], c[2]) for c in line.coords])
-                            if np.all([c[0] <= -180 for c in line.coords])
-                            else (
-                                LineString(
-                                    [(c[0] - 360, c[1], c[2]) for c in line.coords]
-                                )
-                                if np.all([c[0] >= 180 for c in line.coords])
-                                else LineString(
-                                    [(c[0], c[1], c[2]) for c in line.coords]
-                                )
-                            )
-                        )
-                        for line in collection.geoms
-                    ]
-                )
+                segments.append(points)
+                continue
+            parts = []
+            for p, q in zip(points[:-1], points[1:]):
+                # no anti-meridian crossing if the absolute longitude difference
+                # is less than 180 deg
+                if np.abs(q.x - p.x) < 180:
+                    parts.append(LineString([p, q]))
+                    continue
+                # split along the anti-meridian (180 from W -> E; -180 from E -> W)
+                edge = 180 if p.x > 0 else -180
+                span = q.x + 2 * edge - p.x
+                lat = p.y + (q.y - p.y) * ((edge - p.x) / span if span != 0 else 0)
+                parts.append(LineString([p, Point(edge, lat, elevation)]))
+                parts.append(LineString([Point(-edge, lat, elevation), q]))
+            segments.append(parts)
         to_crs = pyproj.Transformer.from_crs(track.crs, pyproj.CRS(crs), always_xy=True)
         from_crs = pyproj.Transformer.from_crs(
             pyproj.CRS(crs), track.crs, always_xy=True
-- 
2.43.0


From 1ccb236b7276048b264375932851185ef4ec37dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:09 +0000
Subject: [PATCH 40/57] fix: rectangular fields of view reach all four corners

---
 src/tatc/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 53506a0..8fa968b 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -402,12 +402,12 @@ def compute_projected_ray_position(
         n = np.cross(v, b)
     # construct projected ray
     if is_rectangular:
-        # find orientation of rectangle corner
-        theta = np.arctan(along_track_field_of_view / cross_track_field_of_view)
         # along track half width
         tan_a_2 = np.tan(np.radians(along_track_field_of_view / 2))
         # cross track half width
         tan_c_2 = np.tan(np.radians(cross_track_field_of_view / 2))
+        # find orientation of rectangle corner
+        theta = np.arctan2(tan_a_2, tan_c_2)
         # compose the ray with different equations for each side
         ray = (
             b
@@ -566,7 +566,11 @@ def compute_footprint(
         else:
             number_points = config.rc.footprint_points_elliptical
     if is_rectangular:
-        theta = np.arctan(along_track_field_of_view / cross_track_field_of_view)
+        # find orientation of rectangle corner
+        theta = np.arctan2(
+            np.tan(np.radians(along_track_field_of_view / 2)),
+            np.tan(np.radians(cross_track_field_of_view / 2)),
+        )
         angles = np.concatenate(
             (
                 np.linspace(-theta, theta, number_points, endpoint=False),
-- 
2.43.0


From 063e639b95d0b618d10c64900e5aeb49922676f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:26 +0000
Subject: [PATCH 41/57] fix: find events of multiple element sets with equal
 epochs or no events

---
 src/tatc/schemas/orbit.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 42d5b5f..021e5fc 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -691,11 +691,13 @@ class TwoLineElements(LazyLoadModel):
                     min_elevation_angle,
                 )
                 for i in range(len(part_ts) - 1)
+                if part_ts[i] < part_ts[i + 1]
             ]
+            times_py = [t.utc_datetime() for e in events for t in e[0]]
+            if len(times_py) == 0:
+                return (Time([], []), np.array([], dtype=int))
             return (
-                constants.timescale.from_datetimes(
-                    [t.utc_datetime() for e in events for t in e[0]]
-                ),
+                constants.timescale.from_datetimes(times_py),
                 np.array([v for e in events for v in e[1]]),
             )
         # create skyfield Time
-- 
2.43.0


From 66b91bb53413c81fc43288cdf858977ce253b5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:16 +0000
Subject: [PATCH 42/57] fix: end and start passes where the closest element set
 changes visibility

---
 src/tatc/schemas/orbit.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 021e5fc..ad0434c 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -693,12 +693,31 @@ class TwoLineElements(LazyLoadModel):
                 for i in range(len(part_ts) - 1)
                 if part_ts[i] < part_ts[i + 1]
             ]
-            times_py = [t.utc_datetime() for e in events for t in e[0]]
-            if len(times_py) == 0:
+            # rise or set between partitions if a change of TLE changes visibility
+            switches = []
+            for i in range(1, len(part_ts) - 1):
+                t_i = constants.timescale.from_datetime(part_ts[i])
+                was_visible, is_visible = (
+                    (self.as_skyfield(j) - topos).at(t_i).altaz()[0].degrees
+                    >= min_elevation_angle
+                    for j in (tle_is[i - 1], tle_is[i])
+                )
+                if was_visible != is_visible:
+                    switches.append((part_ts[i], 0 if is_visible else 2))
+            merged = sorted(
+                [
+                    (t.utc_datetime(), v)
+                    for e in events
+                    for t, v in zip(e[0], e[1])
+                ]
+                + switches,
+                key=lambda event: event[0],
+            )
+            if len(merged) == 0:
                 return (Time([], []), np.array([], dtype=int))
             return (
-                constants.timescale.from_datetimes(times_py),
-                np.array([v for e in events for v in e[1]]),
+                constants.timescale.from_datetimes([t for t, _ in merged]),
+                np.array([v for _, v in merged]),
             )
         # create skyfield Time
         t_0 = constants.timescale.from_datetime(start)
-- 
2.43.0


From d27ad4c68fb9db0566f8e6a9bef3aadedbb5649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:58 +0000
Subject: [PATCH 43/57] fix: raise ConfigError for every unreadable or
 malformed config file

---
 src/tatc/config.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tatc/config.py b/src/tatc/config.py
index f6464db..7d8a7ec 100644
--- a/src/tatc/config.py
+++ b/src/tatc/config.py
@@ -9,7 +9,6 @@ import os
 import pathlib
 
 import yaml
-from yaml import YAMLError
 from pydantic import BaseModel, Field, ValidationError
 
 
@@ -72,11 +71,14 @@ def load_yaml_config(path: pathlib.Path):
     """
     if not os.path.exists(path):
         raise ConfigError("Couldn't load config file (not found)")
-    with open(path, "r", encoding="utf-8") as f:
-        try:
+    try:
+        with open(path, "r", encoding="utf-8") as f:
             config = yaml.safe_load(f)
-        except (YAMLError, UnicodeDecodeError) as err:
-            raise ConfigError(f"Couldn't parse config file - {err}") from err
+    except OSError as err:
+        raise ConfigError(f"Couldn't read config file - {err}") from err
+    except Exception as err:
+        # malformed scalars can raise errors other than YAMLError
+        raise ConfigError(f"Couldn't parse config file - {err}") from err
     try:
         return RuntimeConfiguration.model_validate({} if config is None else config)
     except ValidationError as err:
-- 
2.43.0


From f7881af367bda0c9556725dd1f63f237c62ef122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:31 +0000
Subject: [PATCH 44/57] fix: reject invalid pointed instruments of space
 systems

---
 src/tatc/schemas/satellite.py | 36 ++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/tatc/schemas/satellite.py b/src/tatc/schemas/satellite.py
index 2ae2cd9..bffdaa6 100644
--- a/src/tatc/schemas/satellite.py
+++ b/src/tatc/schemas/satellite.py
@@ -13,8 +13,8 @@ import math
 from typing import List, Union
 
 import numpy as np
-from pydantic import BaseModel, Field, model_validator
-from typing_extensions import Literal
+from pydantic import BaseModel, Discriminator, Field, Tag, model_validator
+from typing_extensions import Annotated, Literal
 
 from tatc.utils import (
     zero_pad,
@@ -26,6 +26,28 @@ from .instrument import Instrument, PointedInstrument
 from .orbit import TwoLineElements, CircularOrbit, SunSynchronousOrbit, KeplerianOrbit
 
 
+def _get_instrument_tag(value) -> str:
+    """
+    Gets the tag to discriminate between instrument types.
+
+    Args:
+        value: The instrument (or its dictionary representation).
+
+    Returns:
+        str: the instrument tag
+    """
+    if isinstance(value, dict):
+        return (
+            "pointed"
+            if any(
+                name in value and name not in Instrument.model_fields
+                for name in PointedInstrument.model_fields
+            )
+            else "instrument"
+        )
+    return "pointed" if isinstance(value, PointedInstrument) else "instrument"
+
+
 class SpaceSystem(BaseModel):
     """
     Base class for space systems.
@@ -39,7 +61,15 @@ class SpaceSystem(BaseModel):
     orbit: Union[
         TwoLineElements, CircularOrbit, SunSynchronousOrbit, KeplerianOrbit
     ] = Field(..., description="Orbit specification.")
-    instruments: List[Union[PointedInstrument, Instrument]] = Field(
+    instruments: List[
+        Annotated[
+            Union[
+                Annotated[PointedInstrument, Tag("pointed")],
+                Annotated[Instrument, Tag("instrument")],
+            ],
+            Discriminator(_get_instrument_tag),
+        ]
+    ] = Field(
         [Instrument()], min_length=1, description="List of assigned instruments."
     )
 
-- 
2.43.0


From 9c2d5f07b8ec681dad64bbcc760d18309cc75643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:46 +0000
Subject: [PATCH 45/57] fix: include access and revisit columns in empty
 aggregated observations

---
 src/tatc/analysis/coverage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index bbfc1f9..ea6a977 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -318,6 +318,8 @@ def _get_empty_aggregate_frame() -> gpd.GeoDataFrame:
         "start": pd.Series([], dtype="datetime64[ns, utc]"),
         "epoch": pd.Series([], dtype="datetime64[ns, utc]"),
         "end": pd.Series([], dtype="datetime64[ns, utc]"),
+        "access": pd.Series([], dtype="timedelta64[ns]"),
+        "revisit": pd.Series([], dtype="timedelta64[ns]"),
     }
     return gpd.GeoDataFrame(columns, crs="EPSG:4326")
 
-- 
2.43.0


From 40dcb4ed2449af4b7b89859e388e1bd4caab6a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:46 +0000
Subject: [PATCH 46/57] fix: return an empty data frame when there are no
 satellites to observe

---
 src/tatc/analysis/coverage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index ea6a977..d20225e 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -299,6 +299,8 @@ def collect_multi_observations(
         for satellite in (constellation.generate_members())
         for instrument_index in range(len(satellite.instruments))
     ]
+    if len(gdfs) == 0:
+        return _get_empty_coverage_frame(omit_solar)
     # concatenate into one data frame, sort by start time, and re-index
     return pd.concat(gdfs).sort_values("start").reset_index(drop=True)
 
-- 
2.43.0


From b25ee20729f629e8f0a7457ce23af35de990e9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:46 +0000
Subject: [PATCH 47/57] fix: include satellite altitude and azimuth columns in
 empty latencies

---
 src/tatc/analysis/latency.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tatc/analysis/latency.py b/src/tatc/analysis/latency.py
index d5ca45c..de7397f 100644
--- a/src/tatc/analysis/latency.py
+++ b/src/tatc/analysis/latency.py
@@ -101,6 +101,8 @@ def _get_empty_latency_frame() -> gpd.GeoDataFrame:
         "geometry": pd.Series([], dtype="object"),
         "satellite": pd.Series([], dtype="str"),
         "instrument": pd.Series([], dtype="str"),
+        "sat_alt": pd.Series([], dtype="float"),
+        "sat_az": pd.Series([], dtype="float"),
         "observed": pd.Series([], dtype="datetime64[ns, utc]"),
         "station": pd.Series([], dtype="str"),
         "downlinked": pd.Series([], dtype="datetime64[ns, utc]"),
-- 
2.43.0


From 9920c33b77188095cdb99f4889367a616dba6688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:46 +0000
Subject: [PATCH 48/57] fix: use boolean rising column in empty radio
 occultation results

---
 src/tatc/analysis/ro_coverage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/analysis/ro_coverage.py b/src/tatc/analysis/ro_coverage.py
index 45f0e39..b80ef99 100644
--- a/src/tatc/analysis/ro_coverage.py
+++ b/src/tatc/analysis/ro_coverage.py
@@ -190,7 +190,7 @@ def _get_empty_ro_frame() -> gpd.GeoDataFrame:
     columns = {
         "receiver": pd.Series([], dtype="str"),
         "transmitter": pd.Series([], dtype="str"),
-        "is_rising": pd.Series([], dtype="float"),
+        "is_rising": pd.Series([], dtype="bool"),
         "geometry": pd.Series([], dtype="object"),
         "position": pd.Series([], dtype="object"),
         "rx_tx_pitch": pd.Series([], dtype="float"),
-- 
2.43.0


From e486e2973a87f1bd2ab992148e306e1ee0288e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:46 +0000
Subject: [PATCH 49/57] fix: return an empty radio occultation data frame for
 no times

---
 src/tatc/analysis/ro_coverage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tatc/analysis/ro_coverage.py b/src/tatc/analysis/ro_coverage.py
index b80ef99..9a536e3 100644
--- a/src/tatc/analysis/ro_coverage.py
+++ b/src/tatc/analysis/ro_coverage.py
@@ -222,6 +222,8 @@ def collect_ro_observations(
         max_yaw (float): the maximum transmitter yaw angle (from receiver body-fixed frame) for a valid obsevation.
         range_elevation: (typing.Tuple[float]): the lower and upper bound on tangent point elevation (m) for a valid observation.
     """
+    if len(times) == 0:
+        return _get_empty_ro_frame()
     # receiver position, velocity
     rx_pv = receiver.orbit.to_tle().get_orbit_track(times)
     # unit vector tangent to receiver orbit plane (VNB x-axis)
-- 
2.43.0


From f231a96626f5c7d1e2169d48203f1b986851687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:06 +0000
Subject: [PATCH 50/57] fix: report undefined dilution of precision without
 satellites or times

---
 src/tatc/analysis/dop.py | 45 ++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index 3100baf..9799039 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -31,6 +31,33 @@ class DopMethod(str, Enum):
     TDOP = "tdop"  # Time Dilusion of Precision
 
 
+def _get_dop_frame(
+    times: List[datetime], point: Point, dop: np.ndarray
+) -> gpd.GeoDataFrame:
+    """
+    Gets a data frame for dilution of precision results.
+
+    Args:
+        times: a vector of datetimes at which dilution of precision is measured
+        point: a ground point intended to view satellites
+        dop: a vector of dilution of precision values
+
+    Returns:
+        geopandas.GeoDataFrame: The data frame indexed by time.
+    """
+    columns = {
+        "dop": pd.Series(dop, dtype="float", index=times),
+        "geometry": pd.Series(
+            gpd.points_from_xy(
+                [point.longitude] * len(dop), [point.latitude] * len(dop)
+            ),
+            dtype="object",
+            index=times,
+        ),
+    }
+    return gpd.GeoDataFrame(columns, crs="EPSG:4326")
+
+
 def compute_dop(
     times: List[datetime],
     point: Point,
@@ -54,6 +81,10 @@ def compute_dop(
     - geopandas.GeoDataFrame: the dop for the given user location and satellite.
 
     """
+    if len(times) == 0 or len(satellites) == 0:
+        # no satellite is visible at any time
+        return _get_dop_frame(times, point, np.full(len(times), np.nan))
+
     # propagate orbit track for each satellite
     orbit_tracks = [
         satellite.orbit.to_tle().get_orbit_track(times) for satellite in satellites
@@ -119,16 +150,4 @@ def compute_dop(
 
     dop = np.array([_dop(i) for i in range(len(times))])
 
-    columns = {
-        "dop": pd.Series(dop, dtype="float", index=times),
-        "geometry": pd.Series(
-            gpd.points_from_xy(
-                [point.longitude] * len(dop), [point.latitude] * len(dop)
-            ),
-            dtype="object",
-            index=times,
-        ),
-    }
-    dop_df = gpd.GeoDataFrame(columns, crs="EPSG:4326")
-
-    return dop_df
+    return _get_dop_frame(times, point, dop)
-- 
2.43.0


From f83c175f365266b6497a364569b3258c0b9badcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:59 +0000
Subject: [PATCH 51/57] fix: keep masked ground track samples when times are
 not in ascending order

---
 src/tatc/analysis/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 3e4891b..18314d9 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -395,7 +395,7 @@ def collect_ground_track(
             altitude=np.max(ssp.elevation.m),
             inclination=satellite.orbit.to_tle().get_inclination(),
             field_of_regard=instrument.field_of_regard,
-            time_step=np.diff(times).mean() / timedelta(seconds=1),
+            time_step=np.abs(np.diff(times)).mean() / timedelta(seconds=1),
         )
         # cull orbit track with buffered mask
         buffered_mask_contains_ssp = [
@@ -692,7 +692,7 @@ def collect_ground_pixels(
             altitude=np.max(ssp.elevation.m),
             inclination=satellite.orbit.to_tle().get_inclination(),
             field_of_regard=instrument.field_of_regard,
-            time_step=np.diff(times).mean() / timedelta(seconds=1),
+            time_step=np.abs(np.diff(times)).mean() / timedelta(seconds=1),
         )
         # cull orbit track with buffered mask
         buffered_mask_contains_ssp = [
-- 
2.43.0


From 745977c82bb2abad6ace8113f6267a158da8e283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:59 +0000
Subject: [PATCH 52/57] fix: keep masked ground track samples whose swath
 reaches the mask outside the pointed view

---
 src/tatc/analysis/track.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 18314d9..5d42d1b 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -411,20 +411,21 @@ def collect_ground_track(
         if not any(buffered_mask_contains_ssp):
             return _get_empty_ground_track()
         orbit_track = orbit_track[buffered_mask_contains_ssp]
-        # compute footprint for culling
-        footprint = instrument.compute_footprint(orbit_track, elevation=elevation)
-        # cull orbit track to observable footprint
-        mask_intersects_footprint = [
-            (
-                any(mask.intersects(f))
-                if isinstance(mask, (gpd.GeoDataFrame, gpd.GeoSeries))
-                else mask.intersects(f)
-            )
-            for f in (footprint if isinstance(footprint, list) else [footprint])
-        ]
-        if not any(mask_intersects_footprint):
-            return _get_empty_ground_track()
-        orbit_track = orbit_track[mask_intersects_footprint]
+        if crs == "spice":
+            # compute footprint for culling
+            footprint = instrument.compute_footprint(orbit_track, elevation=elevation)
+            # cull orbit track to observable footprint
+            mask_intersects_footprint = [
+                (
+                    any(mask.intersects(f))
+                    if isinstance(mask, (gpd.GeoDataFrame, gpd.GeoSeries))
+                    else mask.intersects(f)
+                )
+                for f in (footprint if isinstance(footprint, list) else [footprint])
+            ]
+            if not any(mask_intersects_footprint):
+                return _get_empty_ground_track()
+            orbit_track = orbit_track[mask_intersects_footprint]
     # compute targets
     target = instrument.compute_footprint_center(orbit_track, elevation)
     # determine observation validity
-- 
2.43.0


From bc6a29e15787a19c34b6ff32478cc022180bb35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:01 +0000
Subject: [PATCH 53/57] fix: report visible intervals longer than twice the
 estimated access time

---
 src/tatc/analysis/coverage.py | 45 +++++++++++------------------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index d20225e..f283d5e 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -20,7 +20,6 @@ from ..schemas.satellite import Satellite
 
 from ..utils import (
     compute_min_elevation_angle,
-    compute_max_access_time,
     compute_footprint,
 )
 from ..constants import de421, timescale
@@ -48,14 +47,6 @@ def _get_visible_interval_series(
     """
     # define starting and ending points
     t_0 = timescale.from_datetime(start)
-    # build skyfield objects
-    sat = satellite.orbit.to_tle().as_skyfield()
-    # compute the initial satellite altitude
-    satellite_altitude = wgs84.geographic_position_of(sat.at(t_0)).elevation.m
-    # compute the maximum access time to filter bad data
-    max_access_time = timedelta(
-        seconds=compute_max_access_time(satellite_altitude, min_elevation_angle)
-    )
     # find the set of observation events
     times, events = satellite.orbit.to_tle().get_observation_events(
         point, start, end, min_elevation_angle
@@ -97,28 +88,20 @@ def _get_visible_interval_series(
                 )
             ]
         # create an observation period to match with each rise event if
-        # there is a following set event within twice the maximum access time
-        obs_periods += [
-            pd.Interval(
-                left=pd.Timestamp(rise.utc_datetime()),
-                right=pd.Timestamp(
-                    sets[
-                        np.logical_and(
-                            rise.utc_datetime() < sets.utc_datetime(),
-                            sets.utc_datetime()
-                            < rise.utc_datetime() + 2 * max_access_time,
-                        )
-                    ][0].utc_datetime()
-                ),
-            )
-            for rise in rises
-            if np.any(
-                np.logical_and(
-                    rise.utc_datetime() < sets.utc_datetime(),
-                    sets.utc_datetime() < rise.utc_datetime() + 2 * max_access_time,
-                )
-            )
-        ]
+        # there is a following set event before the next rise event
+        rise_times = rises.utc_datetime()
+        set_times = sets.utc_datetime()
+        for i, rise_time in enumerate(rise_times):
+            next_sets = set_times[set_times > rise_time]
+            if len(next_sets) > 0 and (
+                i + 1 == len(rise_times) or next_sets[0] <= rise_times[i + 1]
+            ):
+                obs_periods += [
+                    pd.Interval(
+                        left=pd.Timestamp(rise_time),
+                        right=pd.Timestamp(next_sets[0]),
+                    )
+                ]
         if (
             len(rises) > 0
             and (len(sets) == 0 or rises[-1].utc_datetime() > sets[-1].utc_datetime())
-- 
2.43.0


From 76f901c1a236063bda0cdb8a8da121e555f83aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:19 +0000
Subject: [PATCH 54/57] fix: keep masked tracks in the order of their times

---
 src/tatc/analysis/track.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 5d42d1b..5523eff 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -234,7 +234,7 @@ def collect_orbit_track(
         beta = np.pi / 2 - angle_between(plane_normal, sun)
         track["solar_beta"] = np.degrees(beta)
     if mask is not None and coordinates == OrbitCoordinate.WGS84:
-        track = gpd.clip(track, mask).reset_index(drop=True)
+        track = gpd.clip(track, mask).sort_index().reset_index(drop=True)
     return track
 
 
@@ -514,7 +514,7 @@ def collect_ground_track(
         track["solar_az"] = solar_altaz[1].degrees
 
     if mask is not None:
-        track = gpd.clip(track, mask).reset_index(drop=True)
+        track = gpd.clip(track, mask).sort_index().reset_index(drop=True)
     return track
 
 
@@ -636,7 +636,7 @@ def compute_ground_track(
         # and replace the geometry with the union of computed polygons
         track.geometry = polygons
         if mask is not None:
-            track = gpd.clip(track, mask).reset_index(drop=True)
+            track = gpd.clip(track, mask).sort_index().reset_index(drop=True)
         if dissolve_orbits:
             track = track.dissolve()
         return track
@@ -778,5 +778,5 @@ def collect_ground_pixels(
         gdf["solar_az"] = list(map(lambda altaz: altaz[1].degrees, solar_altaz))
 
     if mask is not None:
-        gdf = gpd.clip(gdf, mask).reset_index(drop=True)
+        gdf = gpd.clip(gdf, mask).sort_index().reset_index(drop=True)
     return gdf
-- 
2.43.0


From 1e3308b67aa27bbd8ae4e2269bed84f8c047a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:19 +0000
Subject: [PATCH 55/57] fix: retain masked ground tracks for masks wider than
 180 degrees

---
 src/tatc/analysis/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 5523eff..86bb4be 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -328,7 +328,7 @@ def _buffer_mask(
             np.arcsin(np.sin(np.radians(theta)) / np.cos(np.radians(lat)))
         )
         scaling = 1 + delta_lon / theta
-        if lat + scaling * theta < 90 and max_lon - min_lon + 2 * scaling * theta < 360:
+        if lat + scaling * theta < 90 and max_lon - min_lon + 2 * scaling * theta < 180:
             return buffer_target(
                 geometry=geometry,
                 altitude=altitude,
-- 
2.43.0


From b27825bdcdde393954ee0692df542b4dd099ca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:29 +0000
Subject: [PATCH 56/57] fix: buffer targets wider than 180 degrees

---
 src/tatc/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 8fa968b..8fee895 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -753,11 +753,9 @@ def buffer_target(
     swath_width = field_of_regard_to_swath_width(altitude, field_of_regard)
     ground_distance = compute_ground_velocity(altitude, inclination) * time_step
     distance = (ground_distance + swath_width / 2) * distance_scaling
-    return split_polygon(
-        transform(
-            from_crs.transform, transform(to_crs.transform, geometry).buffer(distance)
-        )
-    )
+    # divide long edges (which would be read as the short way around the globe)
+    buffered = transform(to_crs.transform, geometry).buffer(distance).segmentize(1e7)
+    return split_polygon(transform(from_crs.transform, buffered))
 
 
 def project_polygon_to_elevation(
-- 
2.43.0


From c515c7fbceb840792486f33ce419666120d76f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:16 +0000
Subject: [PATCH 57/57] fix: normalize empty tables and tables with a named
 geometry column

---
 src/tatc/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 8fee895..2b41351 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1204,9 +1204,10 @@ def normalize_geometry(
     if isinstance(geometry, gpd.GeoDataFrame):
         # operate on a copy of the data frame
         geometry = geometry.copy()
-        geometry["geometry"] = geometry.apply(
-            lambda r: split_polygon(r.geometry),
-            axis=1,
+        geometry[geometry.geometry.name] = gpd.GeoSeries(
+            [split_polygon(g) for g in geometry.geometry],
+            index=geometry.index,
+            crs=geometry.crs,
         )
     return geometry
 
-- 
2.43.0

