From 0ddcef28d5a8a19676d87a716e058f1a73ea7c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:12 +0000
Subject: [PATCH 001/105] fix: make inertial_to_body the inverse of
 body_to_inertial

The third row of the transposed rotation used sin(roll) where cos(roll) is
needed, so a vector was not recovered after a body->inertial->body round trip.
---
 src/auv_nav/tools/inertial_to_body.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/tools/inertial_to_body.py b/src/auv_nav/tools/inertial_to_body.py
index a57bf22..5c9eb6b 100644
--- a/src/auv_nav/tools/inertial_to_body.py
+++ b/src/auv_nav/tools/inertial_to_body.py
@@ -45,7 +45,7 @@ def inertial_to_body(roll, pitch, yaw, old_x, old_y, old_z):
 
     # new_y = ((sy*cp)            * old_x   # d
     #       + ( cy*cr + sy*sp*sr) * old_y   # e
-    #       + (-cy*sr + sy*sp*sr) * old_z   # f
+    #       + (-cy*sr + sy*sp*cr) * old_z   # f
     # )
     # new_z = ((-sp  )           * old_x    # g
     #       + ( cp*sr)           * old_y    # h
@@ -67,7 +67,7 @@ def inertial_to_body(roll, pitch, yaw, old_x, old_y, old_z):
 
     new_z = (
         (sy * sr + cy * sp * cr) * old_x  # c
-        + (-cy * sr + sy * sp * sr) * old_y  # f
+        + (-cy * sr + sy * sp * cr) * old_y  # f
         + (cp * cr) * old_z  # i
     )
 
-- 
2.43.0


From 3595df187462782cec044fc3fba9284d4f7b4aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:42 +0000
Subject: [PATCH 002/105] fix: interpolate_camera ignored the first camera of
 the list

Queries between the first and the second entry were answered with the second
entry instead of interpolating between the two.
---
 src/auv_nav/tools/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/tools/interpolate.py b/src/auv_nav/tools/interpolate.py
index e62e609..62e9cba 100644
--- a/src/auv_nav/tools/interpolate.py
+++ b/src/auv_nav/tools/interpolate.py
@@ -142,7 +142,7 @@ def interpolate_camera(query_timestamp, camera_list, filename):
             break
     c1 = camera_list[i]
     c2 = camera_list[i]
-    if i > 1:
+    if i > 0:
         c1 = camera_list[i - 1]
 
     c = Camera()
-- 
2.43.0


From 13dd1853a134307815632224659ff19a3035909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:42 +0000
Subject: [PATCH 003/105] fix: interpolate_camera interpolated headings the
 long way around north

Between 359 and 1 degrees it returned a heading close to 180.
---
 src/auv_nav/tools/interpolate.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/tools/interpolate.py b/src/auv_nav/tools/interpolate.py
index 62e9cba..4a1eb44 100644
--- a/src/auv_nav/tools/interpolate.py
+++ b/src/auv_nav/tools/interpolate.py
@@ -197,9 +197,18 @@ def interpolate_camera(query_timestamp, camera_list, filename):
         c1.pitch,
         c2.pitch,
     )
+    yaw_1, yaw_2 = c1.yaw, c2.yaw
+    if abs(yaw_2 - yaw_1) > 180:
+        # Interpolate the short way around north
+        if yaw_2 > yaw_1:
+            yaw_2 -= 360
+        else:
+            yaw_1 -= 360
     c.yaw = interpolate(
-        query_timestamp, c1.epoch_timestamp, c2.epoch_timestamp, c1.yaw, c2.yaw
+        query_timestamp, c1.epoch_timestamp, c2.epoch_timestamp, yaw_1, yaw_2
     )
+    if c.yaw < 0 and min(c1.yaw, c2.yaw) >= 0:
+        c.yaw += 360
     c.x_velocity = interpolate(
         query_timestamp,
         c1.epoch_timestamp,
-- 
2.43.0


From 444a1f307ee95bfd6eb1abb7c182ce39d0f1f600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:42 +0000
Subject: [PATCH 004/105] fix: interpolate sensors between the track points
 that bracket them

interpolate_sensor_list extrapolated from the previous track segment for entries
in the last segment, used the last track point as predecessor of the first one,
dropped valid entries sharing the last segment and extrapolated one entry past
the end of the track.
---
 src/auv_nav/tools/interpolate.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/auv_nav/tools/interpolate.py b/src/auv_nav/tools/interpolate.py
index 4a1eb44..d897d27 100644
--- a/src/auv_nav/tools/interpolate.py
+++ b/src/auv_nav/tools/interpolate.py
@@ -359,7 +359,7 @@ def interpolate_sensor_list(
                     del sensor_list[:i]
                 break
         for i in range(len(sensor_list)):
-            if j >= len(_centre_list) - 1:
+            if sensor_list[i].epoch_timestamp > end_time:
                 ii = len(sensor_list) - i
                 if ii > 0:
                     Console.warn(
@@ -378,15 +378,12 @@ def interpolate_sensor_list(
                     del sensor_list[i:]
                 sensor_overlap_flag = 1
                 break
-            while _centre_list[j].epoch_timestamp < sensor_list[i].epoch_timestamp:
-                if (
-                    j + 1 > len(_centre_list) - 1
-                    or _centre_list[j + 1].epoch_timestamp
-                    > sensor_list[-1].epoch_timestamp
-                ):
-                    break
+            # Find the track points j - 1 and j on either side of the sensor entry
+            while j < len(_centre_list) - 1 and (
+                j == 0
+                or _centre_list[j].epoch_timestamp < sensor_list[i].epoch_timestamp
+            ):
                 j += 1
-            # if j>=1: ?
 
             sensor_list[i].roll = interpolate(
                 sensor_list[i].epoch_timestamp,
-- 
2.43.0


From 9026aa09b5f69b6f870358755029f423ee3836fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:43 +0000
Subject: [PATCH 005/105] fix: camera latitude/longitude are those of the
 camera, not of the vehicle origin

fromSyncedBodyVelocity applied the lever arm to northings/eastings but computed
the latitude/longitude from the vehicle position.
---
 src/auv_nav/sensors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index ffdafb6..2b485bc 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -1898,8 +1898,8 @@ class Camera(SyncedOrientationBodyVelocity):
         [self.latitude, self.longitude] = metres_to_latlon(
             latitude_reference,
             longitude_reference,
-            other.eastings,
-            other.northings,
+            self.eastings,
+            self.northings,
         )
 
         self.updated = True
-- 
2.43.0


From f08675d5f3529424bae4d1f51f071b55c1a9b7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:15 +0000
Subject: [PATCH 006/105] fix: Tide.from_json reads the keys that Tide exports

---
 src/auv_nav/sensors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 2b485bc..0be9d65 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -1546,10 +1546,10 @@ class Tide(OutputFormat):
     def from_json(self, json, sensor_std):
         self.epoch_timestamp = json["epoch_timestamp"]
         #        self.tide_timestamp = json['epoch_timestamp_tide']
-        self.height = json["data"][0]["tide"]
+        self.height = json["data"][0]["height"]
 
         if sensor_std["model"] == "sensor":
-            self.height_std = json["data"][0]["tide_std"]
+            self.height_std = json["data"][0]["height_std"]
         elif sensor_std["model"] == "linear":
             self.height_std = sensor_std["offset"] + sensor_std["factor"] * self.height
         else:
-- 
2.43.0


From 7fb4fb737e10a3a1dfec3933bf6f8d98d21183d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:42 +0000
Subject: [PATCH 007/105] fix: linear uncertainty model gave negative standard
 deviations for negative values

---
 src/auv_nav/sensors.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 0be9d65..6a58acb 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -377,23 +377,26 @@ class BodyVelocity(OutputFormat):
         elif sensor_std["model"] == "linear":
             if "offset_x" in sensor_std:
                 self.x_velocity_std = (
-                    sensor_std["offset_x"] + sensor_std["factor_x"] * self.x_velocity
+                    sensor_std["offset_x"]
+                    + sensor_std["factor_x"] * abs(self.x_velocity)
                 )
                 self.y_velocity_std = (
-                    sensor_std["offset_y"] + sensor_std["factor_y"] * self.y_velocity
+                    sensor_std["offset_y"]
+                    + sensor_std["factor_y"] * abs(self.y_velocity)
                 )
                 self.z_velocity_std = (
-                    sensor_std["offset_z"] + sensor_std["factor_z"] * self.z_velocity
+                    sensor_std["offset_z"]
+                    + sensor_std["factor_z"] * abs(self.z_velocity)
                 )
             else:
                 self.x_velocity_std = (
-                    sensor_std["offset"] + sensor_std["factor"] * self.x_velocity
+                    sensor_std["offset"] + sensor_std["factor"] * abs(self.x_velocity)
                 )
                 self.y_velocity_std = (
-                    sensor_std["offset"] + sensor_std["factor"] * self.y_velocity
+                    sensor_std["offset"] + sensor_std["factor"] * abs(self.y_velocity)
                 )
                 self.z_velocity_std = (
-                    sensor_std["offset"] + sensor_std["factor"] * self.z_velocity
+                    sensor_std["offset"] + sensor_std["factor"] * abs(self.z_velocity)
                 )
         else:
             Console.error("The STD model you entered for DVL is not supported.")
@@ -764,9 +767,9 @@ class Orientation(OutputFormat):
             self.pitch_std = json["data"][2]["pitch_std"]
             self.yaw_std = json["data"][0]["heading_std"]
         elif sensor_std["model"] == "linear":
-            self.roll_std = sensor_std["offset"] + sensor_std["factor"] * self.roll
-            self.pitch_std = sensor_std["offset"] + sensor_std["factor"] * self.pitch
-            self.yaw_std = sensor_std["offset"] + sensor_std["factor"] * self.yaw
+            self.roll_std = sensor_std["offset"] + sensor_std["factor"] * abs(self.roll)
+            self.pitch_std = sensor_std["offset"] + sensor_std["factor"] * abs(self.pitch)
+            self.yaw_std = sensor_std["offset"] + sensor_std["factor"] * abs(self.yaw)
         else:
             Console.error("The STD model you entered for Orientation is not supported.")
             Console.quit("STD model not supported.")
@@ -944,7 +947,7 @@ class Depth(OutputFormat):
         if sensor_std["model"] == "sensor":
             self.depth_std = json["data"][0]["depth_std"]
         elif sensor_std["model"] == "linear":
-            self.depth_std = sensor_std["offset"] + sensor_std["factor"] * self.depth
+            self.depth_std = sensor_std["offset"] + sensor_std["factor"] * abs(self.depth)
         else:
             Console.error("The STD model you entered for Depth is not supported.")
             Console.quit("STD model not supported.")
@@ -1551,7 +1554,7 @@ class Tide(OutputFormat):
         if sensor_std["model"] == "sensor":
             self.height_std = json["data"][0]["height_std"]
         elif sensor_std["model"] == "linear":
-            self.height_std = sensor_std["offset"] + sensor_std["factor"] * self.height
+            self.height_std = sensor_std["offset"] + sensor_std["factor"] * abs(self.height)
         else:
             Console.error("The STD model you entered for TIDE is not supported.")
             Console.quit("STD model not supported.")
-- 
2.43.0


From 8854ed14a21c2c907e1306c873f9b5e80566c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:42 +0000
Subject: [PATCH 008/105] fix: PHINS vertical velocity standard deviation was
 stored negative

---
 src/auv_nav/sensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 6a58acb..4f2af89 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -534,7 +534,7 @@ class InertialVelocity(OutputFormat):
             # phins convention is up +ve
             self.east_velocity_std = float(line[2])
             self.north_velocity_std = float(line[3])
-            self.down_velocity_std = -1 * float(line[4])
+            self.down_velocity_std = float(line[4])
 
     def from_json(self, json):
         self.epoch_timestamp = json["epoch_timestamp"]
-- 
2.43.0


From 0b400322f29999749359cdd9516a61a3fe26f620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:55 +0000
Subject: [PATCH 009/105] fix: interlace measurements in numerical, not
 lexicographical, time order

---
 src/auv_nav/parsers/parse_interlacer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_interlacer.py b/src/auv_nav/parsers/parse_interlacer.py
index b6e6b34..786245d 100644
--- a/src/auv_nav/parsers/parse_interlacer.py
+++ b/src/auv_nav/parsers/parse_interlacer.py
@@ -31,7 +31,7 @@ def parse_interlacer(outpath, filename):
         with filepath.open("r") as json_file:
             data = json.load(json_file)
             for i, data_packet in enumerate(data):
-                value.append(str(float(data_packet["epoch_timestamp"])))
+                value.append(float(data_packet["epoch_timestamp"]))
 
     except ValueError:
         Console.quit("Error: no data in JSON file")
-- 
2.43.0


From 57b4ad5d611063292655f7eae19238fef95da451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:56 +0000
Subject: [PATCH 010/105] fix: rosbag parser counted the timezone twice, once
 as minutes

---
 src/auv_nav/parsers/parse_rosbag.py | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/auv_nav/parsers/parse_rosbag.py b/src/auv_nav/parsers/parse_rosbag.py
index 741a6c3..6eaa793 100644
--- a/src/auv_nav/parsers/parse_rosbag.py
+++ b/src/auv_nav/parsers/parse_rosbag.py
@@ -18,7 +18,6 @@ from auv_nav.sensors import (
     Orientation,
     Usbl,
 )
-from auv_nav.tools.time_conversions import read_timezone
 from oplab import Console
 from oplab.folder_structure import get_raw_folder
 
@@ -146,27 +145,17 @@ def parse_rosbag(mission, vehicle, category, output_format, outpath):
     altitude.sensor_string = "rosbag"
     usbl.sensor_string = "rosbag"
 
-    # Adjust timezone offsets,
-    body_velocity.tz_offset_s = (
-        read_timezone(mission.velocity.timezone) *60 + mission.velocity.offset_s
-    )
-    orientation.tz_offset_s = (
-        read_timezone(mission.orientation.timezone) *60 + mission.orientation.offset_s
-    )
-    depth.tz_offset_s = (
-        read_timezone(mission.depth.timezone) *60 + mission.depth.offset_s
-    )
-    altitude.tz_offset_s = (
-        read_timezone(mission.altitude.timezone) *60 + mission.altitude.offset_s
-    )
-    usbl.tz_offset_s = read_timezone(mission.usbl.timezone) *60+ mission.usbl.offset_s
+    # Adjust timezone offsets (offset_s includes the timezone, in seconds)
+    body_velocity.tz_offset_s = mission.velocity.offset_s
+    orientation.tz_offset_s = mission.orientation.offset_s
+    depth.tz_offset_s = mission.depth.offset_s
+    altitude.tz_offset_s = mission.altitude.offset_s
+    usbl.tz_offset_s = mission.usbl.offset_s
 
     if len(mission.image.cameras) > 0:
         camera = Camera()
         camera.sensor_string = mission.image.cameras[0].name
-        camera.tz_offset_s = (
-            read_timezone(mission.image.timezone) *60 + mission.image.offset_s
-        )
+        camera.tz_offset_s = mission.image.offset_s
 
     data_list = []
 
-- 
2.43.0


From 8584617c501c6c3224d450d45141a21755c97081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:56 +0000
Subject: [PATCH 011/105] fix: bag image loader used a missing attribute for
 its time offset

---
 src/correct_images/corrector.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index c9dcde2..18bdb74 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -19,7 +19,6 @@ from matplotlib import pyplot as plt
 from tqdm import tqdm, trange
 
 # fmt: off
-from auv_nav.tools.time_conversions import read_timezone
 from correct_images import corrections
 from correct_images.loaders import depth_map, loader
 from correct_images.tools.file_handlers import trim_csv_files, write_output_image
@@ -268,11 +267,7 @@ class Corrector:
             self.loader.set_loader("xviii")
         elif self.camera.extension == "bag":
             self.loader.set_loader("rosbag")
-            tz_offset_s = (
-                read_timezone(self.mission.image.timezone) * 60
-                + self.mission.image.timeoffset
-            )
-            self.loader.tz_offset_s = tz_offset_s
+            self.loader.tz_offset_s = self.mission.image.offset_s
         else:
             self.loader.set_loader("default")
 
-- 
2.43.0


From 9ee3ca54c5363152e93a18470185111fde760b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:56 +0000
Subject: [PATCH 012/105] fix: CET is one hour ahead of UTC

---
 src/auv_nav/tools/time_conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/tools/time_conversions.py b/src/auv_nav/tools/time_conversions.py
index 9827b7e..3d3218b 100644
--- a/src/auv_nav/tools/time_conversions.py
+++ b/src/auv_nav/tools/time_conversions.py
@@ -84,7 +84,7 @@ def read_timezone(timezone):
         if timezone == "utc" or timezone == "UTC":
             timezone_offset_h = 0.0
         elif timezone == "cet" or timezone == "CET":
-            timezone_offset_h = 0.0
+            timezone_offset_h = 1.0
         elif timezone == "jst" or timezone == "JST":
             timezone_offset_h = 9.0
         elif timezone == "bst" or timezone == "BST":
-- 
2.43.0


From b14fe06904b69ee0110f68719977602468b0c5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:47 +0000
Subject: [PATCH 013/105] fix: angular speed at the last of two orientation
 measurements

---
 src/auv_nav/tools/dvl_level_arm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/tools/dvl_level_arm.py b/src/auv_nav/tools/dvl_level_arm.py
index f086f39..03f472b 100644
--- a/src/auv_nav/tools/dvl_level_arm.py
+++ b/src/auv_nav/tools/dvl_level_arm.py
@@ -44,7 +44,7 @@ def compute_angular_speeds(orientation_vec, i):
     if i >= 1 and i < len(orientation_vec) - 1:
         o1 = orientation_vec[i - 1]
         o2 = orientation_vec[i + 1]
-    elif i > 1 and i == len(orientation_vec) - 1:
+    elif i >= 1 and i == len(orientation_vec) - 1:
         o1 = orientation_vec[i - 1]
         o2 = orientation_vec[i]
     elif i == 0:
-- 
2.43.0


From 7af7e1290f7859b599f396a62df4eda6c80bc94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:20 +0000
Subject: [PATCH 014/105] fix: depth and altitude before the first measurement
 hold the first one

---
 src/auv_nav/process.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 632374e..2abb508 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -899,11 +899,12 @@ def process(
             and orientation_list[i].epoch_timestamp > altitude_list[n].epoch_timestamp
         ):
             n += 1
+        # before the first altitude measurement, hold the first one
         dead_reckoning_dvl.altitude = interpolate(
             orientation_list[i].epoch_timestamp,
-            altitude_list[n - 1].epoch_timestamp,
+            altitude_list[max(n - 1, 0)].epoch_timestamp,
             altitude_list[n].epoch_timestamp,
-            altitude_list[n - 1].altitude,
+            altitude_list[max(n - 1, 0)].altitude,
             altitude_list[n].altitude,
         )
 
@@ -915,16 +916,16 @@ def process(
         # interpolate to find the appropriate depth for dead_reckoning
         dead_reckoning_dvl.depth = interpolate(
             orientation_list[i].epoch_timestamp,
-            depth_list[k - 1].epoch_timestamp,
+            depth_list[max(k - 1, 0)].epoch_timestamp,
             depth_list[k].epoch_timestamp,
-            depth_list[k - 1].depth,
+            depth_list[max(k - 1, 0)].depth,
             depth_list[k].depth,
         )
         dead_reckoning_dvl.depth_std = interpolate(
             orientation_list[i].epoch_timestamp,
-            depth_list[k - 1].epoch_timestamp,
+            depth_list[max(k - 1, 0)].epoch_timestamp,
             depth_list[k].epoch_timestamp,
-            depth_list[k - 1].depth_std,
+            depth_list[max(k - 1, 0)].depth_std,
             depth_list[k].depth_std,
         )
         dead_reckoning_dvl_list.append(dead_reckoning_dvl)
-- 
2.43.0


From 29176e1bd6be5e6a4c827450f3f2f31f5b6cad4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:36 +0000
Subject: [PATCH 015/105] fix: particle filter track at the DVL kept no
 latitude and a tuple as longitude

---
 src/auv_nav/process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 2abb508..fa8927a 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1187,13 +1187,14 @@ def process(
         )
         pf_fusion_centre_list = copy.deepcopy(pf_fusion_dvl_list)
         for i in range(len(pf_fusion_centre_list)):
-            pf_fusion_dvl_list[i].latitude,
-            pf_fusion_dvl_list[i].longitude = metres_to_latlon(
+            lat, lon = metres_to_latlon(
                 mission.origin.latitude,
                 mission.origin.longitude,
                 pf_fusion_dvl_list[i].eastings,
                 pf_fusion_dvl_list[i].northings,
             )
+            pf_fusion_dvl_list[i].latitude = lat
+            pf_fusion_dvl_list[i].longitude = lon
             [x_offset, y_offset, z_offset] = body_to_inertial(
                 pf_fusion_centre_list[i].roll,
                 pf_fusion_centre_list[i].pitch,
-- 
2.43.0


From 6960e4b97cb5834afe7fb89e1161db73acc4d9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:23 +0000
Subject: [PATCH 016/105] fix: EKF noise models took the sign of the angle or
 depth into the standard deviation

---
 src/auv_nav/localisation/ekf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index 018464f..bb09cc8 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -231,7 +231,7 @@ class Measurement(object):
             depth_std_factor = self.sensors_std["position_z"]["factor"]
             depth_std_offset = self.sensors_std["position_z"]["offset"]
             self.covariance[Index.Z, Index.Z] = (
-                value.depth * depth_std_factor + depth_std_offset
+                abs(value.depth) * depth_std_factor + depth_std_offset
             ) ** 2
         warn_if_zero(self.covariance[Index.Z, Index.Z], "Z Covariance")
         # print('Depth cov:', self.covariance[Index.Z, Index.Z])
@@ -335,17 +335,17 @@ class Measurement(object):
             imu_noise_std_offset = self.sensors_std["orientation"]["offset"]
             imu_noise_std_factor = self.sensors_std["orientation"]["factor"]
             self.covariance[Index.ROLL, Index.ROLL] = (
-                (imu_noise_std_offset + value.roll * imu_noise_std_factor)
+                (imu_noise_std_offset + abs(value.roll) * imu_noise_std_factor)
                 * math.pi
                 / 180.0
             ) ** 2
             self.covariance[Index.PITCH, Index.PITCH] = (
-                (imu_noise_std_offset + value.pitch * imu_noise_std_factor)
+                (imu_noise_std_offset + abs(value.pitch) * imu_noise_std_factor)
                 * math.pi
                 / 180.0
             ) ** 2
             self.covariance[Index.YAW, Index.YAW] = (
-                (imu_noise_std_offset + value.yaw * imu_noise_std_factor)
+                (imu_noise_std_offset + abs(value.yaw) * imu_noise_std_factor)
                 * math.pi
                 / 180.0
             ) ** 2
-- 
2.43.0


From 8fee65a4f2bc3ba8ad4c3e99e678d3dc43b8cad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:22 +0000
Subject: [PATCH 017/105] fix: altitude of the EKF track at the vehicle centre
 was that of the DVL

---
 src/auv_nav/localisation/ekf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index bb09cc8..6e8517b 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -1117,6 +1117,8 @@ def save_ekf_to_list(
             dead_reckoning_dvl_list[dr_idx - 1].altitude,
             dead_reckoning_dvl_list[dr_idx].altitude,
         )
+        if shift_to_origin:
+            b.altitude -= z_offset
         ekf_list.append(b)
     return ekf_list
 
-- 
2.43.0


From 7e37b74279ad3cd5456cbc27d8114f2d9c60357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:20 +0000
Subject: [PATCH 018/105] fix: SLAM++ export changed the camera poses while
 they were being written to csv

---
 src/auv_nav/process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index fa8927a..d226ab8 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -2031,6 +2031,10 @@ def process(
             t.start()
             threads.append(t)
     if spp_output_activate and ekf_activate:
+        # The threads started above may still be writing the absolute poses
+        camera1_ekf_list = copy.deepcopy(camera1_ekf_list)
+        camera2_ekf_list = copy.deepcopy(camera2_ekf_list)
+        camera3_ekf_list = copy.deepcopy(camera3_ekf_list)
         Console.info("Converting covariance matrices into information matrices...")
         for i in range(len(camera1_ekf_list)):
             camera1_ekf_list[i].get_info()
-- 
2.43.0


From 97c4c42112c83971a65fdb77deeee556901be64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:06 +0000
Subject: [PATCH 019/105] fix: exporting an invalid tide or camera reading
 raised AttributeError

---
 src/auv_nav/sensors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 4f2af89..b9acab1 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -1537,6 +1537,7 @@ class Tide(OutputFormat):
         self.ts = ts
         self.height_std_factor = height_std_factor
         self.sensor_string = "unknown"
+        self.category = Category.TIDE
         self.clear()
 
     def clear(self):
@@ -1838,6 +1839,7 @@ class SyncedOrientationBodyVelocity(OutputFormat):
 class Camera(SyncedOrientationBodyVelocity):
     def __init__(self):
         super().__init__()
+        self.category = Category.IMAGES
         self.filename = ""
         self.information = None
         self.updated = False
-- 
2.43.0


From 8be36cfde4c22a51f5e548418188c8037e05399e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:36 +0000
Subject: [PATCH 020/105] fix: depth between the last two tide records was not
 corrected for the tide

---
 src/auv_nav/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index e2549bc..c6418dc 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -713,7 +713,7 @@ def parse_single(filepath, force_overwrite):
                 j = 0
                 for k in range(len(results)):
                     while (
-                        j < len(tide_list)-2
+                        j < len(tide_list) - 1
                         and tide_list[j]["epoch_timestamp"]
                         < results[k]["epoch_timestamp"]
                     ):
-- 
2.43.0


From 4f793d090c7a229f96c577bee1c7dcec767abdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:36 +0000
Subject: [PATCH 021/105] fix: merging dives failed as the configuration files
 are not in the processed folder

---
 src/auv_nav/parse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index c6418dc..02105fb 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -155,15 +155,15 @@ def parse(filepath, force_overwrite, merge):
 
         # copy mission.yaml and vehicle.yaml to processed folder for
         # process step
-        mission_processed = get_processed_folder(filepath[0]) / "mission.yaml"
-        vehicle_processed = get_processed_folder(filepath[0]) / "vehicle.yaml"
-        camera_processed = get_processed_folder(filepath[0]) / "camera.yaml"
+        mission_raw = get_raw_folder(filepath[0]) / "mission.yaml"
+        vehicle_raw = get_raw_folder(filepath[0]) / "vehicle.yaml"
+        camera_raw = get_raw_folder(filepath[0]) / "camera.yaml"
         mission_merged = processed_path / foldername / "mission.yaml"
         vehicle_merged = processed_path / foldername / "vehicle.yaml"
         camera_merged = processed_path / foldername / "camera.yaml"
-        mission_processed.copy(mission_merged)
-        vehicle_processed.copy(vehicle_merged)
-        camera_processed.copy(camera_merged)
+        mission_raw.copy(mission_merged)
+        vehicle_raw.copy(vehicle_merged)
+        camera_raw.copy(camera_merged)
 
         # interlace the data based on timestamps
         Console.info("Interlacing merged data...")
-- 
2.43.0


From 4abf6f0cde4cf79179fd38d21bf59aedb5d3f8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:39 +0000
Subject: [PATCH 022/105] fix: tide parsers stored negative standard deviations
 for low tides

---
 src/auv_nav/parsers/parse_NOC_polpred.py | 2 +-
 src/auv_nav/parsers/parse_tide_CTI.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_NOC_polpred.py b/src/auv_nav/parsers/parse_NOC_polpred.py
index 943a1a1..f6642fb 100644
--- a/src/auv_nav/parsers/parse_NOC_polpred.py
+++ b/src/auv_nav/parsers/parse_NOC_polpred.py
@@ -60,7 +60,7 @@ def parse_NOC_polpred(mission, vehicle, category, ftype, outpath):
                     epoch_timestamp = epoch_time + msec / 1000 + timeoffset
                     tide.epoch_timestamp = epoch_timestamp
                     tide.height = float(line[22:28])
-                    tide.height_std = tide.height * tide.height_std_factor
+                    tide.height_std = abs(tide.height) * tide.height_std_factor
 
                     data = tide.export(output_format)
                     data_list.append(data)
diff --git a/src/auv_nav/parsers/parse_tide_CTI.py b/src/auv_nav/parsers/parse_tide_CTI.py
index 38aa1c5..5155368 100644
--- a/src/auv_nav/parsers/parse_tide_CTI.py
+++ b/src/auv_nav/parsers/parse_tide_CTI.py
@@ -74,7 +74,7 @@ def parse_tide_CTI(mission, vehicle, category, ftype, outpath):
                     _ini = line.find(",") + 1
                     _end = line.find(",", _ini)
                     tide.height = float(line[_ini:_end])
-                    tide.height_std = tide.height * tide.height_std_factor
+                    tide.height_std = abs(tide.height) * tide.height_std_factor
 
                     data = tide.export(output_format)
                     data_list.append(data)
-- 
2.43.0


From 06cc9b913c0baada16a1cf52e3da0164b2be085f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:13 +0000
Subject: [PATCH 023/105] fix: BodyVelocity.apply_offset rotated standard
 deviations also when told not to

---
 src/auv_nav/sensors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index b9acab1..8ae3aa9 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -260,6 +260,8 @@ class BodyVelocity(OutputFormat):
             self.y_velocity,
             self.z_velocity,
         )
+        if not with_std:
+            return
         [
             self.x_velocity_std,
             self.y_velocity_std,
-- 
2.43.0


From a441c3a395fa3478c889e80441a3c21cd3880305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:13 +0000
Subject: [PATCH 024/105] fix: standard deviations of GPS fixes were variances

---
 src/auv_nav/sensors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 8ae3aa9..196a300 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -1254,9 +1254,9 @@ class Usbl(OutputFormat):
 
                 self.fill_from_lat_lon_depth()
 
-                self.eastings_std = msg.position_covariance[0]
-                self.northings_std = msg.position_covariance[4]
-                self.depth_std = msg.position_covariance[8]
+                self.eastings_std = np.sqrt(msg.position_covariance[0])
+                self.northings_std = np.sqrt(msg.position_covariance[4])
+                self.depth_std = np.sqrt(msg.position_covariance[8])
         elif msg_type == "evologics_ros_sync/EvologicsUsbllong":
             self.northings = msg.N
             self.eastings = msg.E
-- 
2.43.0


From 5421c2c09ec061fa4c3cbd83cad0ae1f16299f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:13 +0000
Subject: [PATCH 025/105] fix: latitude and longitude std of ROS USBL fixes
 were absolute coordinates

---
 src/auv_nav/sensors.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 196a300..b55a076 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -1232,12 +1232,14 @@ class Usbl(OutputFormat):
                 self.northings,
             )
             # Transform STD in meters to degrees
-            self.latitude_std, self.longitude_std = metres_to_latlon(
-                self.latitude_reference,
-                self.longitude_reference,
+            latitude_plus_std, longitude_plus_std = metres_to_latlon(
+                self.latitude,
+                self.longitude,
                 self.eastings_std,
                 self.northings_std,
             )
+            self.latitude_std = abs(latitude_plus_std - self.latitude)
+            self.longitude_std = abs(longitude_plus_std - self.longitude)
 
             if msg.header.frame_id == "sparus2/modem":
                 # Handle special case for UdG, message is (lat, lon, -z)
-- 
2.43.0


From feb913f41bb0d8c6ecdeb838fde0945906e1bd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:13 +0000
Subject: [PATCH 026/105] fix: depth std from pressure variance had the wrong
 unit

---
 src/auv_nav/sensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index b55a076..88d2504 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -875,7 +875,7 @@ class Depth(OutputFormat):
         if msg_type == "sensor_msgs/FluidPressure":
             # TODO: is this an expected density value?
             self.depth = msg.fluid_pressure / (1030 * 9.80665)
-            self.depth_std = np.sqrt(msg.variance / (1030 * 9.80665))
+            self.depth_std = np.sqrt(msg.variance) / (1030 * 9.80665)
         elif msg_type == "geometry_msgs/PoseWithCovarianceStamped":
             self.depth = msg.pose.pose.position.z
             self.depth_std = np.sqrt(msg.pose.covariance[14])
-- 
2.43.0


From 7aa2d06688b2f1eae434d3566e382417b252bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:13 +0000
Subject: [PATCH 027/105] fix: depths above the reference gave negative
 standard deviations

---
 src/auv_nav/sensors.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 88d2504..82b9938 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -887,7 +887,7 @@ class Depth(OutputFormat):
         self.epoch_timestamp = ros_stamp_to_epoch(msg.header.stamp) - self.tz_offset_s
         self.depth_timestamp = self.epoch_timestamp
         if self.depth_std == 0:
-            self.depth_std = self.depth * self.depth_std_factor
+            self.depth_std = abs(self.depth) * self.depth_std_factor
 
     def from_eiva_navipac(self, line):
         self.sensor_string = "eiva_navipac"
@@ -900,30 +900,30 @@ class Depth(OutputFormat):
             self.epoch_timestamp = None
             return
         self.depth = float(parts[5])
-        self.depth_std = self.depth * self.depth_std_factor
+        self.depth_std = abs(self.depth) * self.depth_std_factor
 
     def from_alr(self, t, d):
         self.epoch_timestamp = t
         self.depth_timestamp = self.epoch_timestamp
         self.depth = d
-        self.depth_std = self.depth * self.depth_std_factor
+        self.depth_std = abs(self.depth) * self.depth_std_factor
 
     def from_koyo21rov(self, t, d):
         self.epoch_timestamp = t
         self.depth_timestamp = self.epoch_timestamp
         self.depth = d
-        self.depth_std = self.depth * self.depth_std_factor
+        self.depth_std = abs(self.depth) * self.depth_std_factor
 
     def from_autosub(self, data, i):
         self.epoch_timestamp = data["eTime"][i]
         self.depth_timestamp = self.epoch_timestamp
         self.depth = data["DepCtldepth"][i]
-        self.depth_std = self.depth * self.depth_std_factor
+        self.depth_std = abs(self.depth) * self.depth_std_factor
 
     def from_phins(self, line):
         self.sensor_string = "phins"
         self.depth = float(line[2])
-        self.depth_std = self.depth * self.depth_std_factor
+        self.depth_std = abs(self.depth) * self.depth_std_factor
         time_string = str(line[3])
         hour = int(time_string[0:2])
         mins = int(time_string[2:4])
@@ -1218,11 +1218,11 @@ class Usbl(OutputFormat):
             self.depth_std = np.sqrt(msg.pose.covariance[14])
 
             if self.eastings_std == 0:
-                self.eastings_std = self.std_factor * self.depth + self.std_offset
+                self.eastings_std = self.std_factor * abs(self.depth) + self.std_offset
             if self.northings_std == 0:
-                self.northings_std = self.std_factor * self.depth + self.std_offset
+                self.northings_std = self.std_factor * abs(self.depth) + self.std_offset
             if self.depth_std == 0:
-                self.depth_std = self.std_factor * self.depth + self.std_offset
+                self.depth_std = self.std_factor * abs(self.depth) + self.std_offset
 
             # Convert to lat lon from the reference
             self.latitude, self.longitude = metres_to_latlon(
@@ -1324,9 +1324,9 @@ class Usbl(OutputFormat):
         self.distance_to_ship = -1.0
         self.eastings = sin(bearing * pi / 180.0) * lateral_distance
         self.northings = cos(bearing * pi / 180.0) * lateral_distance
-        self.eastings_std = self.std_factor * self.depth + self.std_offset
-        self.northings_std = self.std_factor * self.depth + self.std_offset
-        self.depth_std = self.std_factor * self.depth + self.std_offset
+        self.eastings_std = self.std_factor * abs(self.depth) + self.std_offset
+        self.northings_std = self.std_factor * abs(self.depth) + self.std_offset
+        self.depth_std = self.std_factor * abs(self.depth) + self.std_offset
         # If your displacements aren't too great (less than a few kilometers)
         # and you're not right at the poles, use the quick and dirty estimate
         # that 111,111 meters (111.111 km) in the y direction is 1 degree (of
@@ -1353,9 +1353,9 @@ class Usbl(OutputFormat):
         self.distance_to_ship = -1.0
         self.eastings = sin(bearing * pi / 180.0) * lateral_distance
         self.northings = cos(bearing * pi / 180.0) * lateral_distance
-        self.eastings_std = self.std_factor * self.depth + self.std_offset
-        self.northings_std = self.std_factor * self.depth + self.std_offset
-        self.depth_std = self.std_factor * self.depth + self.std_offset
+        self.eastings_std = self.std_factor * abs(self.depth) + self.std_offset
+        self.northings_std = self.std_factor * abs(self.depth) + self.std_offset
+        self.depth_std = self.std_factor * abs(self.depth) + self.std_offset
         # If your displacements aren't too great (less than a few kilometers)
         # and you're not right at the poles, use the quick and dirty estimate
         # that 111,111 meters (111.111 km) in the y direction is 1 degree (of
-- 
2.43.0


From 632f5126ebb692e3e9d86b18e5925937e63bf9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:13 +0000
Subject: [PATCH 028/105] fix: Autosub error velocity is signed, its standard
 deviation is not

---
 src/auv_nav/sensors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 82b9938..d552960 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -186,9 +186,9 @@ class BodyVelocity(OutputFormat):
         self.x_velocity = -data["Vnorth0"][i] * 0.001  # Relative to seabed
         self.y_velocity = -data["Veast0"][i] * 0.001
         self.z_velocity = -data["Vdown0"][i] * 0.001
-        self.x_velocity_std = data["Verr0"][i] * 0.001
-        self.y_velocity_std = data["Verr0"][i] * 0.001
-        self.z_velocity_std = data["Verr0"][i] * 0.001
+        self.x_velocity_std = abs(data["Verr0"][i]) * 0.001
+        self.y_velocity_std = abs(data["Verr0"][i]) * 0.001
+        self.z_velocity_std = abs(data["Verr0"][i]) * 0.001
 
     def from_koyo21rov(self, t, surge, heave):
         self.sensor_string = "koyo21rov"
-- 
2.43.0


From 75bf8ed5b7d26541a532b7b6313f4408f1e81cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:13 +0000
Subject: [PATCH 029/105] fix: heading offset gave negative roll and pitch
 standard deviations

---
 src/auv_nav/sensors.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index d552960..5f6710d 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -643,15 +643,14 @@ class Orientation(OutputFormat):
                 self.yaw = self.yaw + 360
 
     def apply_std_offset(self):
-        # account for sensor rotational offset
-        [self.roll_std, self.pitch_std, self.heading_std] = body_to_inertial(
-            0,
-            0,
-            self.yaw_offset,
-            self.roll_std,
-            self.pitch_std,
-            self.yaw_std,
-        )
+        # account for sensor rotational offset: variances are rotated, so that
+        # standard deviations stay positive
+        c = cos(self.yaw_offset * pi / 180.0)
+        s = sin(self.yaw_offset * pi / 180.0)
+        roll_var = self.roll_std**2
+        pitch_var = self.pitch_std**2
+        self.roll_std = sqrt(c**2 * roll_var + s**2 * pitch_var)
+        self.pitch_std = sqrt(s**2 * roll_var + c**2 * pitch_var)
 
     def from_eiva_navipac(self, line):
         self.sensor_string = "eiva_navipac"
-- 
2.43.0


From fd9634f1d738dc04bbcf61f5bbd1b78ed8e7f978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:13 +0000
Subject: [PATCH 030/105] fix: latitude and longitude std of NMEA fixes were
 computed from the depth

---
 src/auv_nav/sensors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 5f6710d..b55cb2c 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -1360,8 +1360,10 @@ class Usbl(OutputFormat):
         # that 111,111 meters (111.111 km) in the y direction is 1 degree (of
         # latitude) and 111,111 * cos(latitude) meters in the x direction is
         # 1 degree (of longitude).
-        self.latitude_std = self.depth / 111.111e3
-        self.longitude_std = self.latitude_std * cos(self.latitude * pi / 180.0)
+        self.latitude_std = self.northings_std / 111.111e3
+        self.longitude_std = self.eastings_std / (
+            111.111e3 * cos(self.latitude * pi / 180.0)
+        )
 
     def from_json(self, json, sensor_std):
         self.epoch_timestamp = json["epoch_timestamp"]
-- 
2.43.0


From 97728790acb7cb600fabb77cd56ee7b68b8ebd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:13 +0000
Subject: [PATCH 031/105] fix: NTNU and EIVA times depended on the timezone of
 the computer

---
 src/auv_nav/sensors.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index b55cb2c..f63d0b9 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -227,7 +227,9 @@ class BodyVelocity(OutputFormat):
         date_obj = datetime.datetime.strptime(filename[0:8], "%Y%m%d")
         time_obj = datetime.datetime.strptime(line["time"], "%H:%M:%S.%f")
         date_time_obj = datetime.datetime.combine(date_obj, time_obj.time())
-        self.epoch_timestamp = date_time_obj.timestamp()
+        self.epoch_timestamp = date_time_obj.replace(
+            tzinfo=datetime.timezone.utc
+        ).timestamp()
         self.epoch_timestamp_dvl = self.epoch_timestamp
         vx = float(line["u_dvl"])
         vy = float(line["v_dvl"])
@@ -656,7 +658,9 @@ class Orientation(OutputFormat):
         self.sensor_string = "eiva_navipac"
         parts = line.split()
         date_time_obj = datetime.datetime.strptime(parts[2], "%Y:%m:%d:%H:%M:%S.%f")
-        self.epoch_timestamp = date_time_obj.timestamp()
+        self.epoch_timestamp = date_time_obj.replace(
+            tzinfo=datetime.timezone.utc
+        ).timestamp()
         if self.epoch_timestamp == 0:
             # Invalid timestamp
             self.epoch_timestamp = None
@@ -892,7 +896,9 @@ class Depth(OutputFormat):
         self.sensor_string = "eiva_navipac"
         parts = line.split()
         date_time_obj = datetime.datetime.strptime(parts[4], "%Y:%m:%d:%H:%M:%S.%f")
-        self.epoch_timestamp = date_time_obj.timestamp()
+        self.epoch_timestamp = date_time_obj.replace(
+            tzinfo=datetime.timezone.utc
+        ).timestamp()
         self.depth_timestamp = self.epoch_timestamp
         if self.epoch_timestamp == 0:
             # Invalid timestamp
@@ -1044,7 +1050,9 @@ class Altitude(OutputFormat):
         date_obj = datetime.datetime.strptime(filename[0:8], "%Y%m%d")
         time_obj = datetime.datetime.strptime(row["time"], "%H:%M:%S.%f")
         date_time_obj = datetime.datetime.combine(date_obj, time_obj.time())
-        self.epoch_timestamp = date_time_obj.timestamp()
+        self.epoch_timestamp = date_time_obj.replace(
+            tzinfo=datetime.timezone.utc
+        ).timestamp()
         self.altitude_timestamp = self.epoch_timestamp
         # alt0 = float(row["dvl_alt0"])  # fore
         alt1 = float(row["dvl_alt1"])  # left
@@ -1279,7 +1287,9 @@ class Usbl(OutputFormat):
         self.sensor_string = "eiva_navipac"
         parts = line.split()
         date_time_obj = datetime.datetime.strptime(parts[3], "%Y:%m:%d:%H:%M:%S.%f")
-        self.epoch_timestamp = date_time_obj.timestamp()
+        self.epoch_timestamp = date_time_obj.replace(
+            tzinfo=datetime.timezone.utc
+        ).timestamp()
         if self.epoch_timestamp == 0:
             # Invalid timestamp
             self.epoch_timestamp = None
-- 
2.43.0


From 1330ae7c85f82b1de3b3f4460b1ac0de67654fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:13 +0000
Subject: [PATCH 032/105] fix: RDI attitude was stored in radians instead of
 degrees

---
 src/auv_nav/parsers/parse_rdi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/parse_rdi.py b/src/auv_nav/parsers/parse_rdi.py
index b4108b3..0258232 100644
--- a/src/auv_nav/parsers/parse_rdi.py
+++ b/src/auv_nav/parsers/parse_rdi.py
@@ -67,9 +67,9 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
             # Lines start with TS, BI, BS, BE, BD, SA
             parts = line.split(",")
             if parts[0] == ":SA" and len(parts) == 4:
-                ot.roll = math.radians(float(parts[2]))
-                ot.pitch = math.radians(float(parts[1]))
-                ot.yaw = math.radians(float(parts[3]))
+                ot.roll = float(parts[2])
+                ot.pitch = float(parts[1])
+                ot.yaw = float(parts[3])
             elif parts[0] == ":TS" and len(parts) == 7:
                 # Every time a new TimeStamp is received, send the previous
                 # data packet
-- 
2.43.0


From ce701691b04b3b0745ed2d829f6a1fcf3bd5e2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:13 +0000
Subject: [PATCH 033/105] fix: RDI velocities were rotated by the heading
 offset taken as radians

---
 src/auv_nav/parsers/parse_rdi.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parsers/parse_rdi.py b/src/auv_nav/parsers/parse_rdi.py
index 0258232..1335b34 100644
--- a/src/auv_nav/parsers/parse_rdi.py
+++ b/src/auv_nav/parsers/parse_rdi.py
@@ -120,12 +120,9 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
                     altitude_valid = True
                     x = float(parts[1]) * 0.001
                     y = float(parts[2]) * 0.001
-                    bv.x_velocity = x * math.cos(headingoffset) - y * math.sin(
-                        headingoffset
-                    )
-                    bv.y_velocity = x * math.sin(headingoffset) + y * math.cos(
-                        headingoffset
-                    )
+                    yaw_offset = math.radians(headingoffset)
+                    bv.x_velocity = x * math.cos(yaw_offset) - y * math.sin(yaw_offset)
+                    bv.y_velocity = x * math.sin(yaw_offset) + y * math.cos(yaw_offset)
                     bv.z_velocity = float(parts[3]) * 0.001
                     bv.x_velocity_std = float(parts[4]) * 0.001
                     bv.y_velocity_std = float(parts[4]) * 0.001
-- 
2.43.0


From 41a6c5cbed18b2a6bf4622570bb0f87b4273fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:13 +0000
Subject: [PATCH 034/105] fix: RDI parser added the timezone instead of
 subtracting it

---
 src/auv_nav/parsers/parse_rdi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/parse_rdi.py b/src/auv_nav/parsers/parse_rdi.py
index 1335b34..8dce522 100644
--- a/src/auv_nav/parsers/parse_rdi.py
+++ b/src/auv_nav/parsers/parse_rdi.py
@@ -47,16 +47,16 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
         Console.info("... parsing RDI velocity")
         filename = mission.velocity.filename
         filepath = mission.velocity.filepath
-        timeoffset_s = mission.velocity.offset_s
+        timeoffset_s = mission.velocity.timeoffset_s - mission.velocity.timezone_s
     elif category == Category.ORIENTATION:
         Console.info("... parsing RDI orientation")
         filename = mission.orientation.filename
         filepath = mission.orientation.filepath
-        timeoffset_s = mission.orientation.offset_s
+        timeoffset_s = mission.orientation.timeoffset_s - mission.orientation.timezone_s
     elif category == Category.ALTITUDE:
         Console.info("... parsing RDI altitude")
         filename = mission.altitude.filename
-        timeoffset_s = mission.altitude.offset_s
+        timeoffset_s = mission.altitude.timeoffset_s - mission.altitude.timezone_s
         filepath = mission.altitude.filepath
 
     logfile = get_raw_folder(outpath / ".." / filepath / filename)
-- 
2.43.0


From 10361a297b9ef06477af8115d1729abfd7a47c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:13 +0000
Subject: [PATCH 035/105] fix: RDI error velocity is signed, its standard
 deviation is not

---
 src/auv_nav/parsers/parse_rdi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/parse_rdi.py b/src/auv_nav/parsers/parse_rdi.py
index 8dce522..737898e 100644
--- a/src/auv_nav/parsers/parse_rdi.py
+++ b/src/auv_nav/parsers/parse_rdi.py
@@ -124,9 +124,9 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
                     bv.x_velocity = x * math.cos(yaw_offset) - y * math.sin(yaw_offset)
                     bv.y_velocity = x * math.sin(yaw_offset) + y * math.cos(yaw_offset)
                     bv.z_velocity = float(parts[3]) * 0.001
-                    bv.x_velocity_std = float(parts[4]) * 0.001
-                    bv.y_velocity_std = float(parts[4]) * 0.001
-                    bv.z_velocity_std = float(parts[4]) * 0.001
+                    bv.x_velocity_std = abs(float(parts[4])) * 0.001
+                    bv.y_velocity_std = abs(float(parts[4])) * 0.001
+                    bv.z_velocity_std = abs(float(parts[4])) * 0.001
             elif parts[0] == ":BD" and len(parts) == 6 and altitude_valid:
                 al.altitude = float(parts[4])
                 al.altitude_std = altitude_std_factor * al.altitude
-- 
2.43.0


From c6831375402aaf5457598ac116e91a8faef81353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:13 +0000
Subject: [PATCH 036/105] fix: RDI parser dropped the last data packet of the
 log

---
 src/auv_nav/parsers/parse_rdi.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_rdi.py b/src/auv_nav/parsers/parse_rdi.py
index 737898e..97935d5 100644
--- a/src/auv_nav/parsers/parse_rdi.py
+++ b/src/auv_nav/parsers/parse_rdi.py
@@ -62,6 +62,11 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
     logfile = get_raw_folder(outpath / ".." / filepath / filename)
     data_list = []
     altitude_valid = False
+    sensor = {
+        Category.VELOCITY: bv,
+        Category.ORIENTATION: ot,
+        Category.ALTITUDE: al,
+    }.get(category)
     with logfile.open("r", errors="ignore") as rdi_file:
         for line in rdi_file.readlines():
             # Lines start with TS, BI, BS, BE, BD, SA
@@ -130,5 +135,7 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
             elif parts[0] == ":BD" and len(parts) == 6 and altitude_valid:
                 al.altitude = float(parts[4])
                 al.altitude_std = altitude_std_factor * al.altitude
-    # print(data_list)
+    # The last data packet is not followed by a TimeStamp
+    if sensor is not None and sensor.valid():
+        data_list.append(sensor.export(output_format))
     return data_list
-- 
2.43.0


From e11125b2fab70ce43856a38fac41b95b299a60f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:13 +0000
Subject: [PATCH 037/105] fix: USBL dump positions south of the equator or west
 of Greenwich had the minutes added

---
 src/auv_nav/parsers/parse_usbl_dump.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/auv_nav/parsers/parse_usbl_dump.py b/src/auv_nav/parsers/parse_usbl_dump.py
index ba3293b..3410cac 100644
--- a/src/auv_nav/parsers/parse_usbl_dump.py
+++ b/src/auv_nav/parsers/parse_usbl_dump.py
@@ -86,22 +86,18 @@ def parse_usbl_dump(mission, vehicle, category, ftype, outpath):
                     latitude_degrees = int(latitude_list[0])
                     latitude_minutes = float(latitude_list[1])
 
-                    if latitude_full[1] != "N":
-                        latitude_degrees = latitude_degrees * -1  # southern hemisphere
-
                     latitude = latitude_degrees + latitude_minutes / 60
+                    if latitude_full[1] != "N":
+                        latitude = -latitude  # southern hemisphere
 
                     longitude_full = line_split[7].split(" ")
                     longitude_list = longitude_full[0].split("-")
                     longitude_degrees = int(longitude_list[0])
                     longitude_minutes = float(longitude_list[1])
 
-                    if longitude_full[1] != "E":
-                        longitude_degrees = (
-                            longitude_degrees * -1
-                        )  # southern hemisphere
-
                     longitude = longitude_degrees + longitude_minutes / 60
+                    if longitude_full[1] != "E":
+                        longitude = -longitude  # western hemisphere
 
                     depth_full = line_split[8].split("=")
                     depth = float(depth_full[1])
-- 
2.43.0


From ee7251e7140280af49bffa619a0ebe5499546b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:13 +0000
Subject: [PATCH 038/105] fix: USBL dump standard deviations of latitude and
 longitude were negative

---
 src/auv_nav/parsers/parse_usbl_dump.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_usbl_dump.py b/src/auv_nav/parsers/parse_usbl_dump.py
index 3410cac..d3de3f7 100644
--- a/src/auv_nav/parsers/parse_usbl_dump.py
+++ b/src/auv_nav/parsers/parse_usbl_dump.py
@@ -118,8 +118,8 @@ def parse_usbl_dump(mission, vehicle, category, ftype, outpath):
                         latitude, longitude, distance_std, distance_std
                     )
 
-                    latitude_std = latitude - latitude_offset
-                    longitude_std = longitude - longitude_offset
+                    latitude_std = abs(latitude - latitude_offset)
+                    longitude_std = abs(longitude - longitude_offset)
 
                     # calculate in metres from reference
                     eastings_ship = 0
-- 
2.43.0


From 3e0c165da503e55f42996d854291747e55d24d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:13 +0000
Subject: [PATCH 039/105] fix: NMEA fractions of a second were read as
 milliseconds whatever their length

---
 src/auv_nav/parsers/parse_NOC_nmea.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_NOC_nmea.py b/src/auv_nav/parsers/parse_NOC_nmea.py
index 4717b17..e036f06 100644
--- a/src/auv_nav/parsers/parse_NOC_nmea.py
+++ b/src/auv_nav/parsers/parse_NOC_nmea.py
@@ -61,7 +61,7 @@ def parse_NOC_nmea(mission, vehicle, category, ftype, outpath):
                     hour = int(hour_str[0:2])
                     mins = int(hour_str[2:4])
                     secs = int(hour_str[4:6])
-                    msec = int(hour_str[7:10])
+                    msec = float("0." + (hour_str[7:] or "0")) * 1000
                     epoch_time = date_time_to_epoch(
                         yyyy, mm, dd, hour, mins, secs, timezone_offset
                     )
-- 
2.43.0


From 37bc353c3b0501fb6153bc7f016fc597a469573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:48 +0000
Subject: [PATCH 040/105] fix: GAPS ship heading was interpolated the long way
 across north

---
 src/auv_nav/parsers/parse_gaps.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/parsers/parse_gaps.py b/src/auv_nav/parsers/parse_gaps.py
index 5f92c1a..d89cec0 100644
--- a/src/auv_nav/parsers/parse_gaps.py
+++ b/src/auv_nav/parsers/parse_gaps.py
@@ -315,10 +315,11 @@ def parse_gaps(mission, vehicle, category, ftype, outpath):
                         inter_time * (latitude_posterior - latitude_prior)
                         + latitude_prior
                     )
-                    heading_ship = (
-                        inter_time * (heading_ship_posterior - heading_ship_prior)
-                        + heading_ship_prior
-                    )
+                    # the ship turns the short way across north
+                    heading_change = (
+                        heading_ship_posterior - heading_ship_prior + 180
+                    ) % 360 - 180
+                    heading_ship = inter_time * heading_change + heading_ship_prior
 
                     while heading_ship > 360:
                         heading_ship = heading_ship - 360
-- 
2.43.0


From 0469d66c0f9ae93df85adf844cd634ce22e38772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:51 +0000
Subject: [PATCH 041/105] fix: image parsers used the timestamps of the
 previously parsed dive

---
 src/auv_nav/parsers/parse_acfr_images.py   | 4 ++--
 src/auv_nav/parsers/parse_biocam_images.py | 8 ++++----
 src/auv_nav/parsers/parse_ntnu_stereo.py   | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/auv_nav/parsers/parse_acfr_images.py b/src/auv_nav/parsers/parse_acfr_images.py
index 560e515..cc863cb 100644
--- a/src/auv_nav/parsers/parse_acfr_images.py
+++ b/src/auv_nav/parsers/parse_acfr_images.py
@@ -16,8 +16,6 @@ import os
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
 
-epoch_timestamp_camera1 = []
-epoch_timestamp_camera2 = []
 values = []
 data_list = []
 tolerance = 0.05  # 0.01 # stereo pair must be within 10ms of each other
@@ -109,6 +107,8 @@ def parse_acfr_images(mission, vehicle, category, ftype, outpath):
     if ftype == "acfr":
         data_list = ""
 
+    epoch_timestamp_camera1 = []
+    epoch_timestamp_camera2 = []
     for i in range(len(camera1_filename)):
         epoch_timestamp = acfr_timestamp_from_filename(
             camera1_filename[i], timezone_offset, timeoffset
diff --git a/src/auv_nav/parsers/parse_biocam_images.py b/src/auv_nav/parsers/parse_biocam_images.py
index 5ea0ad9..b85252d 100644
--- a/src/auv_nav/parsers/parse_biocam_images.py
+++ b/src/auv_nav/parsers/parse_biocam_images.py
@@ -20,10 +20,6 @@ from scipy.stats import linregress
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
 
-stamp_pc1 = []
-stamp_pc2 = []
-stamp_cam1 = []
-stamp_cam2 = []
 values = []
 data_list = []
 tolerance = 0.05  # 0.01 # stereo pair must be within 10ms of each other
@@ -172,6 +168,10 @@ def parse_biocam_images(mission, vehicle, category, ftype, outpath):
     if ftype == "acfr":
         data_list = ""
 
+    stamp_pc1 = []
+    stamp_pc2 = []
+    stamp_cam1 = []
+    stamp_cam2 = []
     for i in range(len(camera1_filename)):
         t1, tc1 = biocam_timestamp_from_filename(
             Path(camera1_filename[i]).name, timezone_offset, timeoffset
diff --git a/src/auv_nav/parsers/parse_ntnu_stereo.py b/src/auv_nav/parsers/parse_ntnu_stereo.py
index ca1c72f..397d8f4 100644
--- a/src/auv_nav/parsers/parse_ntnu_stereo.py
+++ b/src/auv_nav/parsers/parse_ntnu_stereo.py
@@ -14,8 +14,6 @@ See LICENSE.md file in the project root for full license information.
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
 
-epoch_timestamp_camera1 = []
-epoch_timestamp_camera2 = []
 values = []
 data_list = []
 tolerance = 0.05  # 0.01 # stereo pair must be within 10ms of each other
@@ -97,6 +95,8 @@ def parse_ntnu_stereo_images(mission, vehicle, category, ftype, outpath):
     if ftype == "acfr":
         data_list = ""
 
+    epoch_timestamp_camera1 = []
+    epoch_timestamp_camera2 = []
     for i in range(len(camera1_filename)):
         epoch_timestamp = timestamp_from_filename(
             camera1_filename[i], timezone_offset, timeoffset
-- 
2.43.0


From aabf64e3dd95335c49d0cc1065733e2a3cebb4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:51 +0000
Subject: [PATCH 042/105] fix: NTNU image times read ten thousandths of a
 second as milliseconds

---
 src/auv_nav/parsers/parse_ntnu_stereo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_ntnu_stereo.py b/src/auv_nav/parsers/parse_ntnu_stereo.py
index 397d8f4..3f38374 100644
--- a/src/auv_nav/parsers/parse_ntnu_stereo.py
+++ b/src/auv_nav/parsers/parse_ntnu_stereo.py
@@ -36,10 +36,10 @@ def timestamp_from_filename(filename, timezone_offset, timeoffset):
     hour = int(filename[7:9])
     mins = int(filename[9:11])
     secs = int(filename[11:13])
-    msec = int(filename[14:18])
+    frac = int(filename[14:18])
 
     epoch_time = date_time_to_epoch(yyyy, mm, dd, hour, mins, secs, timezone_offset)
-    epoch_timestamp = float(epoch_time + msec / 1000 + timeoffset)
+    epoch_timestamp = float(epoch_time + frac / 10000 + timeoffset)
     return epoch_timestamp
 
 
-- 
2.43.0


From 5e972f84d53601f48b4b06ccfbbe78b7c5211131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:51 +0000
Subject: [PATCH 043/105] fix: Voyis laser images were listed under the names
 of the stills images

---
 src/auv_nav/parsers/parse_voyis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_voyis.py b/src/auv_nav/parsers/parse_voyis.py
index ea2ab6b..0dcdf71 100644
--- a/src/auv_nav/parsers/parse_voyis.py
+++ b/src/auv_nav/parsers/parse_voyis.py
@@ -107,7 +107,7 @@ def parse_voyis_images(mission, vehicle, category, ftype, outpath):
                 "camera1": [
                     {
                         "epoch_timestamp": float(epoch)+timeoffset_s,
-                        "filename": str(stills_image_list_rel[i]),
+                        "filename": str(laser_image_list_rel[i]),
                     }
                 ],
             }
-- 
2.43.0


From 7b19abf3672c792d34d250bca1025157d6c07d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:51 +0000
Subject: [PATCH 044/105] fix: Voyis images stamped with the system clock were
 not recognised

---
 src/auv_nav/parsers/parse_voyis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_voyis.py b/src/auv_nav/parsers/parse_voyis.py
index 0dcdf71..c631c74 100644
--- a/src/auv_nav/parsers/parse_voyis.py
+++ b/src/auv_nav/parsers/parse_voyis.py
@@ -68,7 +68,7 @@ def parse_voyis_images(mission, vehicle, category, ftype, outpath):
         for i, img in enumerate(stills_image_list):
             if str(Path(img).name)[15:18]=='PPS':
                 epoch = stills_filename_to_date_PPS(str(Path(img).name))
-            elif str(Path(img).name)[15:18]=='SYSTEM':
+            elif str(Path(img).name)[15:21]=='SYSTEM':
                 epoch = stills_filename_to_date_SYS(str(Path(img).name))
             data = {
                 "epoch_timestamp": float(epoch)+timeoffset_s,
@@ -96,7 +96,7 @@ def parse_voyis_images(mission, vehicle, category, ftype, outpath):
         for i, img in enumerate(laser_image_list):
             if str(Path(img).name[16:19])=='PPS':
                 epoch = laser_filename_to_date_PPS(str(Path(img).name))
-            elif str(Path(img).name[16:19])=='SYSTEM':
+            elif str(Path(img).name[16:22])=='SYSTEM':
                 epoch = laser_filename_to_date_SYS(str(Path(img).name))        
             data = {
                 "epoch_timestamp": float(epoch)+timeoffset_s,
-- 
2.43.0


From 6cd884818ef8012cf736f4a16846a407ee5057b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:51 +0000
Subject: [PATCH 045/105] fix: alr2 USBL format failed with TypeError

---
 src/auv_nav/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index 02105fb..e2702bb 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -363,7 +363,7 @@ def parse_single(filepath, force_overwrite):
             pool_list.append(
                 pool.apply_async(
                     parse_alr,
-                    [mission, vehicle, "usbl", ftype, outpath, True],
+                    [mission, vehicle, "usbl", ftype, outpath],
                 )
             )
         elif mission.usbl.format == "sonardyne_mrt":
-- 
2.43.0


From c5193ad727f3c6fab49dd67438972ed4aac0e9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:51 +0000
Subject: [PATCH 046/105] fix: ae2000 fractions of a second were read as
 milliseconds whatever their length

---
 src/auv_nav/parsers/parse_ae2000.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_ae2000.py b/src/auv_nav/parsers/parse_ae2000.py
index beee8d9..289ea55 100644
--- a/src/auv_nav/parsers/parse_ae2000.py
+++ b/src/auv_nav/parsers/parse_ae2000.py
@@ -114,13 +114,13 @@ def parse_ae2000(mission: Mission, vehicle: Vehicle, category, ftype, outpath):
         mins = int(timestamp[1])
         timestamp_s_ms = timestamp[2].split(".")
         secs = int(timestamp_s_ms[0])
-        msec = int(timestamp_s_ms[1])
+        fraction = float("0." + timestamp_s_ms[1]) if len(timestamp_s_ms) > 1 else 0
 
         epoch_time = date_time_to_epoch(yyyy, mm, dd, hour, mins, secs)
         # dt_obj = datetime(yyyy,mm,dd,hour,mins,secs)
         # time_tuple = dt_obj.timetuple()
         # epoch_time = time.mktime(time_tuple)
-        epoch_timestamp = epoch_time + msec / 1000 + timeoffset
+        epoch_timestamp = epoch_time + fraction + timeoffset
 
         if ftype == "oplab":
             if category == "velocity":
-- 
2.43.0


From d7577cc46b638708ab118bd6189709198a96e5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:51 +0000
Subject: [PATCH 047/105] fix: koyo21rov times depended on the timezone of the
 computer

---
 src/auv_nav/parsers/parse_koyo21rov.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_koyo21rov.py b/src/auv_nav/parsers/parse_koyo21rov.py
index 6acefac..3214cab 100644
--- a/src/auv_nav/parsers/parse_koyo21rov.py
+++ b/src/auv_nav/parsers/parse_koyo21rov.py
@@ -5,6 +5,7 @@ All rights reserved.
 Licensed under the BSD 3-Clause License.
 See LICENSE.md file in the project root for full license information.
 """
+import calendar
 import time
 from math import isnan
 
@@ -83,7 +84,7 @@ def parse_koyo21rov(mission, vehicle, category, ftype, outpath):
     if "timestamp" in mission_data.columns:
         # filtered position. Convert on the fly using a lambda function
         mission_data["epoch_timestamp"] = mission_data.apply(
-            lambda row: time.mktime(
+            lambda row: calendar.timegm(
                 time.strptime(row["timestamp"], "%Y-%m-%d %H:%M:%S")
             ),
             axis=1,
@@ -91,7 +92,7 @@ def parse_koyo21rov(mission, vehicle, category, ftype, outpath):
     else:
         # raw data
         mission_data["epoch_timestamp"] = mission_data.apply(
-            lambda row: time.mktime(
+            lambda row: calendar.timegm(
                 time.strptime(
                     str(row["Date"]) + " " + str(row["Time"]), "%Y/%m/%d %H:%M:%S"
                 )
-- 
2.43.0


From d763cd16eaa38e19123188f069438a63ed789725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:07 +0000
Subject: [PATCH 048/105] fix: image times read from a timestamp file were
 empty

---
 src/oplab/filename_to_date.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oplab/filename_to_date.py b/src/oplab/filename_to_date.py
index 9493234..9b8704d 100644
--- a/src/oplab/filename_to_date.py
+++ b/src/oplab/filename_to_date.py
@@ -187,7 +187,7 @@ class FilenameToDate:
         Console.info("Found", last_idx, "timestamp records in", filename)
 
         for index, row in df.iterrows():
-            row["epoch_timestamp"] = self.string_to_epoch(
+            df.at[index, "epoch_timestamp"] = self.string_to_epoch(
                 row["combined"], row["combined_format"]
             )
 
-- 
2.43.0


From be97e344aa20b2d3af2164008410e707a3ed7e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:07 +0000
Subject: [PATCH 049/105] fix: date of ACFR image names depended on the
 timezone of the computer

---
 src/auv_nav/tools/time_conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/tools/time_conversions.py b/src/auv_nav/tools/time_conversions.py
index 3d3218b..47ff7a1 100644
--- a/src/auv_nav/tools/time_conversions.py
+++ b/src/auv_nav/tools/time_conversions.py
@@ -52,7 +52,7 @@ def get_localtimezone():
 
 
 def epoch_to_day(epoch):
-    return time.strftime("%Y/%m/%d", time.localtime(epoch))
+    return time.strftime("%Y/%m/%d", time.gmtime(epoch))
 
 
 def string_to_epoch(date_time):
-- 
2.43.0


From 1ef5260ca8838b95c52bc8a26109300ac0dac9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:34 +0000
Subject: [PATCH 050/105] fix: camera calibration files were never found to
 undistort images

---
 src/correct_images/corrector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index 18bdb74..21c6c68 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -1237,7 +1237,7 @@ class Corrector:
         # check for calibration file if distortion correction needed
         if self.undistort:
             camera_params_folder = Path(self.path_processed).parents[0] / "calibration"
-            camera_params_filename = "mono" + self.camera_name + ".yaml"
+            camera_params_filename = "mono_" + self.camera_name + ".yaml"
             camera_params_file_path = camera_params_folder / camera_params_filename
 
             if not camera_params_file_path.exists():
-- 
2.43.0


From b5e7ff8f4f28f6c8a7b14dc37b0c8964eeabc5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:34 +0000
Subject: [PATCH 051/105] fix: red and blue were exchanged in corrected rgb
 images

---
 src/correct_images/corrector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index 21c6c68..a72fa01 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -1364,7 +1364,7 @@ class Corrector:
             ):
                 # debayer images
                 image_rgb = corrections.debayer(image, self._type)
-            elif self._type != "bgr" and self._type != "grayscale":
+            elif self._type == "bgr":
                 image_rgb = image.copy()
                 image_rgb[:, :, [0, 1, 2]] = image_rgb[:, :, [2, 1, 0]]
             else:
@@ -1378,7 +1378,7 @@ class Corrector:
             ):
                 # debayer images
                 image_rgb = corrections.debayer(image, self._type)
-            elif self._type != "bgr":
+            elif self._type == "bgr":
                 image_rgb = image.copy()
                 image_rgb[:, :, [0, 1, 2]] = image_rgb[:, :, [2, 1, 0]]
             else:
-- 
2.43.0


From 3ffee931a11d5aed9d2556a0e3a0f47464864765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:34 +0000
Subject: [PATCH 052/105] fix: manual balance failed writing the list of
 corrected images

---
 src/correct_images/corrector.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index a72fa01..47bcaf1 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -1272,6 +1272,16 @@ class Corrector:
                 image_names.append(Path(path).stem)
         d = {"image_names": image_names, "relative_path": self.processed_image_list}
         dataframe = pd.DataFrame(d)
+        filelist_path = self.output_images_folder / "filelist.csv"
+
+        if self.altitude_csv_path is None:
+            # There is no navigation to write alongside the image filenames
+            dataframe["relative_path"] = [
+                Path(path).name for path in self.processed_image_list
+            ]
+            dataframe.to_csv(filelist_path)
+            Console.info("Processing of images is completed")
+            return
 
         orig_dataframe = pd.read_csv(self.altitude_csv_path)
         orig_dataframe["raw_relative_path"] = orig_dataframe["relative_path"]
@@ -1296,7 +1306,6 @@ class Corrector:
             else:
                 # remove row
                 output_df.drop(index, inplace=True)
-        filelist_path = self.output_images_folder / "filelist.csv"
         output_df.to_csv(filelist_path)
         Console.info("Processing of images is completed")
 
-- 
2.43.0


From 593a5781cc4ea0ce1702c91378e7ba0e4c689b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:34 +0000
Subject: [PATCH 053/105] fix: images of all dives but the last were ignored
 when parsing several dives

---
 src/correct_images/corrector.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index 47bcaf1..ea6e08e 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -661,17 +661,17 @@ class Corrector:
             )
         else:
             # Copy the images list from the camera
-            self.camera_image_list = self.camera.image_list
+            self.camera_image_list = list(self.camera.image_list)
 
-            # Join the current image list with the original image list (copy)
-            self.camera_image_list.extend(_original_image_list)
-            # Show size of the extended image list
-            # Informative for message for multidive
-            Console.info(
-                "The camera image list has", len(self.camera_image_list), "entries"
-            )
-            # Join the current image list with the original image list (copy)
-            self.altitude_list.extend(_original_altitude_list)
+        # Join the current image list with the original image list (copy)
+        self.camera_image_list.extend(_original_image_list)
+        # Show size of the extended image list
+        # Informative for message for multidive
+        Console.info(
+            "The camera image list has", len(self.camera_image_list), "entries"
+        )
+        # Join the current image list with the original image list (copy)
+        self.altitude_list.extend(_original_altitude_list)
 
     def get_altitude_and_depth_maps(self):
         """Generate distance matrix numpy files and save them"""
-- 
2.43.0


From 5edf9e73a8095a8c47b297636ae6744167b2e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:34 +0000
Subject: [PATCH 054/105] fix: distance bins without positive distance used a
 missing attribute

---
 src/correct_images/corrector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index ea6e08e..be70344 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -1143,7 +1143,7 @@ class Corrector:
                     Console.warn("The mean distance is equal or lower than zero!")
                     Console.warn("Printing the entire vector:", distance_bin)
                     Console.warn("Printing the mean:", distance_bin_sample)
-                    distance_bin_sample = self.altitude_min + self.bin_band * idx_bin
+                    distance_bin_sample = self.parse_altitude_min + self.bin_band * idx_bin
 
                 bin_distances_sample = np.empty((self.image_height, self.image_width))
                 bin_distances_sample.fill(distance_bin_sample)
-- 
2.43.0


From 3c0ba0e5c5bdc831a9907acc2b1ba2f3f390983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:34 +0000
Subject: [PATCH 055/105] fix: curve fitting paired distances and intensities
 of different images

---
 src/correct_images/tools/curve_fitting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/correct_images/tools/curve_fitting.py b/src/correct_images/tools/curve_fitting.py
index d557bbc..b1e40b8 100644
--- a/src/correct_images/tools/curve_fitting.py
+++ b/src/correct_images/tools/curve_fitting.py
@@ -90,8 +90,9 @@ def curve_fitting(
     numpy.ndarray
         parameters
     """
-    altitudes = altitudes[np.isfinite(altitudes)]
-    intensities = intensities[np.isfinite(intensities)]
+    finite = np.isfinite(altitudes) & np.isfinite(intensities)
+    altitudes = altitudes[finite]
+    intensities = intensities[finite]
 
     if altitudes.size == 0:
         Console.warn(
-- 
2.43.0


From 06407b1ebcdb6e3ce2b843d31253f47360091de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:34 +0000
Subject: [PATCH 056/105] fix: trimmed mean of images was always NaN, and
 failed with grayscale images

---
 src/correct_images/tools/numerical.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/correct_images/tools/numerical.py b/src/correct_images/tools/numerical.py
index 5b6062a..c3a1b87 100644
--- a/src/correct_images/tools/numerical.py
+++ b/src/correct_images/tools/numerical.py
@@ -293,17 +293,16 @@ def image_mean_std_trimmed(data, ratio_trimming=0.2, calculate_std=True):
     numpy.ndarray
         Trimmed mean and std
     """
-    n = data.shape[0]
     a = data.shape[1]
     b = data.shape[2]
     c = 1
     if len(data.shape) == 4:
         c = data.shape[3]
+    else:
+        data = data.reshape(data.shape + (1,))
     ret_mean = np.zeros((a, b, c), np.float32)
     ret_std = np.zeros((a, b, c), np.float32)
 
-    effective_index = [list(range(0, n))]
-
     message = "calculating mean and std of images " + datetime.datetime.now().strftime(
         "%Y-%m-%d %H:%M:%S"
     )
@@ -318,7 +317,7 @@ def image_mean_std_trimmed(data, ratio_trimming=0.2, calculate_std=True):
                 results = [None] * b
                 for idx_b in range(b):
                     results[idx_b] = calc_mean_and_std_trimmed(
-                        data[effective_index, idx_a, idx_b, ch],
+                        data[:, idx_a, idx_b, ch],
                         ratio_trimming,
                         calculate_std,
                     )
-- 
2.43.0


From bba98c66f0f66d5948474701358588b7703b5995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:34 +0000
Subject: [PATCH 057/105] fix: camera models failed as np.float no longer
 exists

---
 src/oplab/camera_models.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/oplab/camera_models.py b/src/oplab/camera_models.py
index 4bedf10..9dfe252 100644
--- a/src/oplab/camera_models.py
+++ b/src/oplab/camera_models.py
@@ -183,14 +183,14 @@ class MonoCamera:
         px = p[0]
         py = p[1]
         ztemp = np.array([0, 0, 0], dtype="float32")
-        p_unif = np.array([[[(px - cx) / fx, (py - cy) / fy, 1]]], dtype=np.float)
+        p_unif = np.array([[[(px - cx) / fx, (py - cy) / fy, 1]]], dtype=float)
         out_p = []
         out_p = cv2.projectPoints(p_unif, ztemp, ztemp, self.K, self.d)[0][0][0]
         return self.return_valid(out_p)
 
     def undistort_point(self, p):
         # Undistorts points
-        p = np.array([p], dtype=np.float).reshape(1, 2)
+        p = np.array([p], dtype=float).reshape(1, 2)
         # If matrix P is identity or omitted, dst will contain
         # normalized point coordinates
         dst = cv2.undistortPoints(p, self.K, self.d)[0][0]
@@ -215,13 +215,13 @@ class MonoCamera:
         p_und = self.undistort_point(p)
         if p_und is None:
             return None
-        p_unif = np.array([p_und[0], p_und[1], 1], dtype=np.float).reshape(3, 1)
+        p_unif = np.array([p_und[0], p_und[1], 1], dtype=float).reshape(3, 1)
         p_und_rec = self.R @ p_unif
         p_und_rec = p_und_rec[0:2, 0]
         return self.return_valid(p_und_rec)
 
     def unrectify_and_distort_point(self, p):
-        p_unif = np.array([p[0], p[1], 1], dtype=np.float).reshape(3, 1)
+        p_unif = np.array([p[0], p[1], 1], dtype=float).reshape(3, 1)
         p_unrec = self.R.T @ p_unif
         return self.distort_point(p_unrec[0:2])
 
@@ -320,7 +320,7 @@ class StereoCamera:
         """Projects a 3D point into the rectified frame
         point3d a list of three elements [x, y, z]
         """
-        X = np.ones((4, 1), dtype=np.float)
+        X = np.ones((4, 1), dtype=float)
         X[:3, 0] = point3d
         left_uv = self.left.P @ X
         left_uv /= left_uv[2]
-- 
2.43.0


From 74d0755ac4f0bec9e7737163b72c4c6b785015fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:34 +0000
Subject: [PATCH 058/105] fix: plane coefficients were divided twice by the
 length of the normal

---
 src/auv_cal/plane_fitting.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/auv_cal/plane_fitting.py b/src/auv_cal/plane_fitting.py
index a8b012b..247aa92 100644
--- a/src/auv_cal/plane_fitting.py
+++ b/src/auv_cal/plane_fitting.py
@@ -25,10 +25,8 @@ class Plane:
 
     def from_coeffs(self, coeffs):
         self.coeffs = np.array(coeffs, dtype=np.float64)
+        self.coeffs /= norm(self.coeffs[0:3])
         self.normal = self.coeffs[0:3]
-        norm_normal = norm(self.normal)
-        self.normal /= norm_normal
-        self.coeffs /= norm_normal
         self.point = np.array([0.0, 1.0, 10.0], dtype=np.float64)
         self.point[0] = -(
             (
-- 
2.43.0


From febeedaf78eeb108597ee0041468b76546a9bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:34 +0000
Subject: [PATCH 059/105] fix: plane built from angles did not contain the
 given point

---
 src/auv_cal/laser_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 3a8f7ea..cdcd2b5 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -49,8 +49,8 @@ def build_plane(pitch, yaw, point):
     b = math.tan(math.radians(yaw))
     c = math.tan(math.radians(pitch))
     normal = np.array([a, b, c])
-    normal = normal / np.linalg.norm(normal)
     d = -np.dot(normal, point)
+    normal = normal / np.linalg.norm(normal)
     plane = np.array([a, b, c, d])
     offset = (-d - point[1] * b) / a
     return plane, normal, offset
-- 
2.43.0


From 87213966a70b0ae525739af51541ce1f150e61fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:34 +0000
Subject: [PATCH 060/105] fix: laser calibration of up to 500 images ignored
 which images are synchronised

---
 src/auv_cal/laser_calibrator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index cdcd2b5..6e7508c 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -1026,17 +1026,17 @@ class LaserCalibrator:
         limages_rs = []
         rimages_rs = []
         rs_size = 500
-        if len(limages) > rs_size:
+        if len(limages_sync) > rs_size:
             f = lambda m, n: [  # noqa
                 i * n // m + n // (2 * m) for i in range(m)
             ]  # See https://stackoverflow.com/a/9873804/707946
-            selection = f(rs_size, len(limages))
+            selection = f(rs_size, len(limages_sync))
             for s in selection:
                 limages_rs.append(limages_sync[s])
                 rimages_rs.append(rimages_sync[s])
         else:
-            limages_rs = limages
-            rimages_rs = rimages
+            limages_rs = limages_sync
+            rimages_rs = rimages_sync
 
         Console.info("Processing", str(len(limages_sync)), "synchronised images...")
         result = joblib.Parallel(n_jobs=-1)(
-- 
2.43.0


From 4982aab3f5187a4d47da2ae7d99da74f0bb57624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:34 +0000
Subject: [PATCH 061/105] fix: uncertainty planes of the second laser were
 those of the first

---
 src/auv_cal/laser_calibrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 6e7508c..eb1c9f6 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -782,6 +782,8 @@ class LaserCalibrator:
         """
 
         total_no_points = len(cloud)
+        self.triples = []
+        self.uncertainty_planes = []
 
         # Fit mean plane
         Console.info("Fitting a plane to", total_no_points, "points...")
-- 
2.43.0


From 4231765c44eaa8a670963f0dbfb096638a97fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:34 +0000
Subject: [PATCH 062/105] fix: correct_images correct failed as parse expects a
 list of paths

---
 src/correct_images/correct_images.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/correct_images/correct_images.py b/src/correct_images/correct_images.py
index 9de5230..1f6bb7d 100644
--- a/src/correct_images/correct_images.py
+++ b/src/correct_images/correct_images.py
@@ -316,7 +316,11 @@ def call_correct(args):
     args : parse_args object
         User provided arguments for path of source images
     """
-    call_parse(args)
+    parse_args = argparse.Namespace(**vars(args))
+    parse_args.path = [args.path]
+    parse_args.memmap_location = "."
+    parse_args.memmap_size_gb = 50
+    call_parse(parse_args)
     call_process(args)
 
 
-- 
2.43.0


From 1e68746f3ec215d053cfc4a379a0ed02015d1ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:33 +0000
Subject: [PATCH 063/105] fix: writing an image that needed a retry failed
 (Console has no warning)

---
 src/correct_images/tools/file_handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/correct_images/tools/file_handlers.py b/src/correct_images/tools/file_handlers.py
index 8c443e6..10469ca 100644
--- a/src/correct_images/tools/file_handlers.py
+++ b/src/correct_images/tools/file_handlers.py
@@ -152,7 +152,7 @@ def write_output_image(image, filename, dest_path, dest_format):
             f"Failed to write image {file_path} after {max_tries} unsuccessful attempts"
         )
     elif i > 0:
-        Console.warning(
+        Console.warn(
             f"Image {file_path} was written successfully after {i} failed attempt(s)"
         )
 
-- 
2.43.0


From cbc629731ab8100d780059725e8e4fc18c865c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:33 +0000
Subject: [PATCH 064/105] fix: pixels of constant intensity had zero std and
 were corrected to NaN (uniform)

---
 src/correct_images/tools/numerical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/correct_images/tools/numerical.py b/src/correct_images/tools/numerical.py
index c3a1b87..ddf43cc 100644
--- a/src/correct_images/tools/numerical.py
+++ b/src/correct_images/tools/numerical.py
@@ -108,6 +108,7 @@ def running_mean_std(
         mean2 += delta * delta2
     if count > 1:
         std = np.sqrt(mean2 / count)
+    std[std < 1e-6] = 1e-6
     return mean, std
 
 
-- 
2.43.0


From 110efe14397700eba92bb16d36da0a3cdefec8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:22 +0000
Subject: [PATCH 065/105] fix: rescale looked for camera calibrations where
 auv_cal does not write them

---
 src/correct_images/corrections/rescale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/correct_images/corrections/rescale.py b/src/correct_images/corrections/rescale.py
index 2c7a47e..5ee4d60 100644
--- a/src/correct_images/corrections/rescale.py
+++ b/src/correct_images/corrections/rescale.py
@@ -169,7 +169,7 @@ def rescale_camera(path, camera_system, camera):
     distance_path = full_distance_path / distance_file
 
     # obtain focal lengths from calibration file
-    camera_params_folder = path_processed / "calibration"
+    camera_params_folder = path_processed.parent / "calibration"
     camera_params_filename = "mono_" + name + ".yaml"
     camera_params_file_path = camera_params_folder / camera_params_filename
 
-- 
2.43.0


From 4c369d9b51ccc0ddd1dee4b5a27860bd59a9476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:22 +0000
Subject: [PATCH 066/105] fix: rescale took the altitude of images whose name
 is contained in another

---
 src/correct_images/corrections/rescale.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/correct_images/corrections/rescale.py b/src/correct_images/corrections/rescale.py
index 5ee4d60..8b86c48 100644
--- a/src/correct_images/corrections/rescale.py
+++ b/src/correct_images/corrections/rescale.py
@@ -116,7 +116,9 @@ def rescale_images(
         output_image_path = Path(output_directory) / image_name
         image_path_list = dataframe["relative_path"]
         trimmed_path_list = [
-            path for path in image_path_list if Path(path).stem in image_name
+            path
+            for path in image_path_list
+            if Path(path).stem == Path(image_name).stem
         ]
         trimmed_dataframe = dataframe.loc[
             dataframe["relative_path"].isin(trimmed_path_list)
@@ -128,7 +130,7 @@ def rescale_images(
                 image,
                 interpolate_method,
                 target_pixel_size_m,
-                altitude,
+                altitude.iloc[0],
                 f_x,
                 f_y,
                 maintain_pixels,
-- 
2.43.0


From 5e9d20379f7c1476a4b8afadd4d2daff03758be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:39 +0000
Subject: [PATCH 067/105] fix: laser calibration could not be resumed if the
 laser was not detected in an image

---
 src/auv_cal/laser_calibrator.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index eb1c9f6..38de8db 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -401,8 +401,11 @@ def get_laser_pixels_in_image_pair(
             start_row=start_row,
             end_row=end_row,
         )
-        write_str = "top: \n- " + "- ".join(
-            ["[" + str(p1[i][0]) + ", " + str(p1[i][1]) + "]\n" for i in range(len(p1))]
+        write_str = "top: \n" + "".join(
+            [
+                "- [" + str(p1[i][0]) + ", " + str(p1[i][1]) + "]\n"
+                for i in range(len(p1))
+            ]
         )
         if two_lasers:
             p1b = findLaserInImage(
@@ -413,9 +416,9 @@ def get_laser_pixels_in_image_pair(
                 start_row=start_row_b,
                 end_row=end_row_b,
             )
-            write_str += "bottom: \n- " + "- ".join(
+            write_str += "bottom: \n" + "".join(
                 [
-                    "[" + str(p1b[i][0]) + ", " + str(p1b[i][1]) + "]\n"
+                    "- [" + str(p1b[i][0]) + ", " + str(p1b[i][1]) + "]\n"
                     for i in range(len(p1b))
                 ]
             )
@@ -485,9 +488,10 @@ def get_laser_pixels_in_image_pair(
             with filename.open("r") as f:
                 r = yaml.safe_load(f)
             if r is not None:
-                a1 = r["top"]
+                # There are no entries if the laser was not detected
+                a1 = r["top"] or []
                 if "bottom" in r:
-                    a1b = r["bottom"]
+                    a1b = r["bottom"] or []
                 else:
                     a1b = []
                 i = 0
-- 
2.43.0


From c4e393fff534d54f9ed8d15f352d847e06d18473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:22 +0000
Subject: [PATCH 068/105] fix: stereo calibration dropped views by the epipolar
 error of other views

---
 src/auv_cal/camera_calibrator.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index ed209ed..ea20b8e 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -1314,11 +1314,10 @@ class StereoCalibrator(Calibrator):
         if iteration < self.max_iterations - 1 and self.avg_reprojection_error > 0.6:
             epi_error_mean = np.mean(np.array(epipolar_error))
             epi_error_std = np.std(np.array(epipolar_error))
-            self.good_corners = [
-                c
-                for c, e in zip(self.good_corners, epipolar_error)
-                if e < epi_error_mean + 2 * epi_error_std
-            ]
+            inliers = [e < epi_error_mean + 2 * epi_error_std for e in epipolar_error]
+            # Keep images and corners of the same views
+            self.good_corners = [c for c, i in zip(self.good_corners, inliers) if i]
+            self.db = [d for d, i in zip(self.db, inliers) if i]
             Console.info(
                 "Using "
                 + str(len(self.good_corners))
-- 
2.43.0


From 79c921d7eb663b5d8922ac31a9bc8e5c2d496025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:22 +0000
Subject: [PATCH 069/105] fix: stereo rectification was not that of the best
 calibration

---
 src/auv_cal/camera_calibrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index ea20b8e..ef2b927 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -1344,6 +1344,8 @@ class StereoCalibrator(Calibrator):
             self.avg_reprojection_error = self.calibrations[best_idx][
                 "avg_reprojection_error"
             ]
+            # Rectify with the extrinsics of the best calibration
+            self.set_alpha(1.0)
 
         if self.debug:
             errors = []
-- 
2.43.0


From 120e4c877c3455dd0b9bea47e1d80916da11f546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:22 +0000
Subject: [PATCH 070/105] fix: resizing with padding could return an image of
 the wrong width

---
 src/auv_cal/camera_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index ef2b927..f8aee09 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -483,7 +483,7 @@ def resize_with_padding(img, size):
         img, top, bottom, left, right, cv2.BORDER_CONSTANT, value=0
     )
 
-    if img.shape[0] != height:
+    if img.shape[0] != height or img.shape[1] != width:
         # needs scaling
         img = cv2.resize(img, size)
 
-- 
2.43.0


From 5ed162da10882921e6ee6160e623467c5dfab560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:22 +0000
Subject: [PATCH 071/105] fix: configured maximum number of laser points per
 depth bin was ignored

---
 src/auv_cal/laser_calibrator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 38de8db..3e55b20 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -633,7 +633,9 @@ class LaserCalibrator:
         self.min_z_m = stratify.get("min_z_m", 1)
         self.max_z_m = stratify.get("max_z_m", 20)
         self.number_of_bins = stratify.get("number_of_bins", 5)
-        self.max_points_per_bin = stratify.get("max_bin_elements", 300)
+        self.max_points_per_bin = stratify.get(
+            "max_points_per_bin", stratify.get("max_bin_elements", 300)
+        )
 
         self.max_point_cloud_size = ransac.get("max_cloud_size", 10000)
         self.mdt = ransac.get("min_distance_threshold", 0.002)
-- 
2.43.0


From 3ab82aa9b74e0e0f6a73fc94556600de83fd551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:02 +0000
Subject: [PATCH 072/105] fix: SeaXerocks images could not be parsed without a
 timeoffset_s for each camera

---
 src/oplab/mission.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index 508dc6f..e3041d9 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -107,7 +107,7 @@ class CameraEntry:
         self.type = None
         self.path = None
         self.timeoffset = None
-        self.timeoffset_s = None
+        self.timeoffset_s = 0.0
         if node is not None:
             self.name = node["name"]
             if "type" in node:
@@ -131,8 +131,7 @@ class CameraEntry:
             if "timeoffset" in node:
                 self.timeoffset = node["timeoffset"]
             self.records_laser = node.get("records_laser", False)
-            if "timeoffset_s" in node:
-                self.timeoffset_s = node["timeoffset_s"]
+            self.timeoffset_s = node.get("timeoffset_s", self.timeoffset)
 
     def write(self, node):
         node["name"] = self.name
-- 
2.43.0


From d1d75fdc52a5bd1cf1b8eabedb436bc06a89601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:02 +0000
Subject: [PATCH 073/105] fix: the frame of a camera was ignored if the first
 camera has none

---
 src/oplab/mission.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index e3041d9..a3f3035 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -185,10 +185,10 @@ class ImageEntry(TimeZoneEntry):
         if mission_yaml_version >= 1:
             for camera in node["cameras"]:
                 self.cameras.append(CameraEntry(camera))
-            if "origin" not in node["cameras"][0]:
-                # Assuming that the camera names in mission.yaml corresponds
-                # to the frame names in vehicle.yaml
-                for i, camera in enumerate(self.cameras):
+            for camera in self.cameras:
+                if camera.origin is None:
+                    # Assuming that the camera names in mission.yaml corresponds
+                    # to the frame names in vehicle.yaml
                     camera.origin = camera.name
         else:
             self.cameras.append(CameraEntry())
-- 
2.43.0


From 1f59b84ea31f3dad916b13a4b111003f253e726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:02 +0000
Subject: [PATCH 074/105] fix: a payload missing in vehicle.yaml raised
 AttributeError instead of being reported

---
 src/oplab/mission.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index a3f3035..3b75257 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -422,15 +422,16 @@ class Mission:
                         payload = PayloadEntry()
                         payload.load(data["payloads"][payload_entry])
                         self.payloads[payload_entry] = payload
-                        if payload_entry not in vehicle_data["payloads"]:
+                        if payload_entry not in vehicle_data.get("payloads", {}):
                             Console.error("Cannot find", payload_entry, "in payloads")
                             Console.info(
-                                'vehicle_data["payloads"]:', vehicle_data["payloads"]
+                                'vehicle_data["payloads"]:',
+                                vehicle_data.get("payloads", {}),
                             )
                             Console.info("current payload:", payload_entry)
                             Console.error(
                                 "The payload mounted at "
-                                + payload.origin
+                                + payload_entry
                                 + " does not correspond to any frame in vehicle.yaml."  # noqa
                             )
                             error_and_exit()
-- 
2.43.0


From 9f56279fe4d5b0944788353fc8ca605fa25b79ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:02 +0000
Subject: [PATCH 075/105] fix: frames, topics, filters, payloads and camera
 offsets were lost writing mission.yaml

---
 src/oplab/mission.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index 3b75257..3a458bd 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -106,6 +106,7 @@ class CameraEntry:
         self.origin = None
         self.type = None
         self.path = None
+        self.topic = None
         self.timeoffset = None
         self.timeoffset_s = 0.0
         if node is not None:
@@ -124,7 +125,6 @@ class CameraEntry:
             if "origin" in node:
                 self.origin = node["origin"]
                 Console.info("Using camera " + self.name + " mounted at " + self.origin)
-            self.topic = None
             if "topic" in node:
                 self.topic = node["topic"]
             self.timeoffset = 0.0
@@ -139,8 +139,11 @@ class CameraEntry:
         node["type"] = self.type
         node["path"] = self.path
         node["records_laser"] = self.records_laser
+        if self.topic is not None:
+            node["topic"] = self.topic
         if hasattr(self, "timeoffset"):
             node["timeoffset"] = self.timeoffset
+        node["timeoffset_s"] = self.timeoffset_s
 
 
 
@@ -244,6 +247,7 @@ class DefaultEntry(TimeZoneEntry):
         self.apply_depth_filter = True # for usbl to filter info using depth in usbl_filter.py
         self.apply_north_east_filter = True # for usbl to filter info using north and east in usbl_filter.py
         self._empty = True
+        self.origin = None
         self.topic = None
 
     def empty(self):
@@ -279,9 +283,9 @@ class DefaultEntry(TimeZoneEntry):
     def write(self, node):
         super().write(node)
         node["format"] = self.format
-        if "origin" in node:
+        if self.origin is not None:
             node["origin"] = self.origin
-        if "topic" in node:
+        if self.topic is not None:
             node["topic"] = self.topic
         node["filepath"] = self.filepath
         node["filename"] = self.filename
@@ -289,6 +293,9 @@ class DefaultEntry(TimeZoneEntry):
         node["id"] = self.label
         node["std_factor"] = self.std_factor
         node["std_offset"] = self.std_offset
+        node["field_id"] = self.field_id
+        node["apply_depth_filter"] = self.apply_depth_filter
+        node["apply_north_east_filter"] = self.apply_north_east_filter
 
 
 class Mission:
@@ -495,12 +502,12 @@ class Mission:
                 if not self.image.empty():
                     mission_dict["image"] = OrderedDict()
                     self.image.write(mission_dict["image"])
-                if len(self.payloads) > 1:
-                    mission_dict["payloads"] = []
+                if len(self.payloads) > 0:
+                    mission_dict["payloads"] = OrderedDict()
                     for payload in self.payloads:
                         payload_entry = OrderedDict()
-                        payload.write(payload_entry)
-                        mission_dict["payloads"].append(payload_entry)
+                        self.payloads[payload].write(payload_entry)
+                        mission_dict["payloads"][payload] = payload_entry
                 yaml.dump(
                     mission_dict,
                     f,
-- 
2.43.0


From a07512efd249fee963d6eb303c0135f58b4299a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:28 +0000
Subject: [PATCH 076/105] fix: auv_nav parse skipped every dataset unless
 forced, as its own log folder counted as a result

---
 src/auv_nav/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index e2702bb..9347476 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -790,7 +790,7 @@ def check_output_files_exist(processed_dataset_folder):
     """Check if any of the files exist, which `auv_nav parse` writes to disk"""
     mission_file = processed_dataset_folder / "mission.yaml"
     vehicle_file = processed_dataset_folder / "vehicle.yaml"
-    camera_file = processed_dataset_folder / ""
+    camera_file = processed_dataset_folder / "camera.yaml"
     nav_file = processed_dataset_folder / "nav" / "nav_standard.json"
     data_plot_file = processed_dataset_folder / "nav" / "json_data_info.html"
     history_plot_file = processed_dataset_folder / "nav" / "timestamp_history.html"
-- 
2.43.0


From ff1149632ed43ccda1200b3208321fabb8107010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:28 +0000
Subject: [PATCH 077/105] fix: dives with laser images that are stored per
 camera could not be merged

---
 src/auv_nav/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index 9347476..8e31b3a 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -90,7 +90,7 @@ def merge_json_files(json_file_list):
                 item["camera3"][0]["filename"] = (
                     dive_prefix + item["camera3"][0]["filename"]
                 )
-            if item["category"] == "laser":
+            if item["category"] == "laser" and "filename" in item:
                 item["filename"] = dive_prefix + item["filename"]
             data_list.append(item)
 
-- 
2.43.0


From 08cd893084476d1e22461f2e06db650fa6326c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:28 +0000
Subject: [PATCH 078/105] fix: acfr_to_oplab overwrote existing pose files
 without the force flag

---
 src/auv_nav/convert.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/convert.py b/src/auv_nav/convert.py
index 86c507f..2c7bde2 100644
--- a/src/auv_nav/convert.py
+++ b/src/auv_nav/convert.py
@@ -138,13 +138,16 @@ def acfr_to_oplab(args):
             Console.error("The DR file already exists. Use -F to force overwrite it")
             Console.quit("Default behaviour: not to overwrite results")
         else:
-            write_csv(csv_filepath, dr, csv_filename, csv_flag=True)
+            write_csv(csv_filepath, dr, Path(csv_filename).stem, csv_flag=True)
             Console.info("Output vehicle pose written to", csv_filepath / csv_filename)
     if args.stereo_pose:
         Console.info("Stereo pose provided! Converting it to camera CSVs...")
         spp = AcfrStereoPoseParser(args.stereo_pose)
         cam1, cam2 = spp.get_cameras()
-        if (csv_filepath / "auv_dr_LC.csv").exists() and not force_overwite:
+        if (
+            (csv_filepath / "auv_acfr_LC.csv").exists()
+            or (csv_filepath / "auv_acfr_RC.csv").exists()
+        ) and not force_overwite:
             Console.error(
                 "The camera files already exists. Use -F to force overwrite it"
             )
-- 
2.43.0


From 4f0d6fef828c74d6ac391094694b67920b5fad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:28 +0000
Subject: [PATCH 079/105] fix: remove_directory deleted the contents of folders
 that are only linked

---
 src/oplab/folder_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oplab/folder_structure.py b/src/oplab/folder_structure.py
index 473d844..6246378 100644
--- a/src/oplab/folder_structure.py
+++ b/src/oplab/folder_structure.py
@@ -128,7 +128,7 @@ def remove_directory(folder: Path):
         folder to be removed
     """
     for p in folder.iterdir():
-        if p.is_dir():
+        if p.is_dir() and not p.is_symlink():
             remove_directory(p)
         else:
             p.unlink()
-- 
2.43.0


From a4bfc8d55e2906dfe7ade092a0ed87adf280861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:18 +0000
Subject: [PATCH 080/105] fix: running statistics counted missing (zero) pixels
 as images at the mean so far

---
 src/correct_images/tools/numerical.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/correct_images/tools/numerical.py b/src/correct_images/tools/numerical.py
index ddf43cc..0a83457 100644
--- a/src/correct_images/tools/numerical.py
+++ b/src/correct_images/tools/numerical.py
@@ -82,7 +82,6 @@ def running_mean_std(
     (np.ndarray, np.ndarray)
         Mean and std arrays
     """
-    count = 0
     tmp = None
     if width is not None and height is not None:
         tmp = loader(file_list[0], width, height)
@@ -92,7 +91,7 @@ def running_mean_std(
 
     mean = np.zeros(dimensions, dtype=np.float32)
     mean2 = np.zeros(dimensions, dtype=np.float32)
-    std = np.zeros(dimensions, dtype=np.float32)
+    count = np.zeros(dimensions, dtype=np.float32)
 
     for item in file_list:
         if width is not None and height is not None:
@@ -100,14 +99,16 @@ def running_mean_std(
         else:
             value = loader(item).astype(np.float32)
         if ignore_zeroes:
+            # Zeroes are missing values: they do not count for their pixel
+            count += value != 0
             value[value == 0] = mean[value == 0]
-        count += 1
+        else:
+            count += 1
         delta = value - mean
-        mean += delta / count
+        mean += delta / np.maximum(count, 1)
         delta2 = value - mean
         mean2 += delta * delta2
-    if count > 1:
-        std = np.sqrt(mean2 / count)
+    std = np.sqrt(mean2 / np.maximum(count, 1))
     std[std < 1e-6] = 1e-6
     return mean, std
 
-- 
2.43.0


From 699551271e6e207d1eae2e8fef460e4390c3641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:17 +0000
Subject: [PATCH 081/105] fix: ACFR stereo poses were written in degrees and
 without turning into the stereo frame

---
 src/auv_nav/parsers/acfr_stereo_pose.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_stereo_pose.py b/src/auv_nav/parsers/acfr_stereo_pose.py
index a2bb6f2..713c6d2 100644
--- a/src/auv_nav/parsers/acfr_stereo_pose.py
+++ b/src/auv_nav/parsers/acfr_stereo_pose.py
@@ -274,6 +274,10 @@ class AcfrStereoPoseWriter:
             for i, (c1, c2) in enumerate(zip(cam1_list, cam2_list)):
                 c1.filename = Path(c1.filename).name
                 c2.filename = Path(c2.filename).name
+                # Euler angles of the stereo frame, see get_cameras()
+                x_euler_angle = math.radians(-c1.pitch)
+                y_euler_angle = math.radians(c1.roll)
+                z_euler_angle = math.radians(c1.yaw - 90)
                 f.write(
                     str(i)
                     + " \t"
@@ -289,11 +293,11 @@ class AcfrStereoPoseWriter:
                     + " \t"
                     + str(c1.depth)
                     + " \t"
-                    + str(c1.roll)
+                    + str(x_euler_angle)
                     + " \t"
-                    + str(c1.pitch)
+                    + str(y_euler_angle)
                     + " \t"
-                    + str(c1.yaw)
+                    + str(z_euler_angle)
                     + " \t"
                     + str(c1.filename)
                     + " \t"
-- 
2.43.0


From 05fa6449f5dbd550a4499b5bb9732c64dc3a42f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:17 +0000
Subject: [PATCH 082/105] fix: ACFR vehicle poses were written in degrees and
 read with roll and pitch exchanged

---
 src/auv_nav/parsers/acfr_vehicle_pose.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_vehicle_pose.py b/src/auv_nav/parsers/acfr_vehicle_pose.py
index 49938bd..203804b 100644
--- a/src/auv_nav/parsers/acfr_vehicle_pose.py
+++ b/src/auv_nav/parsers/acfr_vehicle_pose.py
@@ -185,8 +185,8 @@ class AcfrVehiclePoseParser:
             dr.depth = entry.z_depth
             dr.latitude = entry.latitude
             dr.longitude = entry.longitude
-            dr.roll = entry.y_euler_angle
-            dr.pitch = -entry.x_euler_angle
+            dr.roll = entry.x_euler_angle
+            dr.pitch = entry.y_euler_angle
             dr.yaw = entry.z_euler_angle
             dr.altitude = entry.altitude
 
@@ -228,11 +228,11 @@ class AcfrVehiclePoseWriter:
                     + " \t"
                     + str(dr.depth)
                     + " \t"
-                    + str(dr.roll)
+                    + str(math.radians(dr.roll))
                     + " \t"
-                    + str(dr.pitch)
+                    + str(math.radians(dr.pitch))
                     + " \t"
-                    + str(dr.yaw)
+                    + str(math.radians(dr.yaw))
                     + " \t"
                     + str(dr.altitude)
                     + "\n"
-- 
2.43.0


From 7dea48a398794cf31945b2336c890843a68b78f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:17 +0000
Subject: [PATCH 083/105] fix: ACFR vehicle pose files lost their first pose,
 as the length of the header was assumed

---
 src/auv_nav/parsers/acfr_vehicle_pose.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_vehicle_pose.py b/src/auv_nav/parsers/acfr_vehicle_pose.py
index 203804b..79e6a84 100644
--- a/src/auv_nav/parsers/acfr_vehicle_pose.py
+++ b/src/auv_nav/parsers/acfr_vehicle_pose.py
@@ -159,15 +159,18 @@ class AcfrVehiclePoseParser:
         f = Path(filename)
         stream = f.open("r")
 
-        for i, line in enumerate(stream):
+        for line in stream:
+            # Skip the header
+            if not line.strip() or line.startswith("%"):
+                continue
             # Read origins
-            # Line 56: ORIGIN_LATITUDE  59.8136000000000010
-            # Line 57: ORIGIN_LONGITUDE -7.3532999999999999
-            if i == 44:
+            # ORIGIN_LATITUDE  59.8136000000000010
+            # ORIGIN_LONGITUDE -7.3532999999999999
+            if line.startswith("ORIGIN_LATITUDE"):
                 self.origin_latitude = float(line.split()[1])
-            if i == 45:
+            elif line.startswith("ORIGIN_LONGITUDE"):
                 self.origin_longitude = float(line.split()[1])
-            if i > 45:
+            else:
                 self._entries.append(AcfrVehiclePose(line))
         print("Parsed", len(self._entries), "entries")
 
-- 
2.43.0


From f8155716c56b011116f48d9dfd01f7adf59add6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:52 +0000
Subject: [PATCH 084/105] fix: hybis and koyo20rov headings were interpolated
 the long way around north

---
 src/auv_nav/parsers/hybis.py     |  4 ++--
 src/auv_nav/parsers/koyo20rov.py |  4 ++--
 src/auv_nav/tools/interpolate.py | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/parsers/hybis.py b/src/auv_nav/parsers/hybis.py
index 11d769f..43cfc43 100644
--- a/src/auv_nav/parsers/hybis.py
+++ b/src/auv_nav/parsers/hybis.py
@@ -12,7 +12,7 @@ from pathlib import Path
 
 import pandas as pd
 
-from auv_nav.tools.interpolate import interpolate
+from auv_nav.tools.interpolate import interpolate, interpolate_heading
 from auv_nav.tools.latlon_wgs84 import latlon_to_metres
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
@@ -206,7 +206,7 @@ class HybisParser:
                 hybis_vec[i].pitch,
                 hybis_vec[i + 1].pitch,
             )
-            heading = interpolate(
+            heading = interpolate_heading(
                 modification_time,
                 hybis_vec[i].epoch_timestamp,
                 hybis_vec[i + 1].epoch_timestamp,
diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index 00bd39f..b03ff32 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -16,7 +16,7 @@ import numpy as np
 import pandas as pd
 
 from auv_nav.tools.body_to_inertial import body_to_inertial
-from auv_nav.tools.interpolate import interpolate
+from auv_nav.tools.interpolate import interpolate, interpolate_heading
 from auv_nav.tools.latlon_wgs84 import latlon_to_metres, metres_to_latlon
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, Mission, Vehicle, get_raw_folder
@@ -789,7 +789,7 @@ class RovParser:
             while image_epoch > self.vector_rot[i].epoch_timestamp:
                 i += 1
             # Interpolate.
-            image_object.heading = interpolate(
+            image_object.heading = interpolate_heading(
                 image_epoch,
                 self.vector_rot[i - 1].epoch_timestamp,
                 self.vector_rot[i].epoch_timestamp,
diff --git a/src/auv_nav/tools/interpolate.py b/src/auv_nav/tools/interpolate.py
index d897d27..adde6cc 100644
--- a/src/auv_nav/tools/interpolate.py
+++ b/src/auv_nav/tools/interpolate.py
@@ -27,6 +27,20 @@ def interpolate(x_query, x_lower, x_upper, y_lower, y_upper):
     return y_query
 
 
+def interpolate_heading(x_query, x_lower, x_upper, y_lower, y_upper):
+    """Interpolate headings (0 to 360 degrees) the short way around north"""
+    if y_upper - y_lower > 180:
+        y_upper -= 360
+    elif y_upper - y_lower < -180:
+        y_upper += 360
+    y_query = interpolate(x_query, x_lower, x_upper, y_lower, y_upper)
+    if y_query < 0:
+        y_query += 360
+    elif y_query > 360:
+        y_query -= 360
+    return y_query
+
+
 def interpolate_altitude(query_timestamp, data):
     i = 1
     while i < len(data) and data[i].epoch_timestamp < query_timestamp:
-- 
2.43.0


From 71e7b7aba35efa307dd2dc89ebe752e335bea36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:52 +0000
Subject: [PATCH 085/105] fix: hybis images were extrapolated from the two
 records after them

---
 src/auv_nav/parsers/hybis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/hybis.py b/src/auv_nav/parsers/hybis.py
index 43cfc43..542f24c 100644
--- a/src/auv_nav/parsers/hybis.py
+++ b/src/auv_nav/parsers/hybis.py
@@ -167,7 +167,7 @@ class HybisParser:
             i = 0
             while (
                 i < len(hybis_vec) - 2
-                and hybis_vec[i].epoch_timestamp < modification_time
+                and hybis_vec[i + 1].epoch_timestamp < modification_time
             ):
                 i += 1
 
-- 
2.43.0


From c933a919cb367ef17906d5b62cac8e4d080b9f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:52 +0000
Subject: [PATCH 086/105] fix: a missing first altitude or depth was
 interpolated with the last record (hybis, koyo20rov)

---
 src/auv_nav/parsers/hybis.py     | 2 +-
 src/auv_nav/parsers/koyo20rov.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/hybis.py b/src/auv_nav/parsers/hybis.py
index 542f24c..133d512 100644
--- a/src/auv_nav/parsers/hybis.py
+++ b/src/auv_nav/parsers/hybis.py
@@ -114,7 +114,7 @@ class HybisParser:
             )
             hybis_vec.append(p)
 
-        for i in range(len(hybis_vec) - 1):
+        for i in range(1, len(hybis_vec) - 1):
             if hybis_vec[i].altitude == 0:
                 hybis_vec[i].altitude = interpolate(
                     hybis_vec[i].epoch_timestamp,
diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index b03ff32..7ec2633 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -442,7 +442,7 @@ class RovParser:
             key=return_epoch_timestamp,
         )
         # Deal with missing values
-        for i in range(len(self.vector_pos) - 1):
+        for i in range(1, len(self.vector_pos) - 1):
             if self.vector_pos[i].altitude == 0:
                 self.vector_pos[i].altitude = interpolate(
                     self.vector_pos[i].epoch_timestamp,
-- 
2.43.0


From 296b1bd43d536dd756938118d8875eb181a956b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:52 +0000
Subject: [PATCH 087/105] fix: name of the koyo20rov results depended on the
 timezone of the computer

---
 src/auv_nav/parsers/koyo20rov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index 7ec2633..3af0373 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -8,7 +8,7 @@ See LICENSE.md file in the project root for full license information.
 
 
 from copy import deepcopy
-from datetime import datetime
+from datetime import datetime, timezone
 from pathlib import Path
 from typing import Union
 
@@ -249,7 +249,7 @@ def epoch_to_timestr(epoch: Union[int, float]) -> str:
     Returns:
         str: date as YYYYMMDD_hhmmss
     """
-    time = datetime.fromtimestamp(epoch)
+    time = datetime.fromtimestamp(epoch, tz=timezone.utc)
     timestr = (
         f"{time.year:04}{time.month:02}{time.day:02}"
         f"_{time.hour:02}{time.minute:02}{time.second:02}"
-- 
2.43.0


From 7788b234e05681fec23ec477acd4776771f4655d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:52 +0000
Subject: [PATCH 088/105] fix: the first record of every koyo20rov ship log was
 discarded as an outlier in time

---
 src/auv_nav/parsers/koyo20rov.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index 3af0373..74dcd22 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -394,14 +394,7 @@ class RovParser:
             lat = list(dataframe_pos[31])
             lon = list(dataframe_pos[32])
             vector_pos = []
-            current_epoch = RovPos(
-                depth[0],
-                altitude[0],
-                lon[0],
-                lat[0],
-                date[0],
-                timestr[0],
-            ).epoch_timestamp
+            current_epoch = -np.inf
             for i, this_date in enumerate(date):
                 if not isinstance(this_date, str):
                     continue
-- 
2.43.0


From 46a5dac5b3ece49f59783337e79186f44e2c3bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:52 +0000
Subject: [PATCH 089/105] fix: particle trajectories held the depth, attitude
 and velocity of the following step

---
 src/auv_nav/localisation/pf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 1e84b2b..7279bc5 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -218,7 +218,8 @@ class DeadReckoningMovementModel:
         # Propagate the p.state forward
         p.state = f @ p.state
         p.time += dt
-        p.trajectory.append(p.state)
+        # Keep a copy, as the state is modified in the next step
+        p.trajectory.append(p.state.copy())
         p.trajectory_time.append(p.time)
 
 
-- 
2.43.0


From c17c01d7bf5b5e8de5a47cc5e2b6c8158e30b6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:52 +0000
Subject: [PATCH 090/105] fix: all states of the particle filter had the
 altitude of the first

---
 src/auv_nav/localisation/pf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 7279bc5..f248b69 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -197,6 +197,8 @@ class DeadReckoningMovementModel:
             Index.VZ, velocity_std_factor_z, velocity_std_offset_z, k_dvl
         )
 
+        p.state[Index.ALT, 0] = self.movement[Index.ALT, 0]
+
         cr = math.cos(p.state[Index.ROLL, 0])
         sr = math.sin(p.state[Index.ROLL, 0])
         cp = math.cos(p.state[Index.PITCH, 0])
-- 
2.43.0


From 4b0e497304ac3528cf53352c99b8ed7c563ec60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:52 +0000
Subject: [PATCH 091/105] fix: particle attitude noise took degrees as radians,
 and noise vanished for some negative values

---
 src/auv_nav/localisation/pf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index f248b69..084c576 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -164,7 +164,8 @@ class DeadReckoningMovementModel:
             velocity_std_offset_y = self.sensors_std["speed"]["offset"]
             velocity_std_factor_z = self.sensors_std["speed"]["factor"]
             velocity_std_offset_z = self.sensors_std["speed"]["offset"]
-        imu_noise_std_offset = self.sensors_std["orientation"]["offset"]
+        # The orientation is in radians, its noise offset in degrees
+        imu_noise_std_offset = math.radians(self.sensors_std["orientation"]["offset"])
         imu_noise_std_factor = self.sensors_std["orientation"]["factor"]
 
         k_dvl = self.dvl_noise_sigma_factor
@@ -173,7 +174,7 @@ class DeadReckoningMovementModel:
         def linear_noise(idx, factor, offset, gain=1.0):
             return (
                 self.movement[idx, 0]
-                + randn() * (self.movement[idx, 0] * factor + offset) * gain
+                + randn() * (abs(self.movement[idx, 0]) * factor + offset) * gain
             )
 
         # Propagate all states except for X and Y
-- 
2.43.0


From 0dacd2cda562760666e897583e90ea1cff05fc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:52 +0000
Subject: [PATCH 092/105] fix: resampled particles kept the weights they had
 been drawn by

---
 src/auv_nav/localisation/pf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 084c576..7bc5b8e 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -321,6 +321,8 @@ class ParticleFilter:
                 cumulative_weight += self.particles[source_index].weight
             # copy particle (via assignment operator)
             new_particles[dest_index] = copy.deepcopy(self.particles[source_index])
+            # the weights are now represented by the number of copies
+            new_particles[dest_index].weight = inverse_num
         # Update the particle list
         self.particles = new_particles
 
-- 
2.43.0


From d940f62abb0e6f70d84fd66d57a67810d546c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:52 +0000
Subject: [PATCH 093/105] fix: particle filter skipped a USBL fix of the track
 when others preceded it

---
 src/auv_nav/localisation/pf.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 7bc5b8e..4f177e6 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -389,23 +389,15 @@ def get_prior(dr_list, usbl_list):
     eastings_mean = np.mean(eastings_error)
     northings_mean = np.mean(northings_error)
 
+    # Skip the USBL fixes before the start of DR
     dr_index = 0
     usbl_index = 0
-    usbl_t = usbl_list[usbl_index].epoch_timestamp
-    dr_t = dr_list[usbl_index].epoch_timestamp
-
-    while dr_index < len(dr_list) and usbl_t > dr_t:
-        usbl_t = usbl_list[usbl_index].epoch_timestamp
-        dr_t = dr_list[usbl_index].epoch_timestamp
-        dr_index += 1
-    while usbl_index < len(usbl_list) and usbl_t < dr_t:
-        usbl_t = usbl_list[usbl_index].epoch_timestamp
-        dr_t = dr_list[usbl_index].epoch_timestamp
+    while (
+        usbl_index < len(usbl_list)
+        and usbl_list[usbl_index].epoch_timestamp < dr_list[dr_index].epoch_timestamp
+    ):
         usbl_index += 1
 
-    # Fix DR to index zero
-    dr_index = 0
-
     # Build state from first known USBL and DR, and use that displacement
     # error at the start of DR.
     x = dr_list[dr_index].northings + northings_mean
-- 
2.43.0


From 0d38d65186cef7a69d00871ce564cbb103f26963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:39 +0000
Subject: [PATCH 094/105] fix: particle filter track at the vehicle centre kept
 the depth and altitude of the sensors

As for the dead reckoning track, the depth of the depth sensor and the
altitude of the DVL have to be moved to the origin of the vehicle.
---
 src/auv_nav/process.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index d226ab8..5c1b237 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1195,7 +1195,7 @@ def process(
             )
             pf_fusion_dvl_list[i].latitude = lat
             pf_fusion_dvl_list[i].longitude = lon
-            [x_offset, y_offset, z_offset] = body_to_inertial(
+            [x_offset, y_offset, a_offset] = body_to_inertial(
                 pf_fusion_centre_list[i].roll,
                 pf_fusion_centre_list[i].pitch,
                 pf_fusion_centre_list[i].yaw,
@@ -1203,8 +1203,18 @@ def process(
                 vehicle.origin.sway - vehicle.dvl.sway,
                 vehicle.origin.heave - vehicle.dvl.heave,
             )
+            [_, _, z_offset] = body_to_inertial(
+                pf_fusion_centre_list[i].roll,
+                pf_fusion_centre_list[i].pitch,
+                pf_fusion_centre_list[i].yaw,
+                vehicle.origin.surge - vehicle.depth.surge,
+                vehicle.origin.sway - vehicle.depth.sway,
+                vehicle.origin.heave - vehicle.depth.heave,
+            )
             pf_fusion_centre_list[i].northings += x_offset
             pf_fusion_centre_list[i].eastings += y_offset
+            pf_fusion_centre_list[i].altitude -= a_offset
+            pf_fusion_centre_list[i].depth += z_offset
             lat, lon = metres_to_latlon(
                 mission.origin.latitude,
                 mission.origin.longitude,
-- 
2.43.0


From 06b417e1b01a6bece498ff341d15e6669961d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:14 +0000
Subject: [PATCH 095/105] fix: a USBL fix far from all particles left the
 particle filter with zero weights

All the fixes after it were ignored, as the weights stayed zero (and the
weights were not normalised below a sum of 1e-20).
---
 src/auv_nav/localisation/pf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 4f177e6..3cf1eb2 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -291,11 +291,12 @@ class ParticleFilter:
     def normalize(self):
         s = [p.weight for p in self.particles]
         norm = np.sum(s)
-        # Avoid division by zero
-        if norm < 1e-20:
-            norm += 1e-20
         for p in self.particles:
-            p.weight = p.weight / norm
+            if norm > 0:
+                p.weight = p.weight / norm
+            else:
+                # Too far from all of them to tell the particles apart
+                p.weight = 1.0 / len(self.particles)
 
     def resample(self):
         """Importance resample"""
-- 
2.43.0


From dd6cbee2a5daad7f384e483a4706e9fac60ecc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:14 +0000
Subject: [PATCH 096/105] fix: particle filter failed with a velocity noise
 model per axis

The summary of the settings read the model common to all axes.
---
 src/auv_nav/localisation/pf.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 3cf1eb2..23137a4 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -462,11 +462,14 @@ def run_particle_filter(
     """
     Console.info("Running Particle Filter with:")
     Console.info("\t* Number of particles: {}".format(num_particles))
-    Console.info(
-        "\t* DVL noise std: f(x)={}x+{} m/s".format(
-            sensors_std["speed"]["factor"], sensors_std["speed"]["offset"]
+    for axis in ("_x", "_y", "_z") if "factor_x" in sensors_std["speed"] else ("",):
+        Console.info(
+            "\t* DVL noise std{}: f(x)={}x+{} m/s".format(
+                axis,
+                sensors_std["speed"]["factor" + axis],
+                sensors_std["speed"]["offset" + axis],
+            )
         )
-    )
     Console.info(
         "\t* IMU noise std: f(x)={}x+{} deg".format(
             sensors_std["orientation"]["factor"],
-- 
2.43.0


From 3f7e73cf43cc06fb43902001c03e5885f287ed59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:43 +0000
Subject: [PATCH 097/105] fix: particles jumped to the surface for a USBL fix
 at the time of the first state

No movement had been set then, so the fix was compared with particles at
depth zero and the track began with a pose of zeros.
---
 src/auv_nav/localisation/pf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 23137a4..43c36f1 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -499,6 +499,8 @@ def run_particle_filter(
 
     pf = ParticleFilter(num_particles, mm, om, expected_iterations=len(dr_list))
     pf.set_prior(prior)
+    # A USBL fix may have the time of the first DR state
+    pf.set_movement(dr_list[dr_idx])
 
     last_t = dr_list[dr_idx].epoch_timestamp
 
-- 
2.43.0


From fb75ce754fdeb4fb00ebfbe51a534debe9f1df98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:12 +0000
Subject: [PATCH 098/105] fix: acfr_to_oplab failed on laser records of the
 BioCam format

---
 src/auv_nav/convert.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/convert.py b/src/auv_nav/convert.py
index 2c7bde2..8f0fd62 100644
--- a/src/auv_nav/convert.py
+++ b/src/auv_nav/convert.py
@@ -202,8 +202,11 @@ def acfr_to_oplab(args):
                     and epoch_timestamp <= epoch_finish_time
                 ):
                     if "laser" in parsed_json_data[i]["category"]:
-                        filename = parsed_json_data[i]["filename"]
-                        c3_interp = interpolate_camera(epoch_timestamp, cam1, filename)
+                        laser = Camera()
+                        laser.from_json(parsed_json_data[i], "camera3")
+                        c3_interp = interpolate_camera(
+                            epoch_timestamp, cam1, laser.filename
+                        )
                         fileout3.write(c3_interp.to_csv_row())
             Console.info("Done! Laser file available at", str(file3))
 
-- 
2.43.0


From 076432397edb6426f15b4dca009866c642d011b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:12 +0000
Subject: [PATCH 099/105] fix: process() lost the time and name of BioCam laser
 images

---
 src/auv_nav/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 5c1b237..c0b6fa7 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -498,7 +498,7 @@ def process(
 
             if "laser" in parsed_json_data[i]["category"]:
                 camera3 = Camera()
-                camera3.from_json(parsed_json_data[i], "camera1")
+                camera3.from_json(parsed_json_data[i], "camera3")
                 camera3_list.append(camera3)
 
     camera1_dr_list = copy.deepcopy(camera1_list)
-- 
2.43.0


From 3ad05eca20e33c47ac0d7f7d30e2f71ac7ea9052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 100/105] fix: calibrate the second stereo pair from the
 processed images of both cameras

---
 src/auv_cal/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auv_cal/calibration.py b/src/auv_cal/calibration.py
index d1b04c2..33de1fd 100644
--- a/src/auv_cal/calibration.py
+++ b/src/auv_cal/calibration.py
@@ -481,7 +481,8 @@ class Calibrator:
             left_extension = str(c0["camera_calibration"]["glob_pattern"])
             right_name = c2["name"]
             right_filepaths = build_filepath(
-                self.filepath, c2["camera_calibration"]["path"]
+                get_processed_folder(self.filepath),
+                c2["camera_calibration"]["path"],
             )
             right_extension = str(c2["camera_calibration"]["glob_pattern"])
             left_calibration_file = self.output_path / str(
-- 
2.43.0


From f2b743930961e7ed75410bec597174256d9e26e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 101/105] fix: keep the reversed calibration of the second
 stereo pair unless forced

---
 src/auv_cal/calibration.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/auv_cal/calibration.py b/src/auv_cal/calibration.py
index 33de1fd..8199180 100644
--- a/src/auv_cal/calibration.py
+++ b/src/auv_cal/calibration.py
@@ -539,6 +539,15 @@ class Calibrator:
             calibration_file = self.output_path / str(
                 "stereo_" + c2["name"] + "_" + c0["name"] + self.suffix + ".yaml"
             )
+            if calibration_file.exists() and not self.fo:
+                Console.quit(
+                    "The stereo pair "
+                    + c2["name"]
+                    + "_"
+                    + c0["name"]
+                    + " has already been calibrated. If you want to overwrite "
+                    + "the calibration, use the -F flag."
+                )
 
             calibrate_stereo(
                 right_name,
-- 
2.43.0


From 1acd9a3a924f057b32d8f29430319247835f52e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 102/105] fix: keep an existing bottom laser calibration unless
 forced

---
 src/auv_cal/calibration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auv_cal/calibration.py b/src/auv_cal/calibration.py
index 8199180..c3cfa32 100644
--- a/src/auv_cal/calibration.py
+++ b/src/auv_cal/calibration.py
@@ -591,7 +591,9 @@ class Calibrator:
             "laser_calibration_bottom_" + main_camera_name + self.suffix + ".yaml"
         )
         Console.info("Looking for a calibration file at " + str(calibration_file))
-        if calibration_file.exists() and not self.fo:
+        if (
+            calibration_file.exists() or calibration_file_b.exists()
+        ) and not self.fo:
             Console.quit(
                 "The laser planes from cameras "
                 + c1["name"]
-- 
2.43.0


From 0b7509ab3a7c54b8aad5456b973f7b887686d683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 103/105] fix: phins measurements without a valid time were
 stored with the time of the next cycle

---
 src/auv_nav/parsers/parse_phins.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/auv_nav/parsers/parse_phins.py b/src/auv_nav/parsers/parse_phins.py
index 2965641..d86a150 100644
--- a/src/auv_nav/parsers/parse_phins.py
+++ b/src/auv_nav/parsers/parse_phins.py
@@ -184,6 +184,12 @@ class PhinsParser:
         data = None
         if header == PhinsHeaders.TIME:
             epoch_timestamp = self.timestamp.epoch_timestamp_from_phins(line)
+            if self.inertial_velocity.epoch_timestamp is None:
+                # The time of the measurements read so far is unknown, so they must
+                # not be exported with the time of the ones that follow
+                self.inertial_velocity.clear()
+                self.orientation.clear()
+                self.altitude.clear()
             self.set_timestamp(epoch_timestamp)
 
         if self.category == Category.VELOCITY:
-- 
2.43.0


From 70ef23171db150b63e60a3ad36196f8261073b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 104/105] fix: phins attitude mixed the roll and pitch of one
 cycle with the heading of the next after a lost heading

---
 src/auv_nav/sensors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index f63d0b9..484275d 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -706,6 +706,9 @@ class Orientation(OutputFormat):
     def from_phins(self, line):
         self.sensor_string = "phins"
         if line[0] == PhinsHeaders.HEADING:
+            # A heading starts a new attitude: roll and pitch left from a cycle whose
+            # heading was lost must not be combined with it
+            self.clear()
             # phins +ve clockwise so no need to change
             self.yaw = float(line[1])
 
-- 
2.43.0


From 8815e3c59b878691440adb8172ad78f37c1d9247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:51 +0000
Subject: [PATCH 105/105] fix: give every image of the same time its filtered
 pose

update_camera_list moved past a filter state once one image had used it, so
further images of a camera with that time (bursts, or names with a resolution
of one second) were left out of the filtered poses.
---
 src/auv_nav/localisation/ekf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index 6e8517b..3401d87 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -1168,6 +1168,6 @@ def update_camera_list(
             )
             c.filename = camera_list[c_idx].filename
             valid_camera_list.append(c)
+            # The next image may have the same time
             c_idx += 1
-            ekf_idx += 1
     return valid_camera_list
-- 
2.43.0

