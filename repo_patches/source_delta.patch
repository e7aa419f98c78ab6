From 47c3391b7d7142f332a855c8e85c9e164994c3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 01/52] fix: rotate into the rectangle frame in
 point_in_rotated_rectangle

The point was rotated by +angle instead of -angle, so that rotated rectangles
were tested with a mirrored orientation and collisions were missed or invented.
---
 highway_env/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index 0ef7112..4edca4a 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -64,7 +64,7 @@ def point_in_rotated_rectangle(point: np.ndarray, center: np.ndarray, length: fl
     :return: is the point inside the rectangle
     """
     c, s = np.cos(angle), np.sin(angle)
-    r = np.array([[c, -s], [s, c]])
+    r = np.array([[c, s], [-s, c]])  # from the world frame to the rectangle frame
     ru = r.dot(point - center)
     return point_in_rectangle(ru, (-length/2, -width/2), (length/2, width/2))
 
-- 
2.43.0


From 9312b4438af8b0abe93d8bf17de30c8e442d2bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 02/52] fix: detect rectangles that cross without any corner
 inside the other

Testing the corners, mid-points and centres misses overlaps such as two
vehicles meeting at a right angle with an offset of 1.1 m on both axes.
---
 highway_env/utils.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index 4edca4a..bc8f4fa 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -95,7 +95,30 @@ def rotated_rectangles_intersect(rect1: Tuple[Vector, float, float, float],
     :param rect2: (center, length, width, angle)
     :return: do they?
     """
-    return has_corner_inside(rect1, rect2) or has_corner_inside(rect2, rect1)
+    return has_corner_inside(rect1, rect2) or has_corner_inside(rect2, rect1) \
+        or not (has_separating_axis(rect1, rect2) or has_separating_axis(rect2, rect1))
+
+
+def has_separating_axis(rect1: Tuple[Vector, float, float, float],
+                        rect2: Tuple[Vector, float, float, float]) -> bool:
+    """
+    Check if one of the axes of rect1 separates it from rect2
+
+    Two rectangles can cross without any corner of one being inside the other: they are disjoint if and only if they
+    are separated along an axis of rect1 or rect2.
+
+    :param rect1: (center, length, width, angle)
+    :param rect2: (center, length, width, angle)
+    """
+    (c1, l1, w1, a1) = rect1
+    (c2, l2, w2, a2) = rect2
+    delta = np.array(c2) - np.array(c1)
+    for angle, half_size in [(a1, l1 / 2), (a1 + np.pi / 2, w1 / 2)]:
+        distance = abs(np.cos(angle) * delta[0] + np.sin(angle) * delta[1])
+        extent = l2 / 2 * abs(np.cos(a2 - angle)) + w2 / 2 * abs(np.sin(a2 - angle))
+        if distance > half_size + extent:
+            return True
+    return False
 
 
 def has_corner_inside(rect1: Tuple[Vector, float, float, float],
-- 
2.43.0


From f68170a9226981564a37dc7960e15b307cbd0249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 03/52] fix: close_vehicles_to returned every vehicle when
 asked for none

A Kinematics observation with vehicles_count=1 then had as many rows as there
are close vehicles instead of one.
---
 highway_env/road/road.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/road.py b/highway_env/road/road.py
index dcc3fbc..2e56e3f 100644
--- a/highway_env/road/road.py
+++ b/highway_env/road/road.py
@@ -263,7 +263,7 @@ class Road(object):
                     and (see_behind or -2 * vehicle.LENGTH < vehicle.lane_distance_to(v))]
 
         vehicles = sorted(vehicles, key=lambda v: abs(vehicle.lane_distance_to(v)))
-        if count:
+        if count is not None:
             vehicles = vehicles[:count]
         return vehicles
 
-- 
2.43.0


From 82a23bb9a5f4e5542a54cd461317c22dbe6f75e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 04/52] fix: set_vehicle_field must not modify the ego-vehicle
 of the copy

The vehicles of the copy were compared with the ego-vehicle of the original.
---
 highway_env/envs/common/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index ccbcf9a..35e37fd 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -360,7 +360,7 @@ class AbstractEnv(gym.Env):
         field, value = args
         env_copy = copy.deepcopy(self)
         for v in env_copy.road.vehicles:
-            if v is not self.vehicle:
+            if v is not env_copy.vehicle:
                 setattr(v, field, value)
         return env_copy
 
-- 
2.43.0


From cbbebd724ab3de86f75d6069d78340b06e0fe532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 05/52] fix: set_preferred_lane ignored lane 0 and failed
 without a route

Lane 0 was read as 'no preference', both when setting and when following the
preference, and vehicles without a planned route raised a TypeError.
---
 highway_env/envs/common/abstract.py | 4 ++--
 highway_env/vehicle/behavior.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 35e37fd..0288158 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -341,10 +341,10 @@ class AbstractEnv(gym.Env):
 
     def set_preferred_lane(self, preferred_lane: int = None) -> 'AbstractEnv':
         env_copy = copy.deepcopy(self)
-        if preferred_lane:
+        if preferred_lane is not None:
             for v in env_copy.road.vehicles:
                 if isinstance(v, IDMVehicle):
-                    v.route = [(lane[0], lane[1], preferred_lane) for lane in v.route]
+                    v.route = [(lane[0], lane[1], preferred_lane) for lane in v.route or [v.lane_index]]
                     # Vehicle with lane preference are also less cautious
                     v.LANE_CHANGE_MAX_BRAKING_IMPOSED = 1000
         return env_copy
diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index 122c82e..86b6c01 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -249,7 +249,7 @@ class IDMVehicle(ControlledVehicle):
         # Do I have a planned route for a specific lane which is safe for me to access?
         old_preceding, old_following = self.road.neighbour_vehicles(self)
         self_pred_a = self.acceleration(ego_vehicle=self, front_vehicle=new_preceding)
-        if self.route and self.route[0][2]:
+        if self.route and self.route[0][2] is not None:
             # Wrong direction
             if np.sign(lane_index[2] - self.target_lane_index[2]) != np.sign(self.route[0][2] - self.target_lane_index[2]):
                 return False
-- 
2.43.0


From 897872e262eb3ecc4172f1784244df629e0d692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 06/52] fix: clip reverse overspeed towards -MAX_SPEED

Beyond -MAX_SPEED the vehicle was accelerated towards +MAX_SPEED.
---
 highway_env/vehicle/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/kinematics.py b/highway_env/vehicle/kinematics.py
index 22f81ed..01ebc5d 100644
--- a/highway_env/vehicle/kinematics.py
+++ b/highway_env/vehicle/kinematics.py
@@ -146,7 +146,7 @@ class Vehicle(object):
         if self.speed > self.MAX_SPEED:
             self.action['acceleration'] = min(self.action['acceleration'], 1.0 * (self.MAX_SPEED - self.speed))
         elif self.speed < -self.MAX_SPEED:
-            self.action['acceleration'] = max(self.action['acceleration'], 1.0 * (self.MAX_SPEED - self.speed))
+            self.action['acceleration'] = max(self.action['acceleration'], 1.0 * (-self.MAX_SPEED - self.speed))
 
     def on_state_update(self) -> None:
         if self.road:
-- 
2.43.0


From 6cdbc4fe6e3b5ba83fab9c8f3bb2ae200b7f6c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 07/52] fix: keep a target speed of zero when creating a
 controlled vehicle

A stopped or yielding vehicle recreated with create_from (change_vehicles)
would otherwise forget to stop.
---
 highway_env/vehicle/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index fdbc86c..81807a7 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -38,7 +38,7 @@ class ControlledVehicle(Vehicle):
                  route: Route = None):
         super().__init__(road, position, heading, speed)
         self.target_lane_index = target_lane_index or self.lane_index
-        self.target_speed = target_speed or self.speed
+        self.target_speed = target_speed if target_speed is not None else self.speed
         self.route = route
 
     @classmethod
-- 
2.43.0


From 7b0d53e889df47873af129fa312148b2314f4885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 08/52] fix: keep a lane change timer of zero when creating an
 IDM vehicle

---
 highway_env/vehicle/behavior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index 86b6c01..f69c78a 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -55,7 +55,7 @@ class IDMVehicle(ControlledVehicle):
                  timer: float = None):
         super().__init__(road, position, heading, speed, target_lane_index, target_speed, route)
         self.enable_lane_change = enable_lane_change
-        self.timer = timer or (np.sum(self.position)*np.pi) % self.LANE_CHANGE_DELAY
+        self.timer = timer if timer is not None else (np.sum(self.position)*np.pi) % self.LANE_CHANGE_DELAY
 
     def randomize_behavior(self):
         pass
-- 
2.43.0


From 8866759ccaaca7f545e0c6a689be39c194a30fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 09/52] fix: explore the road network in a deterministic order

The path chosen among several shortest ones depended on the hash seed of the
process, and so did seeded episodes.
---
 highway_env/road/road.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/road.py b/highway_env/road/road.py
index 2e56e3f..92c80e2 100644
--- a/highway_env/road/road.py
+++ b/highway_env/road/road.py
@@ -121,7 +121,7 @@ class RoadNetwork(object):
             (node, path) = queue.pop(0)
             if node not in self.graph:
                 yield []
-            for _next in set(self.graph[node].keys()) - set(path):
+            for _next in sorted(self.graph[node].keys() - set(path)):
                 if _next == goal:
                     yield path + [_next]
                 elif _next in self.graph:
-- 
2.43.0


From b627011376f3691626732dc31c9148679989d80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 10/52] fix: make_on_lane gave the lane heading as the speed of
 road objects

---
 highway_env/road/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/objects.py b/highway_env/road/objects.py
index 146e6bd..55f291f 100644
--- a/highway_env/road/objects.py
+++ b/highway_env/road/objects.py
@@ -43,7 +43,7 @@ class RoadObject(ABC):
         :return: An object with at the specified position
         """
         lane = road.network.get_lane(lane_index)
-        return cls(road, lane.position(longitudinal, 0), lane.heading_at(longitudinal))
+        return cls(road, lane.position(longitudinal, 0), heading=lane.heading_at(longitudinal))
 
     # Just added for sake of compatibility
     def to_dict(self, origin_vehicle=None, observe_intentions=True):
-- 
2.43.0


From 3f4502383954d0083b21d8723cc48492109b6f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 11/52] fix: remove every vehicle close to the ego-vehicle in
 IntersectionEnv

Removing from the list being iterated over skips the next vehicle.
---
 highway_env/envs/intersection_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/intersection_env.py b/highway_env/envs/intersection_env.py
index 5e54e2a..832bcb3 100644
--- a/highway_env/envs/intersection_env.py
+++ b/highway_env/envs/intersection_env.py
@@ -194,7 +194,7 @@ class IntersectionEnv(AbstractEnv):
 
             self.road.vehicles.append(ego_vehicle)
             self.controlled_vehicles.append(ego_vehicle)
-            for v in self.road.vehicles:  # Prevent early collisions
+            for v in self.road.vehicles[:]:  # Prevent early collisions
                 if v is not ego_vehicle and np.linalg.norm(v.position - ego_vehicle.position) < 20:
                     self.road.vehicles.remove(v)
 
-- 
2.43.0


From 0e9f8846fa45d8b36fe970a8df490cf69aa5ea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 12/52] fix: remove every vehicle close to the ego-vehicle in
 SummonEnv

Removing from the list being iterated over skips the next vehicle.
---
 highway_env/envs/summon_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/summon_env.py b/highway_env/envs/summon_env.py
index 08afc8e..d17ec1a 100644
--- a/highway_env/envs/summon_env.py
+++ b/highway_env/envs/summon_env.py
@@ -98,7 +98,7 @@ class SummonEnv(ParkingEnv):
                 lane = ("a", "b", i) if self.np_random.rand() >= 0.5 else ("b", "c", i)
                 self.road.vehicles.append(Vehicle.make_on_lane(self.road, lane, 4, speed=0))
 
-        for v in self.road.vehicles:  # Prevent early collisions
+        for v in self.road.vehicles[:]:  # Prevent early collisions
             if v is not self.vehicle and np.linalg.norm(v.position - self.vehicle.position) < 20:
                 self.road.vehicles.remove(v)
 
-- 
2.43.0


From ecc2912a390074b8fd09e87da8101949652e1daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 13/52] fix: size the time-to-collision grid from the
 observer's road

Another observer than the first controlled vehicle may be on a road with a
different number of lanes.
---
 highway_env/envs/common/finite_mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/finite_mdp.py b/highway_env/envs/common/finite_mdp.py
index 938e9ac..6c9e273 100644
--- a/highway_env/envs/common/finite_mdp.py
+++ b/highway_env/envs/common/finite_mdp.py
@@ -95,7 +95,7 @@ def compute_ttc_grid(env: 'AbstractEnv',
     :return: the time-co-collision grid, with axes SPEED x LANES x TIME
     """
     vehicle = vehicle or env.vehicle
-    road_lanes = env.road.network.all_side_lanes(env.vehicle.lane_index)
+    road_lanes = env.road.network.all_side_lanes(vehicle.lane_index)
     grid = np.zeros((vehicle.SPEED_COUNT, len(road_lanes), int(horizon / time_quantization)))
     for speed_index in range(grid.shape[0]):
         ego_speed = vehicle.index_to_speed(speed_index)
-- 
2.43.0


From e729acaee1244f8252f19cec194e932da38df883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 14/52] fix: make HighwayEnv.default_config a class method like
 its parent's

---
 highway_env/envs/highway_env.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/highway_env.py b/highway_env/envs/highway_env.py
index b723ddd..1bf2a93 100644
--- a/highway_env/envs/highway_env.py
+++ b/highway_env/envs/highway_env.py
@@ -26,7 +26,8 @@ class HighwayEnv(AbstractEnv):
     LANE_CHANGE_REWARD: float = 0
     """The reward received at each lane change action."""
 
-    def default_config(self) -> dict:
+    @classmethod
+    def default_config(cls) -> dict:
         config = super().default_config()
         config.update({
             "observation": {
-- 
2.43.0


From 51c98b1d0c41d1b8b1a4c65f0a21778eb2bb398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 15/52] fix: OccupancyGrid failed without an explicit grid_step

The default step was computed but not used.
---
 highway_env/envs/common/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index db0571a..b8d6100 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -242,7 +242,7 @@ class OccupancyGridObservation(ObservationType):
         self.features = features if features is not None else self.FEATURES
         self.grid_size = np.array(grid_size) if grid_size is not None else np.array(self.GRID_SIZE)
         self.grid_step = np.array(grid_step) if grid_step is not None else np.array(self.GRID_STEP)
-        grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / grid_step), dtype=np.int)
+        grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / self.grid_step), dtype=np.int)
         self.grid = np.zeros((len(self.features), *grid_shape))
         self.features_range = features_range
         self.absolute = absolute
-- 
2.43.0


From 698137115b95f23dddf8da0fbeb329676f2bbd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 16/52] fix: shape of OccupancyGrid observations when the grid
 is not square

Cells are indexed by (y, x) but the array was allocated as (x, y), so that the
vehicles of a part of the grid were dropped and another part was never filled.
---
 highway_env/envs/common/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index b8d6100..5dee7c8 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -243,7 +243,7 @@ class OccupancyGridObservation(ObservationType):
         self.grid_size = np.array(grid_size) if grid_size is not None else np.array(self.GRID_SIZE)
         self.grid_step = np.array(grid_step) if grid_step is not None else np.array(self.GRID_STEP)
         grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / self.grid_step), dtype=np.int)
-        self.grid = np.zeros((len(self.features), *grid_shape))
+        self.grid = np.zeros((len(self.features), *grid_shape[::-1]))  # Cells are indexed by (y, x)
         self.features_range = features_range
         self.absolute = absolute
 
-- 
2.43.0


From 8fca6a7df4783a26d1b23565a2d9e71e15f2b161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 17/52] fix: vehicles just outside of an OccupancyGrid were
 seen in its first cells

Truncating towards zero maps a whole cell below the lower bound to cell 0.
---
 highway_env/envs/common/observation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index 5dee7c8..e9060fe 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -289,8 +289,8 @@ class OccupancyGridObservation(ObservationType):
                         x = utils.lmap(x, [-1, 1], [self.features_range["x"][0], self.features_range["x"][1]])
                     if "y" in self.features_range:
                         y = utils.lmap(y, [-1, 1], [self.features_range["y"][0], self.features_range["y"][1]])
-                    cell = (int((x - self.grid_size[0, 0]) / self.grid_step[0]),
-                            int((y - self.grid_size[1, 0]) / self.grid_step[1]))
+                    cell = (int(np.floor((x - self.grid_size[0, 0]) / self.grid_step[0])),
+                            int(np.floor((y - self.grid_size[1, 0]) / self.grid_step[1])))
                     if 0 <= cell[1] < self.grid.shape[-2] and 0 <= cell[0] < self.grid.shape[-1]:
                         self.grid[layer, cell[1], cell[0]] = vehicle[feature]
             # Clip
-- 
2.43.0


From fbdec2aa7154227032525b4cd24f59ee208d870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 18/52] fix: declare the actual range of grayscale observations

Pixels take values in [0, 255] but the observation space was declared in [0, 1].
---
 highway_env/envs/common/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index e9060fe..8376f15 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -69,7 +69,7 @@ class GrayscaleObservation(ObservationType):
     def space(self) -> spaces.Space:
         try:
             return spaces.Box(shape=self.shape,
-                              low=0, high=1,
+                              low=0, high=255,
                               dtype=np.float32)
         except AttributeError:
             return spaces.Space()
-- 
2.43.0


From 30a90d3a32aa7c2881200651a4e967d7eff68b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 19/52] fix: grayscale observations of non-square screens were
 scrambled

The H x W image was reshaped, not transposed, to the W x H observation shape.
---
 highway_env/envs/common/observation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index 8376f15..1a41a13 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -83,7 +83,8 @@ class GrayscaleObservation(ObservationType):
 
     def _record_to_grayscale(self) -> np.ndarray:
         #TODO: center rendering on the observer vehicle
-        raw_rgb = self.env.render('rgb_array')
+        raw_rgb = self.env.render('rgb_array')  # H x W x C
+        raw_rgb = np.moveaxis(raw_rgb, 0, 1)  # W x H x C
         return np.dot(raw_rgb[..., :3], self.config['weights'])
 
 
-- 
2.43.0


From a063615f6a3f0c28e8355f445f0506a1afd97516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 20/52] fix: make intersection-multi-agent-v1 usable

The wrapper was given the environment class instead of an environment, so that
the registered entry point could not be called, and its step returned nothing.
---
 highway_env/envs/common/abstract.py  | 1 +
 highway_env/envs/intersection_env.py | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 0288158..36ad05f 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -400,4 +400,5 @@ class MultiAgentWrapper(Wrapper):
         obs, reward, done, info = super().step(action)
         reward = info["agents_rewards"]
         done = info["agents_dones"]
+        return obs, reward, done, info
         return obs, reward, done, info
\ No newline at end of file
diff --git a/highway_env/envs/intersection_env.py b/highway_env/envs/intersection_env.py
index 832bcb3..4f925fe 100644
--- a/highway_env/envs/intersection_env.py
+++ b/highway_env/envs/intersection_env.py
@@ -262,7 +262,9 @@ class MultiAgentIntersectionEnv(IntersectionEnv):
         return config
 
 
-TupleMultiAgentIntersectionEnv = MultiAgentWrapper(MultiAgentIntersectionEnv)
+class TupleMultiAgentIntersectionEnv(MultiAgentWrapper):
+    def __init__(self) -> None:
+        super().__init__(MultiAgentIntersectionEnv())
 
 
 register(
-- 
2.43.0


From c19473a18c9ff49584e77479a238d0666c5587a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 21/52] fix: highway-v0 duration is in seconds, not in policy
 steps

As documented, and as in IntersectionEnv. Nothing changes at the default
policy frequency of 1 Hz.
---
 highway_env/envs/highway_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/highway_env.py b/highway_env/envs/highway_env.py
index 1bf2a93..2fa29f5 100644
--- a/highway_env/envs/highway_env.py
+++ b/highway_env/envs/highway_env.py
@@ -96,7 +96,7 @@ class HighwayEnv(AbstractEnv):
     def _is_terminal(self) -> bool:
         """The episode is over if the ego vehicle crashed or the time is out."""
         return self.vehicle.crashed or \
-            self.steps >= self.config["duration"] or \
+            self.steps >= self.config["duration"] * self.config["policy_frequency"] or \
             (self.config["offroad_terminal"] and not self.vehicle.on_road)
 
     def _cost(self, action: int) -> float:
-- 
2.43.0


From 0aa62140de19e1e02b518b45e87b788fbbab5b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 22/52] fix: change the coordinates of the LPV perturbation
 matrix

The perturbations were applied in the original frame to a transformed state,
so that the predicted interval did not include every trajectory.
---
 highway_env/interval.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 1f227fe..8f85204 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -220,6 +220,7 @@ class LPV(object):
         self.a0 = self.change_coordinates(self.a0, matrix=True)
         self.da = self.change_coordinates(self.da, matrix=True)
         self.b = self.change_coordinates(self.b, offset=False)
+        self.d = self.change_coordinates(self.d, offset=False)
         self.x_i_t = np.array(self.change_coordinates([x for x in self.x_i]))
 
     def set_control(self, control: np.ndarray, state: np.ndarray = None) -> None:
-- 
2.43.0


From ba0c4f81bb3763e65ef5793a6853128eb87fd865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 23/52] fix: RoundaboutEnv changed the allowed speeds of every
 other environment

The speeds were set on the MDPVehicle class, after the first ego-vehicle had
been created: the first episode differed from the next ones, and any other
environment used later in the process was affected.
---
 highway_env/envs/roundabout_env.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/highway_env/envs/roundabout_env.py b/highway_env/envs/roundabout_env.py
index 5c1fa97..8deff3a 100644
--- a/highway_env/envs/roundabout_env.py
+++ b/highway_env/envs/roundabout_env.py
@@ -138,9 +138,12 @@ class RoundaboutEnv(AbstractEnv):
             ego_vehicle.plan_route_to("nxs")
         except AttributeError:
             pass
-        MDPVehicle.SPEED_MIN = 0
-        MDPVehicle.SPEED_MAX = 16
-        MDPVehicle.SPEED_COUNT = 3
+        if isinstance(ego_vehicle, MDPVehicle):
+            ego_vehicle.SPEED_MIN = 0
+            ego_vehicle.SPEED_MAX = 16
+            ego_vehicle.SPEED_COUNT = 3
+            ego_vehicle.speed_index = ego_vehicle.speed_to_index(ego_vehicle.speed)
+            ego_vehicle.target_speed = ego_vehicle.index_to_speed(ego_vehicle.speed_index)
         self.road.vehicles.append(ego_vehicle)
         self.vehicle = ego_vehicle
 
-- 
2.43.0


From b87b6fc571a929c4973f888c6dff3f72fdd2f312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 24/52] fix: LinearVehicle failed to evaluate followers without
 a target speed

---
 highway_env/vehicle/behavior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index f69c78a..06a687e 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -358,8 +358,8 @@ class LinearVehicle(IDMVehicle):
                               front_vehicle: Vehicle = None,
                               rear_vehicle: Vehicle = None) -> np.ndarray:
         vt, dv, dp = 0, 0, 0
-        if ego_vehicle:
-            vt = ego_vehicle.target_speed - ego_vehicle.speed
+        if ego_vehicle and not isinstance(ego_vehicle, RoadObject):
+            vt = getattr(ego_vehicle, "target_speed", ego_vehicle.speed) - ego_vehicle.speed
             d_safe = self.DISTANCE_WANTED + np.maximum(ego_vehicle.speed, 0) * self.TIME_WANTED
             if front_vehicle:
                 d = ego_vehicle.lane_distance_to(front_vehicle)
-- 
2.43.0


From a1babb4d49de497f5eb56c5ad89bc9e8e9a17a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 25/52] fix: LaneKeepingEnv applied the actions of step in
 manual control

---
 highway_env/envs/lane_keeping_env.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/lane_keeping_env.py b/highway_env/envs/lane_keeping_env.py
index 89f8fee..3e3b790 100644
--- a/highway_env/envs/lane_keeping_env.py
+++ b/highway_env/envs/lane_keeping_env.py
@@ -59,7 +59,8 @@ class LaneKeepingEnv(AbstractEnv):
                                  state=self.vehicle.state[[1, 2, 4, 5]])
             self.lpv.step(1 / self.config["simulation_frequency"])
 
-        self.action_type.act(action)
+        if not self.config["manual_control"]:
+            self.action_type.act(action)
         obs = self.observation_type.observe()
         self._simulate()
 
-- 
2.43.0


From 3068728d2a2dc51a46c27d80e570fbd3457b79a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 26/52] fix: MergeEnv normalised its reward without its lane
 change term

---
 highway_env/envs/merge_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/merge_env.py b/highway_env/envs/merge_env.py
index ec637ac..ae028e9 100644
--- a/highway_env/envs/merge_env.py
+++ b/highway_env/envs/merge_env.py
@@ -50,7 +50,7 @@ class MergeEnv(AbstractEnv):
                           (vehicle.target_speed - vehicle.speed) / vehicle.target_speed
 
         return utils.lmap(action_reward[action] + reward,
-                          [self.COLLISION_REWARD + self.MERGING_SPEED_REWARD,
+                          [self.COLLISION_REWARD + self.MERGING_SPEED_REWARD + self.LANE_CHANGE_REWARD,
                             self.HIGH_SPEED_REWARD + self.RIGHT_LANE_REWARD],
                           [0, 1])
 
-- 
2.43.0


From f6a7d7e8244a09a6d2260780661c9d362a14673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 27/52] fix: KinematicObservation declared bounds that hold
 only when normalized and clipped

---
 highway_env/envs/common/observation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index 1a41a13..4c3a03c 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -160,7 +160,8 @@ class KinematicObservation(ObservationType):
         self.observe_intentions = observe_intentions
 
     def space(self) -> spaces.Space:
-        return spaces.Box(shape=(self.vehicles_count, len(self.features)), low=-1, high=1, dtype=np.float32)
+        bound = 1 if self.normalize and self.clip else np.inf
+        return spaces.Box(shape=(self.vehicles_count, len(self.features)), low=-bound, high=bound, dtype=np.float32)
 
     def normalize_obs(self, df: pd.DataFrame) -> pd.DataFrame:
         """
-- 
2.43.0


From 671a30a0166602876854a6a515cfe6173dd99137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 28/52] fix: change_vehicles failed on vehicles without target
 lane and speed

---
 highway_env/vehicle/behavior.py   | 5 +++--
 highway_env/vehicle/controller.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index 06a687e..aefc23f 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -71,8 +71,9 @@ class IDMVehicle(ControlledVehicle):
         :return: a new vehicle at the same dynamical state
         """
         v = cls(vehicle.road, vehicle.position, heading=vehicle.heading, speed=vehicle.speed,
-                target_lane_index=vehicle.target_lane_index, target_speed=vehicle.target_speed,
-                route=vehicle.route, timer=getattr(vehicle, 'timer', None))
+                target_lane_index=getattr(vehicle, 'target_lane_index', None),
+                target_speed=getattr(vehicle, 'target_speed', None),
+                route=getattr(vehicle, 'route', None), timer=getattr(vehicle, 'timer', None))
         return v
 
     def act(self, action: Union[dict, str] = None):
diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index 81807a7..fd6aaa4 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -52,8 +52,9 @@ class ControlledVehicle(Vehicle):
         :return: a new vehicle at the same dynamical state
         """
         v = cls(vehicle.road, vehicle.position, heading=vehicle.heading, speed=vehicle.speed,
-                target_lane_index=vehicle.target_lane_index, target_speed=vehicle.target_speed,
-                route=vehicle.route)
+                target_lane_index=getattr(vehicle, 'target_lane_index', None),
+                target_speed=getattr(vehicle, 'target_speed', None),
+                route=getattr(vehicle, 'route', None))
         return v
 
     def plan_route_to(self, destination: str) -> "ControlledVehicle":
-- 
2.43.0


From 0265520f380c3303771141d4a369d70315438d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 29/52] fix: destination failed for routes ending on a road
 with several lanes

---
 highway_env/vehicle/kinematics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/vehicle/kinematics.py b/highway_env/vehicle/kinematics.py
index 01ebc5d..70f1cd0 100644
--- a/highway_env/vehicle/kinematics.py
+++ b/highway_env/vehicle/kinematics.py
@@ -215,7 +215,8 @@ class Vehicle(object):
     @property
     def destination(self) -> np.ndarray:
         if getattr(self, "route", None):
-            last_lane = self.road.network.get_lane(self.route[-1])
+            _from, _to, _id = self.route[-1]  # The lane of a planned road may be unknown
+            last_lane = self.road.network.get_lane((_from, _to, _id if _id is not None else 0))
             return last_lane.position(last_lane.length, 0)
         else:
             return self.position
-- 
2.43.0


From e1f75c889ff3c71db778f898e02d3d99dc8ecab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 30/52] fix: routes at intersections kept a lane number that
 the next road does not have

---
 highway_env/vehicle/controller.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index fd6aaa4..60ed96c 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -165,9 +165,9 @@ class ControlledVehicle(Vehicle):
                 break
         else:
             return [self.route]
-        next_destinations_from = list(next_destinations.keys())
-        routes = [self.route[0:index+1] + [(self.route[index][1], destination, self.route[index][2])]
-                  for destination in next_destinations_from]
+        _, node, lane_id = self.route[index]
+        routes = [self.route[0:index+1] + [(node, destination, lane_id if lane_id is None or lane_id < len(lanes) else None)]
+                  for destination, lanes in next_destinations.items()]
         return routes
 
     def set_route_at_intersection(self, _to: int) -> None:
-- 
2.43.0


From 68db820d3b99ad779fde1cc22379f7985ea035ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 31/52] fix: regulated roads failed when simulated at less than
 the regulation frequency

---
 highway_env/road/regulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/regulation.py b/highway_env/road/regulation.py
index 0681a61..2c90dcd 100644
--- a/highway_env/road/regulation.py
+++ b/highway_env/road/regulation.py
@@ -20,7 +20,7 @@ class RegulatedRoad(Road):
 
     def step(self, dt: float) -> None:
         self.steps += 1
-        if self.steps % int(1 / dt / self.REGULATION_FREQUENCY) == 0:
+        if self.steps % max(int(1 / dt / self.REGULATION_FREQUENCY), 1) == 0:
             self.enforce_road_rules()
         return super().step(dt)
 
-- 
2.43.0


From ba0f503b7acd90c6b0d163a695586306ff46cf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 32/52] fix: interval vehicles could not act without estimation
 data

IntervalVehicle discarded the default data of LinearVehicle, so that its act()
failed as soon as it was simulated on a road.
---
 highway_env/vehicle/uncertainty/prediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index 79785a7..7b93ee7 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -56,7 +56,7 @@ class IntervalVehicle(LinearVehicle):
                          timer)
         self.theta_a_i = theta_a_i if theta_a_i is not None else LinearVehicle.ACCELERATION_RANGE
         self.theta_b_i = theta_b_i if theta_b_i is not None else LinearVehicle.STEERING_RANGE
-        self.data = data
+        self.data = data if data is not None else {}
         self.interval = VehicleInterval(self)
         self.trajectory = []
         self.interval_trajectory = []
-- 
2.43.0


From 6fb3d56375a96068132352ff2d0ab09589ef370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:46 +0000
Subject: [PATCH 33/52] fix: the interval predictor returned headings relative
 to the lane

predictor_init subtracts the heading of the lane, but predictor_step did not
add it back, so that the set of headings was wrong on every road that is not
along the x axis.
---
 highway_env/vehicle/uncertainty/prediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index 7b93ee7..58e5663 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -223,7 +223,7 @@ class IntervalVehicle(LinearVehicle):
         position_i = interval_local_to_absolute(x_i_long[:, 0], x_i_lat[:, 0], target_lane)
         self.interval.position = position_i
         self.interval.speed = x_i_long[:, 2]
-        self.interval.heading = x_i_lat[:, 1]
+        self.interval.heading = x_i_lat[:, 1] + target_lane.heading_at(x_i_long[:, 0].mean())
 
     def predictor_init(self) -> None:
         """Initialize the LPV models used for interval prediction."""
-- 
2.43.0


From 145a8251b8ee2d58aa7935115b98e1f70be2b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 34/52] fix: LPV systems without a control could not be stepped

The default control had the shape of a vector instead of the column that step()
expects, so that step() failed for every system of more than one dimension.
---
 highway_env/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 8f85204..078cc2b 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -180,7 +180,7 @@ class LPV(object):
         self.b = np.array(b) if b is not None else np.zeros((*self.x0.shape, 1))
         self.d = np.array(d) if d is not None else np.zeros((*self.x0.shape, 1))
         self.omega_i = np.array(omega_i) if omega_i is not None else np.zeros((2, 1))
-        self.u = np.array(u) if u is not None else np.zeros((1,))
+        self.u = np.array(u) if u is not None else np.zeros((self.b.shape[1], 1))
         self.k = np.array(k) if k is not None else np.zeros((self.b.shape[1], self.b.shape[0]))
         self.center = np.array(center) if center is not None else np.zeros(self.x0.shape)
 
-- 
2.43.0


From 27a922a55ca3ac7b9473c736be45dfae55b923d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:21 +0000
Subject: [PATCH 35/52] fix: transform the initial LPV state interval with
 interval arithmetic

Both bounds were transformed as vectors, which does not give an interval that
includes the initial one when the change of coordinates has negative coefficients.
---
 highway_env/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 078cc2b..b3a4d2c 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -221,7 +221,7 @@ class LPV(object):
         self.da = self.change_coordinates(self.da, matrix=True)
         self.b = self.change_coordinates(self.b, offset=False)
         self.d = self.change_coordinates(self.d, offset=False)
-        self.x_i_t = np.array(self.change_coordinates([x for x in self.x_i]))
+        self.x_i_t = self.change_coordinates(self.x_i, interval=True)
 
     def set_control(self, control: np.ndarray, state: np.ndarray = None) -> None:
         if state is not None:
-- 
2.43.0


From 382def7b13f092a5c01dd46bcc9a26ebc4255a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:21 +0000
Subject: [PATCH 36/52] fix: LPV systems that cannot be made Metzler were not
 centred

Without a change of coordinates, the states were not centred either, and the
dynamics were applied to x instead of x - center.
---
 highway_env/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index b3a4d2c..66b3529 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -213,7 +213,7 @@ class LPV(object):
                     pass
             if not self.coordinates:
                 print("Non Metzler A0 with eigenvalues: ", eig_v)
-        else:
+        if not self.coordinates:
             self.coordinates = (np.eye(a0.shape[0]), np.eye(a0.shape[0]))
 
         # Forward coordinates change of states and models
-- 
2.43.0


From a0453dd59691e6107e1aff5fea2e6b0850af0d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 37/52] fix: a rendered image always shows the current state

After a human-mode rendering, the frame was considered up to date forever
unless automatic rendering was active: images rendered after a reset, after
further steps or from a copy of the environment were outdated or blank.
---
 highway_env/envs/common/abstract.py  | 5 +++--
 highway_env/envs/intersection_env.py | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 36ad05f..5db7005 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -162,6 +162,7 @@ class AbstractEnv(gym.Env):
         self.define_spaces()  # First, to set the controlled vehicle class depending on action space
         self.time = self.steps = 0
         self.done = False
+        self.should_update_rendering = True
         self._reset()
         self.define_spaces()  # Second, to link the obs and actions to the vehicles once the scene is created
         return self.observation_type.observe()
@@ -218,6 +219,7 @@ class AbstractEnv(gym.Env):
             self.road.act()
             self.road.step(1 / self.config["simulation_frequency"])
             self.time += 1
+            self.should_update_rendering = True
 
             # Automatically render intermediate simulation steps if a viewer has been launched
             # Ignored if the rendering is done offscreen
@@ -239,6 +241,7 @@ class AbstractEnv(gym.Env):
 
         if self.viewer is None:
             self.viewer = EnvViewer(self)
+            self.should_update_rendering = True
 
         self.enable_auto_render = True
 
@@ -301,8 +304,6 @@ class AbstractEnv(gym.Env):
         such as video-recording monitor that need to access these intermediate renderings.
         """
         if self.viewer is not None and self.enable_auto_render:
-            self.should_update_rendering = True
-
             if self.automatic_rendering_callback is not None:
                 self.automatic_rendering_callback()
             else:
diff --git a/highway_env/envs/intersection_env.py b/highway_env/envs/intersection_env.py
index 4f925fe..de9a4fe 100644
--- a/highway_env/envs/intersection_env.py
+++ b/highway_env/envs/intersection_env.py
@@ -92,6 +92,7 @@ class IntersectionEnv(AbstractEnv):
         obs, reward, done, info = super().step(action)
         self._clear_vehicles()
         self._spawn_vehicle(spawn_probability=self.config["spawn_probability"])
+        self.should_update_rendering = True
         info["agents_rewards"] = tuple(self._agent_reward(action, vehicle) for vehicle in self.controlled_vehicles)
         info["agents_dones"] = tuple(self._agent_is_terminal(vehicle) for vehicle in self.controlled_vehicles)
         return obs, reward, done, info
-- 
2.43.0


From 51a94551327d480e9dedcb220e518815e7835374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 38/52] fix: displaying a planned sequence of discrete actions
 raised an AttributeError

The labels of the actions are defined by the action type, not by the environment.
---
 highway_env/envs/common/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index c64ec74..c0ec378 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -73,7 +73,7 @@ class EnvViewer(object):
         :param actions: list of action, following the env's action space specification
         """
         if isinstance(self.env.action_space, Discrete):
-            actions = [self.env.ACTIONS[a] for a in actions]
+            actions = [self.env.action_type.actions[a] for a in actions]
         if len(actions) > 1:
             self.vehicle_trajectory = self.env.vehicle.predict_trajectory(actions,
                                                                           1 / self.env.config["policy_frequency"],
-- 
2.43.0


From 323e72dd42f77eb7813d918be8fa478655f38e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:09 +0000
Subject: [PATCH 39/52] fix: collisions of long or wide vehicles could be
 missed by the pre-check

---
 highway_env/vehicle/kinematics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/vehicle/kinematics.py b/highway_env/vehicle/kinematics.py
index 70f1cd0..ec8b48d 100644
--- a/highway_env/vehicle/kinematics.py
+++ b/highway_env/vehicle/kinematics.py
@@ -198,7 +198,8 @@ class Vehicle(object):
 
     def _is_colliding(self, other):
         # Fast spherical pre-check
-        if np.linalg.norm(other.position - self.position) > self.LENGTH:
+        if np.linalg.norm(other.position - self.position) > (np.hypot(self.LENGTH, self.WIDTH)
+                                                             + np.hypot(other.LENGTH, other.WIDTH)) / 2:
             return False
         # Accurate rectangular check
         return utils.rotated_rectangles_intersect((self.position, 0.9*self.LENGTH, 0.9*self.WIDTH, self.heading),
-- 
2.43.0


From 13f2dcfae701ca47d1dae36ab89b0f7b83641a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:39 +0000
Subject: [PATCH 40/52] fix: the linear lateral model halved the yaw moment of
 the steering

The input matrix was not the one of the dynamics it linearises, whose front tyre force has a factor 2.
---
 highway_env/vehicle/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/dynamics.py b/highway_env/vehicle/dynamics.py
index 455d096..288153a 100644
--- a/highway_env/vehicle/dynamics.py
+++ b/highway_env/vehicle/dynamics.py
@@ -113,7 +113,7 @@ class BicycleVehicle(Vehicle):
         """
         B = np.array([
             [2*self.FRICTION_FRONT / self.MASS],
-            [self.FRICTION_FRONT * self.LENGTH_A / self.INERTIA_Z]
+            [2*self.FRICTION_FRONT * self.LENGTH_A / self.INERTIA_Z]
         ])
 
         speed_body_x = self.speed
-- 
2.43.0


From 7ccc185460196b448eb7103dd33421ea72f364dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:57 +0000
Subject: [PATCH 41/52] fix: pressing the up key failed when lane changes are
 disabled

---
 highway_env/envs/common/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index c0ec378..2b9ecd4 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -174,7 +174,7 @@ class EventHandler(object):
                 action_type.act(action_type.actions_indexes["SLOWER"])
             if event.key == pygame.K_DOWN and action_type.lateral:
                 action_type.act(action_type.actions_indexes["LANE_RIGHT"])
-            if event.key == pygame.K_UP:
+            if event.key == pygame.K_UP and action_type.lateral:
                 action_type.act(action_type.actions_indexes["LANE_LEFT"])
 
     @classmethod
-- 
2.43.0


From 20c45191bf3b9cd94718f0bac72d1b52d298448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:57 +0000
Subject: [PATCH 42/52] fix: moving the view changed the configuration of the
 environment

---
 highway_env/envs/common/graphics.py | 3 ++-
 highway_env/road/graphics.py        | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index 2b9ecd4..acc7460 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -34,7 +34,8 @@ class EnvViewer(object):
             self.screen = pygame.display.set_mode([self.env.config["screen_width"], self.env.config["screen_height"]])
         self.sim_surface = WorldSurface(panel_size, 0, pygame.Surface(panel_size))
         self.sim_surface.scaling = env.config.get("scaling", self.sim_surface.INITIAL_SCALING)
-        self.sim_surface.centering_position = env.config.get("centering_position", self.sim_surface.INITIAL_CENTERING)
+        self.sim_surface.centering_position = list(env.config.get("centering_position",
+                                                                  self.sim_surface.INITIAL_CENTERING))
         self.clock = pygame.time.Clock()
 
         self.enabled = True
diff --git a/highway_env/road/graphics.py b/highway_env/road/graphics.py
index 85de007..aac1e05 100644
--- a/highway_env/road/graphics.py
+++ b/highway_env/road/graphics.py
@@ -33,7 +33,7 @@ class WorldSurface(pygame.Surface):
         super().__init__(size, flags, surf)
         self.origin = np.array([0, 0])
         self.scaling = self.INITIAL_SCALING
-        self.centering_position = self.INITIAL_CENTERING
+        self.centering_position = list(self.INITIAL_CENTERING)
 
     def pix(self, length: float) -> int:
         """
-- 
2.43.0


From 4cf6298b066369d0206b2191afa947605129c11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:13 +0000
Subject: [PATCH 43/52] fix: closing the window while an image was rendered
 raised an AttributeError

---
 highway_env/envs/common/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 5db7005..1c0d849 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -249,10 +249,11 @@ class AbstractEnv(gym.Env):
         if self.should_update_rendering:
             self.viewer.display()
 
+        # The window may be closed while handling events
+        image = self.viewer.get_image() if mode == 'rgb_array' else None
         if not self.viewer.offscreen:
             self.viewer.handle_events()
         if mode == 'rgb_array':
-            image = self.viewer.get_image()
             return image
         self.should_update_rendering = False
 
-- 
2.43.0


From 7d272db0be906930e8733ba58c6dc556f5ba1aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:07 +0000
Subject: [PATCH 44/52] fix: trajectories predicted at the end of a lane
 started from the wrong position

---
 highway_env/vehicle/controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index 60ed96c..1b25922 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -192,8 +192,9 @@ class ControlledVehicle(Vehicle):
         :param times: timesteps of prediction
         :return: positions, headings
         """
-        coordinates = self.lane.local_coordinates(self.position)
         route = self.route or [self.lane_index]
+        # The route starts on the next lane slightly before the vehicle leaves the current one
+        coordinates = self.road.network.get_lane(route[0]).local_coordinates(self.position)
         return tuple(zip(*[self.road.network.position_heading_along_route(route, coordinates[0] + self.speed * t, 0)
                      for t in times]))
 
-- 
2.43.0


From 3c66fa1b443ac499c54c10ad66bacaf1e544e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:36 +0000
Subject: [PATCH 45/52] fix: predicting a trajectory saved more often than
 simulated divided by zero

---
 highway_env/vehicle/controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index 1b25922..03485d1 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -290,12 +290,13 @@ class MDPVehicle(ControlledVehicle):
         states = []
         v = copy.deepcopy(self)
         t = 0
+        save_period = max(int(trajectory_timestep / dt), 1)
         for action in actions:
             v.act(action)  # High-level decision
             for _ in range(int(action_duration / dt)):
                 t += 1
                 v.act()  # Low-level control action
                 v.step(dt)
-                if (t % int(trajectory_timestep / dt)) == 0:
+                if (t % save_period) == 0:
                     states.append(copy.deepcopy(v))
         return states
-- 
2.43.0


From 9f77c9f76a41d02144a9dbf1dc45780628c34ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:43 +0000
Subject: [PATCH 46/52] fix: confidence polytopes were rotated and scaled
 differently from the confidence ellipsoid

---
 highway_env/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index bc8f4fa..b07cb00 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -176,8 +176,8 @@ def confidence_polytope(data: dict, parameter_box: np.ndarray) -> Tuple[np.ndarr
     param_bound = np.amax(np.abs(parameter_box))
     theta_n_lambda, g_n_lambda, beta_n = confidence_ellipsoid(data, param_bound=param_bound)
 
-    values, pp = np.linalg.eig(g_n_lambda)
-    radius_matrix = np.sqrt(beta_n) * np.linalg.inv(pp) @ np.diag(np.sqrt(1 / values))
+    values, pp = np.linalg.eigh(g_n_lambda)
+    radius_matrix = beta_n * pp @ np.diag(np.sqrt(1 / values))
     h = np.array(list(itertools.product([-1, 1], repeat=theta_n_lambda.shape[0])))
     d_theta = np.array([radius_matrix @ h_k for h_k in h])
 
-- 
2.43.0


From 72d3211a77e33539100fba7938e22134388a96c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:54 +0000
Subject: [PATCH 47/52] fix: restricting a confidence polytope to the parameter
 box lost parameters of the confidence region

---
 highway_env/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index b07cb00..581c4ed 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -181,10 +181,14 @@ def confidence_polytope(data: dict, parameter_box: np.ndarray) -> Tuple[np.ndarr
     h = np.array(list(itertools.product([-1, 1], repeat=theta_n_lambda.shape[0])))
     d_theta = np.array([radius_matrix @ h_k for h_k in h])
 
-    # Clip the parameter and confidence region within the prior parameter box.
+    # Restrict the parameter and confidence region to the prior parameter box. If a vertex is outside of the box, the
+    # others cannot be kept: take the smallest box that contains the points of the region inside the prior box.
+    vertices = theta_n_lambda + d_theta
     theta_n_lambda = np.clip(theta_n_lambda, parameter_box[0], parameter_box[1])
-    for k, _ in enumerate(d_theta):
-        d_theta[k] = np.clip(d_theta[k], parameter_box[0] - theta_n_lambda, parameter_box[1] - theta_n_lambda)
+    if np.any(vertices != np.clip(vertices, parameter_box[0], parameter_box[1])):
+        bounds = np.clip([vertices.min(axis=0), vertices.max(axis=0)], parameter_box[0], parameter_box[1])
+        vertices = np.array(list(itertools.product(*np.transpose(bounds))))
+    d_theta = vertices - theta_n_lambda
     return theta_n_lambda, d_theta, g_n_lambda, beta_n
 
 
-- 
2.43.0


From 0020d06e60e66dd5f5474804dfbee0be572d59e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:25 +0000
Subject: [PATCH 48/52] fix: a possible route followed until its end raised an
 IndexError

---
 highway_env/vehicle/uncertainty/estimation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index ec6a504..be23844 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -83,6 +83,8 @@ class MultipleModelVehicle(LinearVehicle):
         for route, _ in self.data:
             if self.road.network.get_lane(route[0]).after_end(self.position):
                 route.pop(0)
+        # Forget the routes that have been followed until their end
+        self.data = [(route, data) for route, data in self.data if route]
 
         # Reject inconsistent hypotheses
         for route, data in self.data.copy():
-- 
2.43.0


From 78e3669eccf36fed7cce3a25ae326d6b908d9e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:25 +0000
Subject: [PATCH 49/52] fix: estimating the possible routes of a vehicle
 changed its planned route

---
 highway_env/vehicle/uncertainty/estimation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index be23844..ad4ed62 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -67,8 +67,7 @@ class MultipleModelVehicle(LinearVehicle):
 
         for route in self.get_routes_at_intersection():  # Candidates
             # Unknown lane -> first lane
-            for i, lane_index in enumerate(route):
-                route[i] = lane_index if lane_index[2] is not None else (lane_index[0], lane_index[1], 0)
+            route = [(_from, _to, _id if _id is not None else 0) for _from, _to, _id in route]
             # Is this route already considered, or a suffix of a route already considered ?
             for known_route, _ in self.data:
                 if known_route == route:
-- 
2.43.0


From a8cef6adc15758032d6cae4d38494ee658a2af18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:25 +0000
Subject: [PATCH 50/52] fix: a vehicle assumed to follow a possible route
 shared it with the original vehicle

---
 highway_env/vehicle/uncertainty/estimation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index ad4ed62..c496716 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -1,3 +1,4 @@
+import copy
 from typing import Callable, Union
 
 import numpy as np
@@ -104,6 +105,6 @@ class MultipleModelVehicle(LinearVehicle):
         route, data = self.data[index]
         vehicle = RegressionVehicle.create_from(self)
         vehicle.target_lane_index = route[0]
-        vehicle.route = route
-        vehicle.data = data
+        vehicle.route = route.copy()
+        vehicle.data = copy.deepcopy(data)
         return vehicle
-- 
2.43.0


From 816d76226c271b9f2878089df60d45c69b94c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:58 +0000
Subject: [PATCH 51/52] fix: possible routes which became identical shared a
 list and were stepped twice

---
 highway_env/vehicle/uncertainty/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index c496716..b478002 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -74,7 +74,7 @@ class MultipleModelVehicle(LinearVehicle):
                 if known_route == route:
                     break
                 elif len(known_route) < len(route) and route[:len(known_route)] == known_route:
-                    self.data = [(r, d) if r != known_route else (route, d) for r, d in self.data]
+                    self.data = [(r, d) if r != known_route else (route.copy(), d) for r, d in self.data]
                     break
             else:
                 self.data.append((route.copy(), {}))  # Add it
-- 
2.43.0


From ff4c8e8a254c2f8fb13abf9d0bc7a3173612001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:27 +0000
Subject: [PATCH 52/52] fix: roundabout-v0 took continuous actions for lane
 changes, or failed

---
 highway_env/envs/roundabout_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/roundabout_env.py b/highway_env/envs/roundabout_env.py
index 8deff3a..97e046f 100644
--- a/highway_env/envs/roundabout_env.py
+++ b/highway_env/envs/roundabout_env.py
@@ -38,7 +38,7 @@ class RoundaboutEnv(AbstractEnv):
         return config
 
     def _reward(self, action: int) -> float:
-        lane_change = action == 0 or action == 2
+        lane_change = np.ndim(action) == 0 and (action == 0 or action == 2)
         reward = self.COLLISION_REWARD * self.vehicle.crashed \
                  + self.HIGH_SPEED_REWARD * MDPVehicle.get_speed_index(self.vehicle) / max(MDPVehicle.SPEED_COUNT - 1, 1) \
                  + self.LANE_CHANGE_REWARD * lane_change
-- 
2.43.0

