From 62fbc5fce512ca5c51459cf34dbadfb73c913336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 01/31] fix: iterate over successors in graph order in
 bfs_paths

---
 highway_env/road/road.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/road.py b/highway_env/road/road.py
index dcc3fbc..a4081ad 100644
--- a/highway_env/road/road.py
+++ b/highway_env/road/road.py
@@ -121,7 +121,7 @@ class RoadNetwork(object):
             (node, path) = queue.pop(0)
             if node not in self.graph:
                 yield []
-            for _next in set(self.graph[node].keys()) - set(path):
+            for _next in [n for n in self.graph[node].keys() if n not in path]:
                 if _next == goal:
                     yield path + [_next]
                 elif _next in self.graph:
-- 
2.43.0


From 6f3e67bcbfd84de4c9f2a810f531f957563df4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 02/31] fix: apply vehicles_count when no other vehicle is to
 be observed

---
 highway_env/road/road.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/road.py b/highway_env/road/road.py
index a4081ad..a31a79e 100644
--- a/highway_env/road/road.py
+++ b/highway_env/road/road.py
@@ -263,7 +263,7 @@ class Road(object):
                     and (see_behind or -2 * vehicle.LENGTH < vehicle.lane_distance_to(v))]
 
         vehicles = sorted(vehicles, key=lambda v: abs(vehicle.lane_distance_to(v)))
-        if count:
+        if count is not None:
             vehicles = vehicles[:count]
         return vehicles
 
-- 
2.43.0


From 06662cb0c3ff2b94f26d6bfb5d4a6a090aefa569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 03/31] fix: set the roundabout speed range on the ego-vehicle,
 not on MDPVehicle

---
 highway_env/envs/roundabout_env.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/highway_env/envs/roundabout_env.py b/highway_env/envs/roundabout_env.py
index 5c1fa97..7d0b2ec 100644
--- a/highway_env/envs/roundabout_env.py
+++ b/highway_env/envs/roundabout_env.py
@@ -39,8 +39,10 @@ class RoundaboutEnv(AbstractEnv):
 
     def _reward(self, action: int) -> float:
         lane_change = action == 0 or action == 2
+        speed_index = self.vehicle.speed_index if isinstance(self.vehicle, MDPVehicle) \
+            else MDPVehicle.speed_to_index(self.vehicle, self.vehicle.speed)
         reward = self.COLLISION_REWARD * self.vehicle.crashed \
-                 + self.HIGH_SPEED_REWARD * MDPVehicle.get_speed_index(self.vehicle) / max(MDPVehicle.SPEED_COUNT - 1, 1) \
+                 + self.HIGH_SPEED_REWARD * speed_index / max(self.vehicle.SPEED_COUNT - 1, 1) \
                  + self.LANE_CHANGE_REWARD * lane_change
         return utils.lmap(reward, [self.COLLISION_REWARD + self.LANE_CHANGE_REWARD, self.HIGH_SPEED_REWARD], [0, 1])
 
@@ -138,9 +140,12 @@ class RoundaboutEnv(AbstractEnv):
             ego_vehicle.plan_route_to("nxs")
         except AttributeError:
             pass
-        MDPVehicle.SPEED_MIN = 0
-        MDPVehicle.SPEED_MAX = 16
-        MDPVehicle.SPEED_COUNT = 3
+        ego_vehicle.SPEED_MIN = 0
+        ego_vehicle.SPEED_MAX = 16
+        ego_vehicle.SPEED_COUNT = 3
+        if isinstance(ego_vehicle, MDPVehicle):
+            ego_vehicle.speed_index = ego_vehicle.speed_to_index(ego_vehicle.speed)
+            ego_vehicle.target_speed = ego_vehicle.index_to_speed(ego_vehicle.speed_index)
         self.road.vehicles.append(ego_vehicle)
         self.vehicle = ego_vehicle
 
-- 
2.43.0


From 43646998a7fe81109db31a9fa898ea469be446ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 04/31] fix: use the default grid step and floor cell indices
 in the occupancy grid

---
 highway_env/envs/common/observation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index db0571a..c42307d 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -242,7 +242,7 @@ class OccupancyGridObservation(ObservationType):
         self.features = features if features is not None else self.FEATURES
         self.grid_size = np.array(grid_size) if grid_size is not None else np.array(self.GRID_SIZE)
         self.grid_step = np.array(grid_step) if grid_step is not None else np.array(self.GRID_STEP)
-        grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / grid_step), dtype=np.int)
+        grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / self.grid_step), dtype=np.int)
         self.grid = np.zeros((len(self.features), *grid_shape))
         self.features_range = features_range
         self.absolute = absolute
@@ -289,8 +289,8 @@ class OccupancyGridObservation(ObservationType):
                         x = utils.lmap(x, [-1, 1], [self.features_range["x"][0], self.features_range["x"][1]])
                     if "y" in self.features_range:
                         y = utils.lmap(y, [-1, 1], [self.features_range["y"][0], self.features_range["y"][1]])
-                    cell = (int((x - self.grid_size[0, 0]) / self.grid_step[0]),
-                            int((y - self.grid_size[1, 0]) / self.grid_step[1]))
+                    cell = (int(np.floor((x - self.grid_size[0, 0]) / self.grid_step[0])),
+                            int(np.floor((y - self.grid_size[1, 0]) / self.grid_step[1])))
                     if 0 <= cell[1] < self.grid.shape[-2] and 0 <= cell[0] < self.grid.shape[-1]:
                         self.grid[layer, cell[1], cell[0]] = vehicle[feature]
             # Clip
-- 
2.43.0


From 793ea1d5beb1a7b938125867492f8a6e53006493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 05/31] fix: allocate the occupancy grid with the axes order
 used to fill it

---
 highway_env/envs/common/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index c42307d..84475c1 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -243,7 +243,7 @@ class OccupancyGridObservation(ObservationType):
         self.grid_size = np.array(grid_size) if grid_size is not None else np.array(self.GRID_SIZE)
         self.grid_step = np.array(grid_step) if grid_step is not None else np.array(self.GRID_STEP)
         grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / self.grid_step), dtype=np.int)
-        self.grid = np.zeros((len(self.features), *grid_shape))
+        self.grid = np.zeros((len(self.features), *grid_shape[::-1]))  # Cells are indexed as [y, x]
         self.features_range = features_range
         self.absolute = absolute
 
-- 
2.43.0


From f4e2c0fd4701d01e9aaa9e09aa1c2bdf23061e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 06/31] fix: make TupleMultiAgentIntersectionEnv an environment
 class

---
 highway_env/envs/intersection_env.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/intersection_env.py b/highway_env/envs/intersection_env.py
index 5e54e2a..bc01c5e 100644
--- a/highway_env/envs/intersection_env.py
+++ b/highway_env/envs/intersection_env.py
@@ -262,7 +262,9 @@ class MultiAgentIntersectionEnv(IntersectionEnv):
         return config
 
 
-TupleMultiAgentIntersectionEnv = MultiAgentWrapper(MultiAgentIntersectionEnv)
+class TupleMultiAgentIntersectionEnv(MultiAgentWrapper):
+    def __init__(self) -> None:
+        super().__init__(MultiAgentIntersectionEnv())
 
 
 register(
-- 
2.43.0


From 71845b94fe8fcf0843ce89a5bbbc0316b6e2c4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 07/31] fix: make HighwayEnv.default_config a classmethod like
 in all other environments

---
 highway_env/envs/highway_env.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/highway_env.py b/highway_env/envs/highway_env.py
index b723ddd..1bf2a93 100644
--- a/highway_env/envs/highway_env.py
+++ b/highway_env/envs/highway_env.py
@@ -26,7 +26,8 @@ class HighwayEnv(AbstractEnv):
     LANE_CHANGE_REWARD: float = 0
     """The reward received at each lane change action."""
 
-    def default_config(self) -> dict:
+    @classmethod
+    def default_config(cls) -> dict:
         config = super().default_config()
         config.update({
             "observation": {
-- 
2.43.0


From 81ae653044a34f2143e1a5d4f2b2560a925a02c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 08/31] fix: leave the copied ego-vehicle unchanged in
 set_vehicle_field

---
 highway_env/envs/common/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index ccbcf9a..35e37fd 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -360,7 +360,7 @@ class AbstractEnv(gym.Env):
         field, value = args
         env_copy = copy.deepcopy(self)
         for v in env_copy.road.vehicles:
-            if v is not self.vehicle:
+            if v is not env_copy.vehicle:
                 setattr(v, field, value)
         return env_copy
 
-- 
2.43.0


From 75a399885ea4c44ce6c95836644b17650496bdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 09/31] fix: handle lane 0 and vehicles without a route in
 set_preferred_lane

---
 highway_env/envs/common/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 35e37fd..0288158 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -341,10 +341,10 @@ class AbstractEnv(gym.Env):
 
     def set_preferred_lane(self, preferred_lane: int = None) -> 'AbstractEnv':
         env_copy = copy.deepcopy(self)
-        if preferred_lane:
+        if preferred_lane is not None:
             for v in env_copy.road.vehicles:
                 if isinstance(v, IDMVehicle):
-                    v.route = [(lane[0], lane[1], preferred_lane) for lane in v.route]
+                    v.route = [(lane[0], lane[1], preferred_lane) for lane in v.route or [v.lane_index]]
                     # Vehicle with lane preference are also less cautious
                     v.LANE_CHANGE_MAX_BRAKING_IMPOSED = 1000
         return env_copy
-- 
2.43.0


From 7a008dbe22a732eb19ea2282b1a0cd10b8a721ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 10/31] fix: guard the two-way reward against single-lane roads

---
 highway_env/envs/two_way_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/two_way_env.py b/highway_env/envs/two_way_env.py
index 7d05371..ee5f5b2 100644
--- a/highway_env/envs/two_way_env.py
+++ b/highway_env/envs/two_way_env.py
@@ -47,7 +47,7 @@ class TwoWayEnv(AbstractEnv):
         neighbours = self.road.network.all_side_lanes(self.vehicle.lane_index)
 
         reward = self.HIGH_SPEED_REWARD * self.vehicle.speed_index / (self.vehicle.SPEED_COUNT - 1) \
-                 + self.LEFT_LANE_REWARD * (len(neighbours) - 1 - self.vehicle.target_lane_index[2]) / (len(neighbours) - 1)
+                 + self.LEFT_LANE_REWARD * (len(neighbours) - 1 - self.vehicle.target_lane_index[2]) / max(len(neighbours) - 1, 1)
         return reward
 
     def _is_terminal(self) -> bool:
-- 
2.43.0


From 01b85944dcc9c08e74584ee404455211cb5ea5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 11/31] fix: pass the heading of RoadObject.make_on_lane as
 heading

---
 highway_env/road/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/objects.py b/highway_env/road/objects.py
index 146e6bd..55f291f 100644
--- a/highway_env/road/objects.py
+++ b/highway_env/road/objects.py
@@ -43,7 +43,7 @@ class RoadObject(ABC):
         :return: An object with at the specified position
         """
         lane = road.network.get_lane(lane_index)
-        return cls(road, lane.position(longitudinal, 0), lane.heading_at(longitudinal))
+        return cls(road, lane.position(longitudinal, 0), heading=lane.heading_at(longitudinal))
 
     # Just added for sake of compatibility
     def to_dict(self, origin_vehicle=None, observe_intentions=True):
-- 
2.43.0


From e1172afaea587fc940cfbc6cbbdacd407bd6f44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 12/31] fix: accept a zero target speed in ControlledVehicle

---
 highway_env/vehicle/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index fdbc86c..81807a7 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -38,7 +38,7 @@ class ControlledVehicle(Vehicle):
                  route: Route = None):
         super().__init__(road, position, heading, speed)
         self.target_lane_index = target_lane_index or self.lane_index
-        self.target_speed = target_speed or self.speed
+        self.target_speed = target_speed if target_speed is not None else self.speed
         self.route = route
 
     @classmethod
-- 
2.43.0


From 8004942437f9d68fd66abd6b36fef0b0eff24295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 13/31] fix: bound the deceleration below -MAX_SPEED

---
 highway_env/vehicle/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/kinematics.py b/highway_env/vehicle/kinematics.py
index 22f81ed..01ebc5d 100644
--- a/highway_env/vehicle/kinematics.py
+++ b/highway_env/vehicle/kinematics.py
@@ -146,7 +146,7 @@ class Vehicle(object):
         if self.speed > self.MAX_SPEED:
             self.action['acceleration'] = min(self.action['acceleration'], 1.0 * (self.MAX_SPEED - self.speed))
         elif self.speed < -self.MAX_SPEED:
-            self.action['acceleration'] = max(self.action['acceleration'], 1.0 * (self.MAX_SPEED - self.speed))
+            self.action['acceleration'] = max(self.action['acceleration'], 1.0 * (-self.MAX_SPEED - self.speed))
 
     def on_state_update(self) -> None:
         if self.road:
-- 
2.43.0


From d8e83bb6bf3187fb526bb245577506ce39b7cfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 14/31] fix: use the labels of the action type in
 set_agent_action_sequence

---
 highway_env/envs/common/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index c64ec74..c0ec378 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -73,7 +73,7 @@ class EnvViewer(object):
         :param actions: list of action, following the env's action space specification
         """
         if isinstance(self.env.action_space, Discrete):
-            actions = [self.env.ACTIONS[a] for a in actions]
+            actions = [self.env.action_type.actions[a] for a in actions]
         if len(actions) > 1:
             self.vehicle_trajectory = self.env.vehicle.predict_trajectory(actions,
                                                                           1 / self.env.config["policy_frequency"],
-- 
2.43.0


From 85419fe68c88409657cb87088f049d4247c89ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 15/31] fix: export the heading of road objects

---
 highway_env/road/objects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/highway_env/road/objects.py b/highway_env/road/objects.py
index 55f291f..8aa2705 100644
--- a/highway_env/road/objects.py
+++ b/highway_env/road/objects.py
@@ -53,6 +53,7 @@ class RoadObject(ABC):
             'y': self.position[1],
             'vx': 0.,
             'vy': 0.,
+            'heading': self.heading,
             'cos_h': np.cos(self.heading),
             'sin_h': np.sin(self.heading),
             'cos_d': 0.,
-- 
2.43.0


From 15fb05e9db26d04ad7c1806ec07b3c400ee5bc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 16/31] fix: ignore the up key when lateral actions are
 disabled

---
 highway_env/envs/common/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index c0ec378..2b9ecd4 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -174,7 +174,7 @@ class EventHandler(object):
                 action_type.act(action_type.actions_indexes["SLOWER"])
             if event.key == pygame.K_DOWN and action_type.lateral:
                 action_type.act(action_type.actions_indexes["LANE_RIGHT"])
-            if event.key == pygame.K_UP:
+            if event.key == pygame.K_UP and action_type.lateral:
                 action_type.act(action_type.actions_indexes["LANE_LEFT"])
 
     @classmethod
-- 
2.43.0


From 23f4a5f54ce64251e79cc55012208102a0bdab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 17/31] fix: interpret the highway duration in seconds as
 documented

---
 highway_env/envs/highway_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/highway_env.py b/highway_env/envs/highway_env.py
index 1bf2a93..2fa29f5 100644
--- a/highway_env/envs/highway_env.py
+++ b/highway_env/envs/highway_env.py
@@ -96,7 +96,7 @@ class HighwayEnv(AbstractEnv):
     def _is_terminal(self) -> bool:
         """The episode is over if the ego vehicle crashed or the time is out."""
         return self.vehicle.crashed or \
-            self.steps >= self.config["duration"] or \
+            self.steps >= self.config["duration"] * self.config["policy_frequency"] or \
             (self.config["offroad_terminal"] and not self.vehicle.on_road)
 
     def _cost(self, action: int) -> float:
-- 
2.43.0


From 65e900b4f2125aca8081d7967e5422d3fcf1be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 18/31] fix: use the lanes of the observer in compute_ttc_grid

---
 highway_env/envs/common/finite_mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/finite_mdp.py b/highway_env/envs/common/finite_mdp.py
index 938e9ac..6c9e273 100644
--- a/highway_env/envs/common/finite_mdp.py
+++ b/highway_env/envs/common/finite_mdp.py
@@ -95,7 +95,7 @@ def compute_ttc_grid(env: 'AbstractEnv',
     :return: the time-co-collision grid, with axes SPEED x LANES x TIME
     """
     vehicle = vehicle or env.vehicle
-    road_lanes = env.road.network.all_side_lanes(env.vehicle.lane_index)
+    road_lanes = env.road.network.all_side_lanes(vehicle.lane_index)
     grid = np.zeros((vehicle.SPEED_COUNT, len(road_lanes), int(horizon / time_quantization)))
     for speed_index in range(grid.shape[0]):
         ego_speed = vehicle.index_to_speed(speed_index)
-- 
2.43.0


From 8a86fc3147b2a672f96ef4fd88eca62a1965b23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 19/31] fix: do not remove vehicles from a list while iterating
 over it

---
 highway_env/envs/intersection_env.py | 6 +++---
 highway_env/envs/summon_env.py       | 5 ++---
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/highway_env/envs/intersection_env.py b/highway_env/envs/intersection_env.py
index bc01c5e..570857a 100644
--- a/highway_env/envs/intersection_env.py
+++ b/highway_env/envs/intersection_env.py
@@ -194,9 +194,9 @@ class IntersectionEnv(AbstractEnv):
 
             self.road.vehicles.append(ego_vehicle)
             self.controlled_vehicles.append(ego_vehicle)
-            for v in self.road.vehicles:  # Prevent early collisions
-                if v is not ego_vehicle and np.linalg.norm(v.position - ego_vehicle.position) < 20:
-                    self.road.vehicles.remove(v)
+            self.road.vehicles = [v for v in self.road.vehicles  # Prevent early collisions
+                                  if v in self.controlled_vehicles
+                                  or np.linalg.norm(v.position - ego_vehicle.position) >= 20]
 
     def _spawn_vehicle(self,
                        longitudinal: float = 0,
diff --git a/highway_env/envs/summon_env.py b/highway_env/envs/summon_env.py
index 08afc8e..4d8647f 100644
--- a/highway_env/envs/summon_env.py
+++ b/highway_env/envs/summon_env.py
@@ -98,9 +98,8 @@ class SummonEnv(ParkingEnv):
                 lane = ("a", "b", i) if self.np_random.rand() >= 0.5 else ("b", "c", i)
                 self.road.vehicles.append(Vehicle.make_on_lane(self.road, lane, 4, speed=0))
 
-        for v in self.road.vehicles:  # Prevent early collisions
-            if v is not self.vehicle and np.linalg.norm(v.position - self.vehicle.position) < 20:
-                self.road.vehicles.remove(v)
+        self.road.vehicles = [v for v in self.road.vehicles  # Prevent early collisions
+                              if v is self.vehicle or np.linalg.norm(v.position - self.vehicle.position) >= 20]
 
     def compute_reward(self, achieved_goal: np.ndarray, desired_goal: np.ndarray, info: dict, p: float = 0.5) -> float:
         """
-- 
2.43.0


From 80bc40769c3fdbd93c3ea6cfd69918c565fd1a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 20/31] fix: render the current scene after a step or reset

---
 highway_env/envs/common/abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 0288158..60740a7 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -162,6 +162,7 @@ class AbstractEnv(gym.Env):
         self.define_spaces()  # First, to set the controlled vehicle class depending on action space
         self.time = self.steps = 0
         self.done = False
+        self.should_update_rendering = True
         self._reset()
         self.define_spaces()  # Second, to link the obs and actions to the vehicles once the scene is created
         return self.observation_type.observe()
@@ -208,6 +209,7 @@ class AbstractEnv(gym.Env):
 
     def _simulate(self, action: Optional[Action] = None) -> None:
         """Perform several steps of simulation with constant action."""
+        self.should_update_rendering = True
         for _ in range(int(self.config["simulation_frequency"] // self.config["policy_frequency"])):
             # Forward action to the vehicle
             if action is not None \
-- 
2.43.0


From 70f95ebe948edb490fbf4500b5ccc4515b3b2be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 21/31] fix: stop rendering when the window is closed while
 handling events

---
 highway_env/envs/common/abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 60740a7..5031975 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -250,6 +250,8 @@ class AbstractEnv(gym.Env):
 
         if not self.viewer.offscreen:
             self.viewer.handle_events()
+            if self.viewer is None:  # The window was closed
+                return
         if mode == 'rgb_array':
             image = self.viewer.get_image()
             return image
-- 
2.43.0


From 30cc7f8a5890d81b71092109796ff472198a3d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 22/31] fix: do not share the route list between vehicles

---
 highway_env/vehicle/controller.py             | 4 ++--
 highway_env/vehicle/uncertainty/estimation.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index 81807a7..d0f7d4e 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -39,7 +39,7 @@ class ControlledVehicle(Vehicle):
         super().__init__(road, position, heading, speed)
         self.target_lane_index = target_lane_index or self.lane_index
         self.target_speed = target_speed if target_speed is not None else self.speed
-        self.route = route
+        self.route = copy.copy(route)
 
     @classmethod
     def create_from(cls, vehicle: "ControlledVehicle") -> "ControlledVehicle":
@@ -163,7 +163,7 @@ class ControlledVehicle(Vehicle):
             if len(next_destinations) >= 2:
                 break
         else:
-            return [self.route]
+            return [self.route.copy()]
         next_destinations_from = list(next_destinations.keys())
         routes = [self.route[0:index+1] + [(self.route[index][1], destination, self.route[index][2])]
                   for destination in next_destinations_from]
diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index ec6a504..a977c55 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -103,6 +103,6 @@ class MultipleModelVehicle(LinearVehicle):
         route, data = self.data[index]
         vehicle = RegressionVehicle.create_from(self)
         vehicle.target_lane_index = route[0]
-        vehicle.route = route
+        vehicle.route = route.copy()
         vehicle.data = data
         return vehicle
-- 
2.43.0


From a41ce0393e383e7d8c36d49a0a54639fa44f857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 23/31] fix: store a copy of the commanded action

---
 highway_env/vehicle/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/kinematics.py b/highway_env/vehicle/kinematics.py
index 01ebc5d..2d52d66 100644
--- a/highway_env/vehicle/kinematics.py
+++ b/highway_env/vehicle/kinematics.py
@@ -115,7 +115,7 @@ class Vehicle(object):
         :param action: the input action
         """
         if action:
-            self.action = action
+            self.action = dict(action)
 
     def step(self, dt: float) -> None:
         """
-- 
2.43.0


From 0635ebffb096cecad1809f5ce96a986c63f6bac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 24/31] fix: clear the lane-keeping trajectories on reset

---
 highway_env/envs/lane_keeping_env.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/highway_env/envs/lane_keeping_env.py b/highway_env/envs/lane_keeping_env.py
index 89f8fee..f83a6fa 100644
--- a/highway_env/envs/lane_keeping_env.py
+++ b/highway_env/envs/lane_keeping_env.py
@@ -76,6 +76,8 @@ class LaneKeepingEnv(AbstractEnv):
         return False  # not self.lane.on_lane(self.vehicle.position)
 
     def _reset(self) -> None:
+        self.trajectory = []
+        self.interval_trajectory = []
         self._make_road()
         self._make_vehicles()
 
-- 
2.43.0


From 0dde95991cd243b0d8e16239affb5ac48b8ffaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 25/31] fix: keep the lane of the initial scene in
 LaneKeepingEnv

---
 highway_env/envs/lane_keeping_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/lane_keeping_env.py b/highway_env/envs/lane_keeping_env.py
index f83a6fa..36d557a 100644
--- a/highway_env/envs/lane_keeping_env.py
+++ b/highway_env/envs/lane_keeping_env.py
@@ -17,12 +17,12 @@ class LaneKeepingEnv(AbstractEnv):
     """A lane keeping control task."""
 
     def __init__(self, config: dict = None) -> None:
-        super().__init__(config)
         self.lane = None
         self.lanes = []
         self.trajectory = []
         self.interval_trajectory = []
         self.lpv = None
+        super().__init__(config)
 
     @classmethod
     def default_config(cls) -> dict:
-- 
2.43.0


From 38d00786eedb56df642fbd88ccd9115c563d620a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 26/31] fix: rotate into the rectangle's frame in
 point_in_rotated_rectangle

The point was rotated by +angle instead of -angle, so a point on the long axis of
a rectangle turned by 45 degrees was reported outside and vehicles crossing at an
angle could miss (or fake) a collision.
---
 highway_env/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index 0ef7112..4959336 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -64,7 +64,7 @@ def point_in_rotated_rectangle(point: np.ndarray, center: np.ndarray, length: fl
     :return: is the point inside the rectangle
     """
     c, s = np.cos(angle), np.sin(angle)
-    r = np.array([[c, -s], [s, c]])
+    r = np.array([[c, s], [-s, c]])
     ru = r.dot(point - center)
     return point_in_rectangle(ru, (-length/2, -width/2), (length/2, width/2))
 
-- 
2.43.0


From 905a3401f2ed5f67c6da0dedf1297b6d94e3e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:09 +0000
Subject: [PATCH 27/31] fix: linearised lateral input matrix carries the front
 axle's factor 2

---
 highway_env/vehicle/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/dynamics.py b/highway_env/vehicle/dynamics.py
index 455d096..288153a 100644
--- a/highway_env/vehicle/dynamics.py
+++ b/highway_env/vehicle/dynamics.py
@@ -113,7 +113,7 @@ class BicycleVehicle(Vehicle):
         """
         B = np.array([
             [2*self.FRICTION_FRONT / self.MASS],
-            [self.FRICTION_FRONT * self.LENGTH_A / self.INERTIA_Z]
+            [2*self.FRICTION_FRONT * self.LENGTH_A / self.INERTIA_Z]
         ])
 
         speed_body_x = self.speed
-- 
2.43.0


From 34aba5e4c2b74a850dbf749d4c7c3bd7a2827089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 28/31] fix: viewers do not share the default centering list

---
 highway_env/envs/common/graphics.py | 3 ++-
 highway_env/road/graphics.py        | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index 2b9ecd4..6235d89 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -34,7 +34,8 @@ class EnvViewer(object):
             self.screen = pygame.display.set_mode([self.env.config["screen_width"], self.env.config["screen_height"]])
         self.sim_surface = WorldSurface(panel_size, 0, pygame.Surface(panel_size))
         self.sim_surface.scaling = env.config.get("scaling", self.sim_surface.INITIAL_SCALING)
-        self.sim_surface.centering_position = env.config.get("centering_position", self.sim_surface.INITIAL_CENTERING)
+        self.sim_surface.centering_position = list(env.config.get("centering_position",
+                                                              self.sim_surface.INITIAL_CENTERING))
         self.clock = pygame.time.Clock()
 
         self.enabled = True
diff --git a/highway_env/road/graphics.py b/highway_env/road/graphics.py
index 85de007..aac1e05 100644
--- a/highway_env/road/graphics.py
+++ b/highway_env/road/graphics.py
@@ -33,7 +33,7 @@ class WorldSurface(pygame.Surface):
         super().__init__(size, flags, surf)
         self.origin = np.array([0, 0])
         self.scaling = self.INITIAL_SCALING
-        self.centering_position = self.INITIAL_CENTERING
+        self.centering_position = list(self.INITIAL_CENTERING)
 
     def pix(self, length: float) -> int:
         """
-- 
2.43.0


From 260ec0675d30147a2887ad2cbef93c7e4983563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:44 +0000
Subject: [PATCH 29/31] fix: LPV.change_coordinates does not shift the caller's
 value in place

---
 highway_env/interval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 1f227fe..50f6c28 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -263,11 +263,11 @@ class LPV(object):
             if back:
                 value = transformation @ value
                 if offset:
-                    value += self.center
+                    value = value + self.center
                 return value
             else:
                 if offset:
-                    value -= self.center
+                    value = value - self.center
                 return transformation_inv @ value
 
     def step(self, dt: float) -> None:
-- 
2.43.0


From 629121f635ade00ef8ceadf39b637230ee60e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:50 +0000
Subject: [PATCH 30/31] fix: LPV.change_coordinates passes its direction on to
 the elements of a list

---
 highway_env/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 50f6c28..4aba8f9 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -258,7 +258,7 @@ class LPV(object):
             else:
                 return transformation_inv @ value @ transformation
         elif isinstance(value, list):  # List
-            return [self.change_coordinates(v, back) for v in value]
+            return [self.change_coordinates(v, back=back, offset=offset) for v in value]
         else:
             if back:
                 value = transformation @ value
-- 
2.43.0


From 99bcaabd37315101bb92352b5417d060be99e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:39 +0000
Subject: [PATCH 31/31] fix: keep the last lane of a possible route when its
 end has been passed

---
 highway_env/vehicle/uncertainty/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index a977c55..7d3a0fe 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -81,7 +81,7 @@ class MultipleModelVehicle(LinearVehicle):
 
         # Step the lane being followed in each possible route
         for route, _ in self.data:
-            if self.road.network.get_lane(route[0]).after_end(self.position):
+            if len(route) > 1 and self.road.network.get_lane(route[0]).after_end(self.position):
                 route.pop(0)
 
         # Reject inconsistent hypotheses
-- 
2.43.0

