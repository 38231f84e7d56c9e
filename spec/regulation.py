"""Reference definitions: right of way on regulated roads."""
import itertools
import numpy as np
from highway_env import utils
from highway_env.road.road import Road
from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle


class RegulatedRoad:
    def __init__(self, network=None, vehicles=None, obstacles=None, np_random=None, record_history=False):
        Road.__init__(self, network, vehicles, obstacles, np_random, record_history)
        self.steps = 0

    def step(self, dt):
        self.steps = self.steps + 1
        if self.steps % int(1 / dt / self.REGULATION_FREQUENCY) == 0:
            self.enforce_road_rules()
        return Road.step(self, dt)

    def enforce_road_rules(self):
        for v in self.vehicles:
            if getattr(v, "is_yielding", False):
                if v.yield_timer >= self.YIELD_DURATION * self.REGULATION_FREQUENCY:
                    v.target_speed = v.lane.speed_limit
                    delattr(v, "color")
                    v.is_yielding = False
                else:
                    v.yield_timer += 1
        for i in range(len(self.vehicles) - 1):
            for j in range(i + 1, len(self.vehicles)):
                a, b = self.vehicles[i], self.vehicles[j]
                if self.is_conflict_possible(a, b):
                    y = self.respect_priorities(a, b)
                    if y is not None and isinstance(y, ControlledVehicle) and not isinstance(y, MDPVehicle):
                        y.color = self.YIELDING_COLOR
                        y.target_speed = 0
                        y.is_yielding = True
                        y.yield_timer = 0

    def enforce_road_rules__alt1(self):
        for v in self.vehicles:
            if getattr(v, "is_yielding", False):
                if v.yield_timer >= self.YIELD_DURATION * self.REGULATION_FREQUENCY:
                    v.target_speed = v.lane.speed_limit
                    delattr(v, "color")
                    v.is_yielding = False
                else:
                    v.yield_timer += 1
        for i, a in enumerate(self.vehicles):
            for b in self.vehicles[i + 1:]:
                if self.is_conflict_possible(a, b):
                    y = self.respect_priorities(a, b)
                    if y is not None and isinstance(y, ControlledVehicle) and not isinstance(y, MDPVehicle):
                        y.color = self.YIELDING_COLOR
                        y.target_speed = 0
                        y.is_yielding = True
                        y.yield_timer = 0

    def enforce_road_rules__alt2(self):
        for v in self.vehicles:
            if getattr(v, "is_yielding", False):
                if v.yield_timer >= self.YIELD_DURATION * self.REGULATION_FREQUENCY:
                    v.target_speed = v.lane.speed_limit
                    delattr(v, "color")
                    v.is_yielding = False
                else:
                    v.yield_timer += 1
        for a, b in itertools.combinations(self.vehicles, 2):
            if self.is_conflict_possible(a, b):
                y = self.respect_priorities(a, b)
                if y is not None and isinstance(y, ControlledVehicle) and not isinstance(y, MDPVehicle):
                    y.color = self.YIELDING_COLOR
                    y.target_speed = 0
                    y.is_yielding = True
                    y.yield_timer = 0

    @staticmethod
    def respect_priorities(v1, v2):
        if v1.lane.priority == v2.lane.priority:
            return v1 if v1.front_distance_to(v2) > v2.front_distance_to(v1) else v2
        return v2 if v1.lane.priority > v2.lane.priority else v1

    @staticmethod
    def is_conflict_possible(v1, v2, horizon=3, step=0.25):
        times = np.arange(step, horizon, step)
        p1, h1 = v1.predict_trajectory_constant_speed(times)
        p2, h2 = v2.predict_trajectory_constant_speed(times)
        for a, x, b, y in zip(p1, h1, p2, h2):
            if np.linalg.norm(b - a) <= v1.LENGTH and \
                    utils.rotated_rectangles_intersect((a, 1.5 * v1.LENGTH, 0.9 * v1.WIDTH, x),
                                                       (b, 1.5 * v2.LENGTH, 0.9 * v2.WIDTH, y)):
                return True
        return None

    @staticmethod
    def is_conflict_possible__alt1(v1, v2, horizon=3, step=0.25):
        times = np.arange(step, horizon, step)
        p1, h1 = v1.predict_trajectory_constant_speed(times)
        p2, h2 = v2.predict_trajectory_constant_speed(times)
        for a, x, b, y in zip(p1, h1, p2, h2):
            if np.linalg.norm(b - a) <= v1.LENGTH and \
                    utils.rotated_rectangles_intersect((a, 1.5 * v1.LENGTH, 0.9 * v1.WIDTH, x),
                                                       (b, 1.5 * v2.LENGTH, 0.9 * v2.WIDTH, y)):
                return True
        return False
