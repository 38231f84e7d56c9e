"""Reference definitions: interval vehicles, parameter estimation and multi-model vehicles."""
import copy
import numpy as np
from highway_env import utils
from highway_env.interval import (LPV, interval_absolute_to_local, interval_local_to_absolute, interval_negative_part,
                                  intervals_diff, intervals_product, integrator_interval, polytope,
                                  vector_interval_section)
from highway_env.utils import confidence_polytope, is_consistent_dataset
from highway_env.vehicle.behavior import LinearVehicle
from highway_env.vehicle.controller import MDPVehicle
from highway_env.vehicle.uncertainty.estimation import RegressionVehicle
from highway_env.vehicle.uncertainty.prediction import IntervalVehicle, VehicleInterval


class VehicleInterval:
    def __init__(self, vehicle):
        self.position = np.array([vehicle.position, vehicle.position], dtype=float)
        self.speed = np.array([vehicle.speed, vehicle.speed], dtype=float)
        self.heading = np.array([vehicle.heading, vehicle.heading], dtype=float)


def extremes(f, angles, low_at, high_at):
    """bounds of sin or cos over an interval of angles: the extreme value is reached where its argument is inside"""
    return [-1 if angles[0] <= low_at and low_at <= angles[1] else min(map(f, angles)),
            1 if angles[0] <= high_at and high_at <= angles[1] else max(map(f, angles))]


class IntervalVehicle:
    def __init__(self, road, position, heading=0, speed=0, target_lane_index=None, target_speed=None, route=None,
                 enable_lane_change=True, timer=None, theta_a_i=None, theta_b_i=None, data=None):
        super().__init__(road, position, heading, speed, target_lane_index, target_speed, route, enable_lane_change,
                         timer)
        self.theta_a_i = LinearVehicle.ACCELERATION_RANGE if theta_a_i is None else theta_a_i
        self.theta_b_i = LinearVehicle.STEERING_RANGE if theta_b_i is None else theta_b_i
        self.data = data
        self.interval = VehicleInterval(self)
        self.trajectory = []
        self.interval_trajectory = []
        self.longitudinal_lpv = None
        self.lateral_lpv = None
        self.previous_target_lane_index = self.target_lane_index

    @classmethod
    def create_from(cls, vehicle):
        def known(name):
            return getattr(vehicle, name, None)
        return cls(vehicle.road, vehicle.position, heading=vehicle.heading, speed=vehicle.speed,
                   target_lane_index=getattr(vehicle, "target_lane_index", None),
                   target_speed=getattr(vehicle, "target_speed", None), route=getattr(vehicle, "route", None),
                   timer=getattr(vehicle, "timer", None), theta_a_i=getattr(vehicle, "theta_a_i", None),
                   theta_b_i=getattr(vehicle, "theta_b_i", None), data=getattr(vehicle, "data", None))

    def step(self, dt, mode="partial"):
        self.store_trajectories()
        if self.crashed:
            self.interval = VehicleInterval(self)
        elif mode == "partial":
            self.partial_observer_step(dt)
        elif mode == "predictor":
            self.predictor_step(dt)
        super().step(dt)

    def store_trajectories(self):
        self.trajectory.append(LinearVehicle.create_from(self))
        self.interval_trajectory.append(copy.deepcopy(self.interval))

    def get_front_interval(self):
        front = self.road.neighbour_vehicles(self)[0]
        if not front:
            return None
        return front.interval if isinstance(front, IntervalVehicle) else IntervalVehicle.create_from(front).interval

    def get_followed_lanes(self, lane_change_model="model", squeeze=True):
        mine = self.target_lane_index
        if lane_change_model == "model":
            return [mine]
        if lane_change_model == "all":
            return self.road.network.side_lanes(mine) + [mine]
        if lane_change_model == "right":
            origin, destination, i = mine
            right = (origin, destination, i + 1)
            if i < len(self.road.network.graph[origin][destination]) - 1 and \
                    self.road.network.get_lane(right).is_reachable_from(self.position):
                return [mine, right]
            return [mine] if squeeze else [mine, mine]
        return []

    def observer_step(self, dt):
        position, v, psi = self.interval.position, self.interval.speed, self.interval.heading
        front = self.get_front_interval()
        phi_a = np.zeros((2, 3))
        if front:
            phi_a[:, 1] = interval_negative_part(intervals_diff(front.speed, v))
            here = self.lane.heading_at(self.lane.local_coordinates(self.position)[0])
            gap = vector_interval_section(intervals_diff(front.position, position), [np.cos(here), np.sin(here)])
            phi_a[:, 2] = interval_negative_part(intervals_diff(gap, self.DISTANCE_WANTED + self.TIME_WANTED * v))
        phi_b = None
        for index in self.get_followed_lanes():
            lane = self.road.network.get_lane(index)
            lane_psi = lane.heading_at(lane.local_coordinates(self.position)[0] + self.speed * self.PURSUIT_TAU)
            lateral = -np.flip(interval_absolute_to_local(position, lane)[1])
            feature = np.transpose(np.array([[0, 0], intervals_product(lateral, 1 / np.flip(v, 0))]))
            if phi_b is None:
                phi_b = feature
            else:
                phi_b[0] = np.minimum(phi_b[0], feature[0])
                phi_b[1] = np.maximum(phi_b[1], feature[1])
        dv = intervals_product(self.theta_a_i[:, 0], self.target_speed - np.flip(v, 0))
        dv += intervals_product(self.theta_a_i, phi_a)
        dv = np.clip(dv, -self.ACC_MAX, self.ACC_MAX)
        dpsi = integrator_interval(list(map(utils.wrap_to_pi, psi - lane_psi)), self.theta_b_i[:, 0])
        dpsi += intervals_product(self.theta_b_i, phi_b)
        dx = intervals_product(v, extremes(np.cos, psi, np.pi, 0))
        dy = intervals_product(v, extremes(np.sin, psi, -np.pi / 2, np.pi / 2))
        self.interval.speed += dv * dt
        self.interval.heading += dpsi * dt
        self.interval.position[:, 0] += dx * dt
        self.interval.position[:, 1] += dy * dt
        spread = dt * np.array([-1, 1])
        self.interval.position[:, 0] += spread
        self.interval.position[:, 1] += spread
        self.interval.heading += spread

    def partial_observer_step(self, dt, alpha=0):
        o = self.interval
        low = IntervalVehicle.create_from(self)
        low.interval = copy.deepcopy(self.interval)
        low.interval.position[1, :] = (1 - alpha) * o.position[0, :] + alpha * o.position[1, :]
        low.interval.speed[1] = (1 - alpha) * o.speed[0] + alpha * o.speed[1]
        low.interval.heading[1] = (1 - alpha) * o.heading[0] + alpha * o.heading[1]
        high = IntervalVehicle.create_from(self)
        high.interval = copy.deepcopy(self.interval)
        high.interval.position[0, :] = alpha * o.position[0, :] + (1 - alpha) * o.position[1, :]
        high.interval.speed[0] = alpha * o.speed[0] + (1 - alpha) * o.speed[1]
        high.interval.heading[0] = alpha * o.heading[0] + (1 - alpha) * o.heading[1]
        low.road = copy.copy(low.road)
        low.road.vehicles = [v if v is not self else low for v in low.road.vehicles]
        high.road = copy.copy(high.road)
        high.road.vehicles = [v if v is not self else high for v in high.road.vehicles]
        low.observer_step(dt)
        high.observer_step(dt)
        self.interval.position = np.array([low.interval.position[0], high.interval.position[1]])
        self.interval.speed = np.array([low.interval.speed[0], high.interval.speed[1]])
        self.interval.heading = np.array([min(low.interval.heading[0], high.interval.heading[0]),
                                          max(low.interval.heading[1], high.interval.heading[1])])

    def predictor_init(self):
        target = self.road.network.get_lane(self.target_lane_index)
        s, r = interval_absolute_to_local(self.interval.position, target)
        v = self.interval.speed
        psi = self.interval.heading - self.lane.heading_at(s.mean())
        if self.longitudinal_lpv:
            return
        front = self.get_front_interval()
        front_s, front_v = 0, 0
        if front:
            front_s, front_v = interval_absolute_to_local(front.position, target)[0][0], front.speed[0]
        disturbance = np.array([[-1], [1]])
        a0, da = self.longitudinal_matrix_polytope()
        self.longitudinal_lpv = LPV([s[0], front_s, v[0], front_v], a0, da, np.eye(4), np.array([[1], [0], [0], [0]]),
                                    disturbance, [[self.target_speed], [self.target_speed], [0], [0]],
                                    center=[-self.DISTANCE_WANTED - self.target_speed * self.TIME_WANTED, 0,
                                            self.target_speed, self.target_speed])
        if not self.lateral_lpv:
            a0, da = self.lateral_matrix_polytope()
            self.lateral_lpv = LPV([r[0], psi[0]], a0, da, np.identity(2), np.array([[1], [0]]),
                                   np.array([[-1], [1]]) * 0.5, [[0], [0]], center=[0, 0])

    def predictor_step(self, dt):
        self.predictor_init()
        target = self.road.network.get_lane(self.target_lane_index)
        if self.target_lane_index != self.previous_target_lane_index:
            previous = self.road.network.get_lane(self.previous_target_lane_index)
            s, r = interval_absolute_to_local(self.interval.position, target)
            psi = self.interval.heading + target.heading_at(s.mean()) - previous.heading_at(s.mean())
            lat = self.lateral_lpv.change_coordinates(np.transpose([r, psi]), back=False, interval=True)
            self.lateral_lpv.x_i_t += lat.mean(axis=0) - self.lateral_lpv.x_i_t.mean(axis=0)
            state = self.longitudinal_lpv.change_coordinates(self.longitudinal_lpv.x_i_t, back=True, interval=True)
            state[:, 0] = s
            lon = self.longitudinal_lpv.change_coordinates(state, back=False, interval=True)
            self.longitudinal_lpv.x_i_t += lon.mean(axis=0) - self.longitudinal_lpv.x_i_t.mean(axis=0)
            self.previous_target_lane_index = self.target_lane_index
        self.longitudinal_lpv.step(dt)
        self.lateral_lpv.step(dt)
        lon = self.longitudinal_lpv.change_coordinates(self.longitudinal_lpv.x_i_t, back=True, interval=True)
        lat = self.lateral_lpv.change_coordinates(self.lateral_lpv.x_i_t, back=True, interval=True)
        target = self.road.network.get_lane(self.target_lane_index)
        self.interval.position = interval_local_to_absolute(lon[:, 0], lat[:, 0], target)
        self.interval.speed = lon[:, 2]
        self.interval.heading = lat[:, 1]

    def longitudinal_matrix_polytope(self):
        return IntervalVehicle.parameter_box_to_polytope(self.theta_a_i, self.longitudinal_structure)

    def lateral_matrix_polytope(self):
        return IntervalVehicle.parameter_box_to_polytope(self.theta_b_i, self.lateral_structure)

    @staticmethod
    def parameter_box_to_polytope(parameter_box, structure):
        a, phi = structure()
        return polytope(lambda params: a + np.tensordot(phi, params, axes=[0, 0]), parameter_box)

    def check_collision(self, other):
        if not isinstance(other, MDPVehicle):
            super().check_collision(other)
            return
        if self.crashed or other is self or not self.COLLISIONS_ENABLED:
            return
        low, high = self.interval.position[0], self.interval.position[1]
        if not utils.point_in_rectangle(other.position, low - self.LENGTH, high + self.LENGTH):
            return
        nearest = np.minimum(np.maximum(other.position, low), high)
        if utils.rotated_rectangles_intersect((nearest, self.LENGTH, self.WIDTH, self.heading),
                                              (other.position, 0.9 * other.LENGTH, 0.9 * other.WIDTH, other.heading)):
            v = min(self.speed, other.speed)
            self.speed, other.speed = v, v
            self.crashed, other.crashed = True, True


class RegressionVehicle:
    def longitudinal_matrix_polytope(self):
        return self.polytope_from_estimation(self.data["longitudinal"], self.theta_a_i, self.longitudinal_structure)

    def lateral_matrix_polytope(self):
        return self.polytope_from_estimation(self.data["lateral"], self.theta_b_i, self.lateral_structure)

    def polytope_from_estimation(self, data, parameter_box, structure):
        if not data:
            return self.parameter_box_to_polytope(parameter_box, structure)
        theta, spread, _, _ = confidence_polytope(data, parameter_box=parameter_box)
        a, phi = structure()
        return a + np.tensordot(theta, phi, axes=[0, 0]), [np.tensordot(d, phi, axes=[0, 0]) for d in spread]


class MultipleModelVehicle:
    def __init__(self, road, position, heading=0, speed=0, target_lane_index=None, target_speed=None, route=None,
                 enable_lane_change=True, timer=None, data=None):
        super().__init__(road, position, heading, speed, target_lane_index, target_speed, route, enable_lane_change,
                         timer, data)
        if not self.data:
            self.data = []

    def act(self, action=None):
        if self.collecting_data:
            self.update_possible_routes()
        super().act(action)

    def collect_data(self):
        for route, data in self.data:
            self.add_features(data, route[0], output_lane=self.target_lane_index)

    def update_possible_routes(self):
        for route in self.get_routes_at_intersection():
            for i, (origin, destination, lane_id) in enumerate(route):
                if lane_id is None:
                    route[i] = (origin, destination, 0)
            considered = False
            for known, _ in self.data:
                if known == route:
                    considered = True
                    break
                if len(known) < len(route) and route[:len(known)] == known:
                    self.data = [(route, d) if r == known else (r, d) for r, d in self.data]
                    considered = True
                    break
            if not considered:
                self.data.append((route.copy(), {}))
        for route, _ in self.data:
            if len(route) > 1 and self.road.network.get_lane(route[0]).after_end(self.position):
                route.pop(0)
        for route, data in self.data.copy():
            if data and not is_consistent_dataset(data["lateral"], parameter_box=LinearVehicle.STEERING_RANGE):
                self.data.remove((route, data))

    def update_possible_routes__alt1(self):
        for route in self.get_routes_at_intersection():
            for i, (origin, destination, lane_id) in enumerate(route):
                route[i] = (origin, destination, 0 if lane_id is None else lane_id)
            considered = False
            for known, _ in self.data:
                if known == route:
                    considered = True
                    break
                if len(known) < len(route) and route[:len(known)] == known:
                    self.data = [(route, d) if r == known else (r, d) for r, d in self.data]
                    considered = True
                    break
            if not considered:
                self.data.append((route.copy(), {}))
        for route, _ in self.data:
            if len(route) > 1 and self.road.network.get_lane(route[0]).after_end(self.position):
                route.pop(0)
        for route, data in self.data.copy():
            if data and not is_consistent_dataset(data["lateral"], parameter_box=LinearVehicle.STEERING_RANGE):
                self.data.remove((route, data))

    def assume_model_is_valid(self, index):
        if not self.data:
            return self.create_from(self)
        route, data = self.data[min(index, len(self.data) - 1)]
        vehicle = RegressionVehicle.create_from(self)
        vehicle.target_lane_index = route[0]
        vehicle.route = route.copy()
        vehicle.data = data
        return vehicle
