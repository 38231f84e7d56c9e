"""Reference definitions: controlled vehicles."""
import copy
import numpy as np
from highway_env import utils
from highway_env.vehicle.kinematics import Vehicle
from highway_env.vehicle.controller import ControlledVehicle


class ControlledVehicle:
    def __init__(self, road, position, heading=0, speed=0, target_lane_index=None, target_speed=None, route=None):
        Vehicle.__init__(self, road, position, heading, speed)
        self.target_lane_index = target_lane_index or self.lane_index
        self.target_speed = self.speed if target_speed is None else target_speed
        self.route = copy.copy(route)

    @classmethod
    def create_from(cls, vehicle):
        return cls(vehicle.road, vehicle.position, heading=vehicle.heading, speed=vehicle.speed,
                   target_lane_index=vehicle.target_lane_index, target_speed=vehicle.target_speed, route=vehicle.route)

    def plan_route_to(self, destination):
        try:
            path = self.road.network.shortest_path(self.lane_index[1], destination)
        except KeyError:
            path = []
        route = [self.lane_index]
        if path:
            route = route + [(path[i], path[i + 1], None) for i in range(len(path) - 1)]
        self.route = route
        return self

    def act(self, action=None):
        self.follow_road()
        if action == "FASTER":
            self.target_speed += self.DELTA_SPEED
        elif action == "SLOWER":
            self.target_speed -= self.DELTA_SPEED
        elif action == "LANE_RIGHT" or action == "LANE_LEFT":
            a, b, i = self.target_lane_index
            i = i + 1 if action == "LANE_RIGHT" else i - 1
            side = (a, b, np.clip(i, 0, len(self.road.network.graph[a][b]) - 1))
            if self.road.network.get_lane(side).is_reachable_from(self.position):
                self.target_lane_index = side
        m = self.MAX_STEERING_ANGLE
        Vehicle.act(self, {"steering": np.clip(self.steering_control(self.target_lane_index), -m, m),
                           "acceleration": self.speed_control(self.target_speed)})

    def follow_road(self):
        net = self.road.network
        if net.get_lane(self.target_lane_index).after_end(self.position):
            self.target_lane_index = net.next_lane(self.target_lane_index, route=self.route, position=self.position,
                                                   np_random=self.road.np_random)

    def steering_control(self, target_lane_index):
        lane = self.road.network.get_lane(target_lane_index)
        s, r = lane.local_coordinates(self.position)
        ahead = lane.heading_at(s + self.speed * self.PURSUIT_TAU)
        lateral_speed = -self.KP_LATERAL * r
        slope = np.arcsin(np.clip(lateral_speed / utils.not_zero(self.speed), -1, 1))
        reference = ahead + np.clip(slope, -np.pi / 4, np.pi / 4)
        rate = self.KP_HEADING * utils.wrap_to_pi(reference - self.heading)
        angle = np.arcsin(np.clip(self.LENGTH / 2 / utils.not_zero(self.speed) * rate, -1, 1))
        return float(np.clip(angle, -self.MAX_STEERING_ANGLE, self.MAX_STEERING_ANGLE))

    def speed_control(self, target_speed):
        return self.KP_A * (target_speed - self.speed)

    def get_routes_at_intersection(self):
        if not self.route:
            return []
        for k in range(min(len(self.route), 3)):
            try:
                choices = self.road.network.graph[self.route[k][1]]
            except KeyError:
                continue
            if len(choices) >= 2:
                break
        else:
            return [self.route.copy()]
        return [self.route[0:k + 1] + [(self.route[k][1], d, self.route[k][2])] for d in list(choices.keys())]

    def get_routes_at_intersection__alt1(self):
        if not self.route:
            return []
        for k in range(min(len(self.route), 3)):
            node = self.route[k][1]
            if node in self.road.network.graph and len(self.road.network.graph[node]) >= 2:
                return [self.route[0:k + 1] + [(node, d, self.route[k][2])] for d in self.road.network.graph[node].keys()]
        return [self.route.copy()]

    def set_route_at_intersection(self, _to):
        routes = self.get_routes_at_intersection()
        if routes:
            if _to == "random":
                _to = self.road.np_random.randint(len(routes))
            self.route = routes[_to % len(routes)]

    def predict_trajectory_constant_speed(self, times):
        s = self.lane.local_coordinates(self.position)[0]
        route = self.route or [self.lane_index]
        return tuple(zip(*[self.road.network.position_heading_along_route(route, s + self.speed * t, 0)
                           for t in times]))


class MDPVehicle:
    def __init__(self, road, position, heading=0, speed=0, target_lane_index=None, target_speed=None, route=None):
        ControlledVehicle.__init__(self, road, position, heading, speed, target_lane_index, target_speed, route)
        self.speed_index = self.speed_to_index(self.target_speed)
        self.target_speed = self.index_to_speed(self.speed_index)

    def act(self, action=None):
        if action == "FASTER" or action == "SLOWER":
            i = self.speed_to_index(self.speed) + (1 if action == "FASTER" else -1)
            self.speed_index = int(np.clip(i, 0, self.SPEED_COUNT - 1))
            self.target_speed = self.index_to_speed(self.speed_index)
            action = None
        ControlledVehicle.act(self, action)

    def index_to_speed(self, index):
        if self.SPEED_COUNT <= 1:
            return self.SPEED_MIN
        return self.SPEED_MIN + index * (self.SPEED_MAX - self.SPEED_MIN) / (self.SPEED_COUNT - 1)

    def speed_to_index(self, speed):
        x = (speed - self.SPEED_MIN) / (self.SPEED_MAX - self.SPEED_MIN) * (self.SPEED_COUNT - 1)
        return int(np.clip(np.round(x), 0, self.SPEED_COUNT - 1))

    @classmethod
    def speed_to_index_default(cls, speed):
        x = (speed - cls.SPEED_MIN) / (cls.SPEED_MAX - cls.SPEED_MIN) * (cls.SPEED_COUNT - 1)
        return int(np.clip(np.round(x), 0, cls.SPEED_COUNT - 1))

    @classmethod
    def get_speed_index(cls, vehicle):
        return getattr(vehicle, "speed_index", cls.speed_to_index_default(vehicle.speed))

    def predict_trajectory(self, actions, action_duration, trajectory_timestep, dt):
        states = []
        v = copy.deepcopy(self)
        t = 0
        for action in actions:
            v.act(action)
            for _ in range(int(action_duration / dt)):
                t += 1
                v.act()
                v.step(dt)
                if (t % int(trajectory_timestep / dt)) == 0:
                    states.append(copy.deepcopy(v))
        return states
