"""Reference definitions: traffic behaviours."""
import numpy as np
from highway_env import utils
from highway_env.vehicle.kinematics import Vehicle
from highway_env.vehicle.controller import ControlledVehicle
from highway_env.vehicle.behavior import IDMVehicle
from highway_env.road.objects import RoadObject


class IDMVehicle:
    def __init__(self, road, position, heading=0, speed=0, target_lane_index=None, target_speed=None, route=None,
                 enable_lane_change=True, timer=None):
        ControlledVehicle.__init__(self, road, position, heading, speed, target_lane_index, target_speed, route)
        self.enable_lane_change = enable_lane_change
        self.timer = timer or (np.sum(self.position) * np.pi) % self.LANE_CHANGE_DELAY

    @classmethod
    def create_from(cls, vehicle):
        return cls(vehicle.road, vehicle.position, heading=vehicle.heading, speed=vehicle.speed,
                   target_lane_index=vehicle.target_lane_index, target_speed=vehicle.target_speed,
                   route=vehicle.route, timer=getattr(vehicle, 'timer', None))

    def randomize_behavior(self):
        pass

    def act(self, action=None):
        if self.crashed:
            return
        front, rear = self.road.neighbour_vehicles(self)
        self.follow_road()
        if self.enable_lane_change:
            self.change_lane_policy()
        steering = np.clip(self.steering_control(self.target_lane_index),
                           -self.MAX_STEERING_ANGLE, self.MAX_STEERING_ANGLE)
        acceleration = np.clip(self.acceleration(ego_vehicle=self, front_vehicle=front, rear_vehicle=rear),
                               -self.ACC_MAX, self.ACC_MAX)
        Vehicle.act(self, {'steering': steering, 'acceleration': acceleration})

    def step(self, dt):
        self.timer = self.timer + dt
        Vehicle.step(self, dt)

    def acceleration(self, ego_vehicle, front_vehicle=None, rear_vehicle=None):
        if not ego_vehicle or isinstance(ego_vehicle, RoadObject):
            return 0
        v0 = utils.not_zero(getattr(ego_vehicle, "target_speed", 0))
        a = self.COMFORT_ACC_MAX * (1 - np.power(max(ego_vehicle.speed, 0) / v0, self.DELTA))
        if front_vehicle:
            d = utils.not_zero(ego_vehicle.lane_distance_to(front_vehicle))
            a = a - self.COMFORT_ACC_MAX * np.power(self.desired_gap(ego_vehicle, front_vehicle) / d, 2)
        return a

    def desired_gap(self, ego_vehicle, front_vehicle=None, projected=True):
        v = ego_vehicle.speed
        if projected:
            dv = np.dot(ego_vehicle.velocity - front_vehicle.velocity, ego_vehicle.direction)
        else:
            dv = v - front_vehicle.speed
        return self.DISTANCE_WANTED + v * self.TIME_WANTED + \
            v * dv / (2 * np.sqrt(-self.COMFORT_ACC_MAX * self.COMFORT_ACC_MIN))

    def change_lane_policy(self):
        here, target = self.lane_index, self.target_lane_index
        if here != target:
            if here[:2] == target[:2]:
                for v in self.road.vehicles:
                    if v is not self and v.lane_index != target and isinstance(v, ControlledVehicle) \
                            and v.target_lane_index == target:
                        d = self.lane_distance_to(v)
                        if 0 < d and d < self.desired_gap(self, v):
                            self.target_lane_index = here
                            break
            return
        if utils.do_every(self.LANE_CHANGE_DELAY, self.timer):
            self.timer = 0
            for index in self.road.network.side_lanes(self.lane_index):
                if self.road.network.get_lane(index).is_reachable_from(self.position) and self.mobil(index):
                    self.target_lane_index = index

    def mobil(self, lane_index):
        preceding, following = self.road.neighbour_vehicles(self, lane_index)
        following_a = self.acceleration(ego_vehicle=following, front_vehicle=preceding)
        following_pred_a = self.acceleration(ego_vehicle=following, front_vehicle=self)
        if following_pred_a < -self.LANE_CHANGE_MAX_BRAKING_IMPOSED:
            return False
        old_preceding, old_following = self.road.neighbour_vehicles(self)
        pred_a = self.acceleration(ego_vehicle=self, front_vehicle=preceding)
        if self.route and self.route[0][2]:
            if np.sign(lane_index[2] - self.target_lane_index[2]) != \
                    np.sign(self.route[0][2] - self.target_lane_index[2]):
                return False
            return not pred_a < -self.LANE_CHANGE_MAX_BRAKING_IMPOSED
        a = self.acceleration(ego_vehicle=self, front_vehicle=old_preceding)
        old_following_a = self.acceleration(ego_vehicle=old_following, front_vehicle=self)
        old_following_pred_a = self.acceleration(ego_vehicle=old_following, front_vehicle=old_preceding)
        gain = pred_a - a + self.POLITENESS * (following_pred_a - following_a
                                               + old_following_pred_a - old_following_a)
        return not gain < self.LANE_CHANGE_MIN_ACC_GAIN


class LinearVehicle:
    def __init__(self, road, position, heading=0, speed=0, target_lane_index=None, target_speed=None, route=None,
                 enable_lane_change=True, timer=None, data=None):
        IDMVehicle.__init__(self, road, position, heading, speed, target_lane_index, target_speed, route,
                            enable_lane_change, timer)
        self.data = {} if data is None else data
        self.collecting_data = True

    def longitudinal_structure(self):
        """(own position, front position, own speed, front speed): target speed, front speed and gap terms"""
        a = np.array([[0, 0, 1, 0], [0, 0, 0, 1], [0, 0, 0, 0], [0, 0, 0, 0]])
        target = np.array([[0, 0, 0, 0], [0, 0, 0, 0], [0, 0, -1, 0], [0, 0, 0, -1]])
        relative = np.array([[0, 0, 0, 0], [0, 0, 0, 0], [0, 0, -1, 1], [0, 0, 0, 0]])
        gap = np.array([[0, 0, 0, 0], [0, 0, 0, 0], [-1, 1, -self.TIME_WANTED, 0], [0, 0, 0, 0]])
        front, rear = self.road.neighbour_vehicles(self)
        if not front:
            return a, np.array([target, relative * 0, gap * 0])
        if self.speed < front.speed:
            relative = relative * 0
        if self.lane_distance_to(front) != self.DISTANCE_WANTED + self.TIME_WANTED * self.speed:
            gap = gap * 0
        return a, np.array([target, relative, gap])

    def lateral_structure(self):
        """(lateral position, heading): heading and lateral errors are corrected by the parametrised gains"""
        return np.array([[0, 1], [0, 0]]), np.array([[[0, 0], [0, -1]], [[0, 0], [-1, 0]]])

    def collect_data(self):
        self.add_features(self.data, self.target_lane_index)

    def add_features(self, data, lane_index, output_lane=None):
        front, rear = self.road.neighbour_vehicles(self)
        phi = self.acceleration_features(self, front, rear)
        if "longitudinal" not in data:
            data["longitudinal"] = {"features": [], "outputs": []}
        data["longitudinal"]["features"].append(phi)
        data["longitudinal"]["outputs"].append(np.dot(self.ACCELERATION_PARAMETERS, phi))
        phi = self.steering_features(lane_index)
        followed = self.steering_features(lane_index if output_lane is None else output_lane)
        if "lateral" not in data:
            data["lateral"] = {"features": [], "outputs": []}
        data["lateral"]["features"].append(phi)
        data["lateral"]["outputs"].append(np.dot(self.STEERING_PARAMETERS, followed))

    def act(self, action=None):
        if self.collecting_data:
            self.collect_data()
        IDMVehicle.act(self, action)

    def randomize_behavior(self):
        ua = self.road.np_random.uniform(size=np.shape(self.ACCELERATION_PARAMETERS))
        lo, hi = self.ACCELERATION_RANGE[0], self.ACCELERATION_RANGE[1]
        self.ACCELERATION_PARAMETERS = lo + ua * (hi - lo)
        ub = self.road.np_random.uniform(size=np.shape(self.STEERING_PARAMETERS))
        lo, hi = self.STEERING_RANGE[0], self.STEERING_RANGE[1]
        self.STEERING_PARAMETERS = lo + ub * (hi - lo)

    def acceleration(self, ego_vehicle, front_vehicle=None, rear_vehicle=None):
        return float(np.dot(self.ACCELERATION_PARAMETERS,
                            self.acceleration_features(ego_vehicle, front_vehicle, rear_vehicle)))

    def acceleration_features(self, ego_vehicle, front_vehicle=None, rear_vehicle=None):
        if not ego_vehicle:
            return np.array([0, 0, 0])
        vt = ego_vehicle.target_speed - ego_vehicle.speed
        if not front_vehicle:
            return np.array([vt, 0, 0])
        d = ego_vehicle.lane_distance_to(front_vehicle)
        safe = self.DISTANCE_WANTED + np.maximum(ego_vehicle.speed, 0) * self.TIME_WANTED
        return np.array([vt, min(front_vehicle.speed - ego_vehicle.speed, 0), min(d - safe, 0)])

    def steering_control(self, target_lane_index):
        return float(np.dot(np.array(self.STEERING_PARAMETERS), self.steering_features(target_lane_index)))

    def steering_features(self, target_lane_index):
        lane = self.road.network.get_lane(target_lane_index)
        s, r = lane.local_coordinates(self.position)
        ahead = lane.heading_at(s + self.speed * self.PURSUIT_TAU)
        v = utils.not_zero(self.speed)
        return np.array([utils.wrap_to_pi(ahead - self.heading) * self.LENGTH / v, -r * self.LENGTH / (v ** 2)])

    def collect_data(self):
        self.add_features(self.data, self.target_lane_index)
