"""Reference definitions: vehicle kinematics and collisions."""
from collections import deque
import numpy as np
from highway_env import utils
from highway_env.vehicle.kinematics import Vehicle
from highway_env.road.objects import Obstacle, Landmark
from highway_env.vehicle.controller import MDPVehicle


def colliding(a, b):
    if np.linalg.norm(b.position - a.position) > a.LENGTH:
        return False
    return utils.rotated_rectangles_intersect((a.position, 0.9 * a.LENGTH, 0.9 * a.WIDTH, a.heading),
                                              (b.position, 0.9 * b.LENGTH, 0.9 * b.WIDTH, b.heading))


class Vehicle:
    def __init__(self, road, position, heading: float = 0, speed: float = 0):
        self.road = road
        self.position = np.array(position).astype('float')
        self.heading = heading
        self.speed = speed
        if road:
            self.lane_index = road.network.get_closest_lane_index(self.position, heading)
            self.lane = road.network.get_lane(self.lane_index)
        else:
            self.lane_index = np.nan
            self.lane = None
        self.action = {'steering': 0, 'acceleration': 0}
        self.crashed = False
        self.log = []
        self.history = deque(maxlen=30)

    def step(self, dt):
        self.clip_actions()
        beta = np.arctan(np.tan(self.action['steering']) / 2)
        v, psi = self.speed, self.heading
        self.position += v * np.array([np.cos(psi + beta), np.sin(psi + beta)]) * dt
        self.heading = psi + v * np.sin(beta) / (self.LENGTH / 2) * dt
        self.speed = v + self.action['acceleration'] * dt
        self.on_state_update()

    def clip_actions(self):
        if self.crashed:
            steering, acceleration = 0., -self.speed
        else:
            steering, acceleration = float(self.action['steering']), float(self.action['acceleration'])
        if self.speed > self.MAX_SPEED:
            acceleration = min(acceleration, self.MAX_SPEED - self.speed)
        elif self.speed < -self.MAX_SPEED:
            acceleration = max(acceleration, -self.MAX_SPEED - self.speed)
        self.action['steering'] = steering
        self.action['acceleration'] = acceleration

    def act(self, action=None):
        if action:
            self.action = dict(action)

    def on_state_update(self):
        if self.road:
            self.lane_index = self.road.network.get_closest_lane_index(self.position, self.heading)
            self.lane = self.road.network.get_lane(self.lane_index)
            if self.road.record_history:
                self.history.appendleft(self.create_from(self))

    def check_collision(self, other):
        if self.crashed or other is self:
            return
        if isinstance(other, Vehicle):
            if self.COLLISIONS_ENABLED and other.COLLISIONS_ENABLED and colliding(self, other):
                slowest = min([self.speed, other.speed], key=abs)
                self.speed = slowest
                other.speed = slowest
                self.crashed = True
                other.crashed = True
        elif isinstance(other, Obstacle):
            if self.COLLISIONS_ENABLED and colliding(self, other):
                self.speed = min([self.speed, 0], key=abs)
                self.crashed = True
                other.hit = True
        elif isinstance(other, Landmark):
            if colliding(self, other):
                other.hit = True

    def lane_distance_to(self, vehicle, lane=None):
        if not vehicle:
            return np.nan
        lane = lane or self.lane
        return lane.local_coordinates(vehicle.position)[0] - lane.local_coordinates(self.position)[0]

    def front_distance_to(self, other):
        return np.dot(self.direction, other.position - self.position)

    def direction(self):
        return np.array([np.cos(self.heading), np.sin(self.heading)])

    def velocity(self):
        return self.speed * np.array([np.cos(self.heading), np.sin(self.heading)])

    def on_road(self):
        return self.lane.on_lane(self.position)

    @classmethod
    def make_on_lane(cls, road, lane_index, longitudinal, speed=0):
        lane = road.network.get_lane(lane_index)
        return cls(road, lane.position(longitudinal, 0), lane.heading_at(longitudinal),
                   lane.speed_limit if speed is None else speed)

    @classmethod
    def create_from(cls, vehicle):
        return cls(vehicle.road, vehicle.position, vehicle.heading, vehicle.speed)

    @classmethod
    def create_random(cls, road, speed=None, lane_id=None, spacing=1):
        if speed is None:
            speed = road.np_random.uniform(Vehicle.DEFAULT_SPEEDS[0], Vehicle.DEFAULT_SPEEDS[1])
        graph = road.network.graph
        a = road.np_random.choice(list(graph.keys()))
        b = road.np_random.choice(list(graph[a].keys()))
        i = lane_id if lane_id is not None else road.np_random.choice(len(graph[a][b]))
        lane = road.network.get_lane((a, b, i))
        offset = spacing * 1.5 * speed * np.exp(-5 / 30 * len(graph[a][b]))
        if len(road.vehicles):
            x = np.max([lane.local_coordinates(v.position)[0] for v in road.vehicles])
        else:
            x = 3 * offset
        x = x + offset * road.np_random.uniform(0.9, 1.1)
        return cls(road, lane.position(x, 0), lane.heading_at(x), speed)

    def destination(self):
        if getattr(self, "route", None):
            last = self.road.network.get_lane(self.route[-1])
            return last.position(last.length, 0)
        return self.position

    def destination_direction(self):
        if (self.destination != self.position).any():
            d = self.destination - self.position
            return d / np.linalg.norm(d)
        return np.zeros((2,))

    def to_dict(self, origin_vehicle=None, observe_intentions=True):
        d = {
            'presence': 1,
            'x': self.position[0],
            'y': self.position[1],
            'vx': self.velocity[0],
            'vy': self.velocity[1],
            'heading': self.heading,
            'cos_h': self.direction[0],
            'sin_h': self.direction[1],
            'cos_d': self.destination_direction[0],
            'sin_d': self.destination_direction[1]
        }
        if not observe_intentions:
            d["cos_d"] = 0
            d["sin_d"] = 0
        if origin_vehicle:
            o = origin_vehicle.to_dict()
            for key in ['x', 'y', 'vx', 'vy']:
                d[key] -= o[key]
        return d
