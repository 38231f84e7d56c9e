"""Reference definitions: road objects."""
import numpy as np


class RoadObject:
    def __init__(self, road, position, speed=0., heading=0.):
        self.road = road
        self.position = np.array(position, dtype=np.float)
        self.speed = speed
        self.heading = heading
        self.hit = False

    @classmethod
    def make_on_lane(cls, road, lane_index, longitudinal):
        lane = road.network.get_lane(lane_index)
        return cls(road, lane.position(longitudinal, 0), heading=lane.heading_at(longitudinal))

    def to_dict(self, origin_vehicle=None, observe_intentions=True):
        d = {'presence': 1, 'x': self.position[0], 'y': self.position[1], 'vx': 0., 'vy': 0., 'heading': self.heading,
             'cos_h': np.cos(self.heading), 'sin_h': np.sin(self.heading), 'cos_d': 0., 'sin_d': 0.}
        if origin_vehicle:
            o = origin_vehicle.to_dict()
            d['x'] -= o['x']
            d['y'] -= o['y']
            d['vx'] -= o['vx']
            d['vy'] -= o['vy']
        return d

    def direction(self):
        return np.array([np.cos(self.heading), np.sin(self.heading)])

    def velocity(self):
        return np.array([np.cos(self.heading), np.sin(self.heading)]) * self.speed
