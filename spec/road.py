"""Reference definitions: road graph, traffic queries, simulation tick."""
import logging
import numpy as np
from highway_env.road.lane import LineType, StraightLane
from highway_env.road.objects import Landmark
from highway_env.road.road import RoadNetwork, logger


class RoadNetwork:
    def __init__(self):
        self.graph = {}

    def add_lane(self, _from, _to, lane):
        if _from not in self.graph:
            self.graph[_from] = {}
        if _to not in self.graph[_from]:
            self.graph[_from][_to] = []
        self.graph[_from][_to].append(lane)

    def get_lane(self, index):
        lanes = self.graph[index[0]][index[1]]
        if index[2] is None and len(lanes) == 1:
            return lanes[0]
        return lanes[index[2]]

    def get_closest_lane_index(self, position, heading=None):
        found, dist = [], []
        for a, to in self.graph.items():
            for b, lanes in to.items():
                for i, lane in enumerate(lanes):
                    found.append((a, b, i))
                    dist.append(lane.distance_with_heading(position, heading))
        return found[int(np.argmin(dist))]

    def get_closest_lane_index__alt1(self, position, heading=None):
        best, best_distance = None, None
        for a, to in self.graph.items():
            for b, lanes in to.items():
                for i, lane in enumerate(lanes):
                    d = lane.distance_with_heading(position, heading)
                    if best_distance is None or d < best_distance:
                        best, best_distance = (a, b, i), d
        return best

    def get_closest_lane_index__alt2(self, position, heading=None):
        best, best_distance = None, np.inf
        for a, to in self.graph.items():
            for b, lanes in to.items():
                for i, lane in enumerate(lanes):
                    d = lane.distance_with_heading(position, heading)
                    if d < best_distance:
                        best, best_distance = (a, b, i), d
        return best

    def get_closest_lane_index__alt3(self, position, heading=None):
        return min([(a, b, i) for a, to in self.graph.items() for b, lanes in to.items() for i in range(len(lanes))],
                   key=lambda index: self.get_lane(index).distance_with_heading(position, heading))

    def next_lane(self, current_index, route=None, position=None, np_random=np.random):
        _from, _to, _id = current_index
        next_to = None
        if route:
            if route[0][:2] == current_index[:2]:
                route.pop(0)
            if route and route[0][0] == _to:
                next_to = route[0][1]
            elif route:
                logger.warning("Route {} does not start after current road {}.".format(route[0], current_index))
        if not next_to:
            try:
                next_to = list(self.graph[_to].keys())[np_random.randint(len(self.graph[_to]))]
            except KeyError:
                return current_index
        if len(self.graph[_from][_to]) == len(self.graph[_to][next_to]):
            return _to, next_to, _id
        best = min(range(len(self.graph[_to][next_to])),
                   key=lambda i: self.get_lane((_to, next_to, i)).distance(position))
        return _to, next_to, best

    def bfs_paths(self, start, goal):
        queue = [(start, [start])]
        while queue:
            node, path = queue.pop(0)
            if node not in self.graph:
                yield []
            for n in self.graph[node].keys():
                if n not in path:
                    if n == goal:
                        yield path + [n]
                    elif n in self.graph:
                        queue.append((n, path + [n]))

    def shortest_path(self, start, goal):
        return next(self.bfs_paths(start, goal), [])

    def all_side_lanes(self, lane_index):
        a, b = lane_index[0], lane_index[1]
        return [(a, b, i) for i in range(len(self.graph[a][b]))]

    def side_lanes__pre(self, lane_index):
        return isinstance(lane_index[2], int) and 0 <= lane_index[2] and lane_index[2] < len(self.graph[lane_index[0]][lane_index[1]])

    def side_lanes(self, lane_index):
        a, b, i = lane_index
        out = []
        if i > 0:
            out.append((a, b, i - 1))
        if i + 1 < len(self.graph[a][b]):
            out.append((a, b, i + 1))
        return out

    @staticmethod
    def is_same_road(lane_index_1, lane_index_2, same_lane=False):
        if lane_index_1[:2] != lane_index_2[:2]:
            return False
        return not same_lane or lane_index_1[2] == lane_index_2[2]

    @staticmethod
    def is_leading_to_road(lane_index_1, lane_index_2, same_lane=False):
        if lane_index_1[1] != lane_index_2[0]:
            return False
        return not same_lane or lane_index_1[2] == lane_index_2[2]

    def is_connected_road(self, lane_index_1, lane_index_2, route=None, same_lane=False, depth=0):
        if self.is_same_road(lane_index_2, lane_index_1, same_lane) or \
                self.is_leading_to_road(lane_index_2, lane_index_1, same_lane):
            return True
        if depth > 0:
            if route and route[0][:2] == lane_index_1[:2]:
                return self.is_connected_road(lane_index_1, lane_index_2, route[1:], same_lane, depth)
            if route and route[0][0] == lane_index_1[1]:
                return self.is_connected_road(route[0], lane_index_2, route[1:], same_lane, depth - 1)
            end, lane_id = lane_index_1[1], lane_index_1[2]
            return any([self.is_connected_road((end, n, lane_id), lane_index_2, route, same_lane, depth - 1)
                        for n in self.graph.get(end, {}).keys()])
        return False

    def lanes_list(self):
        return [lane for to in self.graph.values() for lanes in to.values() for lane in lanes]

    @staticmethod
    def straight_road_network(lanes=4, length=10000, angle=0):
        net = RoadNetwork()
        c, s = np.cos(angle), np.sin(angle)
        for i in range(lanes):
            y = i * StraightLane.DEFAULT_WIDTH
            a = np.array([s * y, c * y])
            b = np.array([c * length + s * y, -s * length + c * y])
            kinds = [LineType.CONTINUOUS_LINE if i == 0 else LineType.STRIPED,
                     LineType.CONTINUOUS_LINE if i == lanes - 1 else LineType.NONE]
            net.add_lane("0", "1", StraightLane(a, b, line_types=kinds))
        return net

    def position_heading_along_route(self, route, longitudinal, lateral):
        while len(route) > 1 and longitudinal > self.get_lane(route[0]).length:
            longitudinal -= self.get_lane(route[0]).length
            route = route[1:]
        lane = self.get_lane(route[0])
        return lane.position(longitudinal, lateral), lane.heading_at(longitudinal)


class Road:
    def __init__(self, network=None, vehicles=None, road_objects=None, np_random=None, record_history=False):
        self.network = network
        self.vehicles = vehicles or []
        self.objects = road_objects or []
        self.np_random = np_random if np_random else np.random.RandomState()
        self.record_history = record_history

    def close_vehicles_to(self, vehicle, distance, count=None, see_behind=True):
        near = []
        for v in self.vehicles:
            if v is not vehicle and np.linalg.norm(v.position - vehicle.position) < distance and \
                    (see_behind or vehicle.lane_distance_to(v) > -2 * vehicle.LENGTH):
                near.append(v)
        near = sorted(near, key=lambda v: abs(vehicle.lane_distance_to(v)))
        if count is not None:
            near = near[:count]
        return near

    def act(self):
        for vehicle in self.vehicles:
            vehicle.act()

    def step(self, dt):
        for vehicle in self.vehicles:
            vehicle.step(dt)
        for vehicle in self.vehicles:
            for other in self.vehicles:
                vehicle.check_collision(other)
            for other in self.objects:
                vehicle.check_collision(other)

    def neighbour_vehicles(self, vehicle, lane_index=None):
        index = lane_index or vehicle.lane_index
        if not index:
            return None, None
        lane = self.network.get_lane(index)
        s, _ = lane.local_coordinates(vehicle.position)
        front = rear = s_front = s_rear = None
        for other in self.vehicles + self.objects:
            if other is vehicle or isinstance(other, Landmark):
                continue
            x, y = lane.local_coordinates(other.position)
            if lane.on_lane(other.position, x, y, margin=1):
                if x >= s:
                    if s_front is None or x <= s_front:
                        front, s_front = other, x
                elif s_rear is None or x > s_rear:
                    rear, s_rear = other, x
        return front, rear
