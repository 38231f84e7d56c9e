"""Reference definitions: road layouts and initial traffic of the environments."""
import copy
import numpy as np
from highway_env import utils
from highway_env.road.lane import AbstractLane, CircularLane, LineType, SineLane, StraightLane
from highway_env.road.objects import Landmark, Obstacle
from highway_env.road.regulation import RegulatedRoad
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.controller import MDPVehicle
from highway_env.vehicle.kinematics import Vehicle

SOLID, DASHED, BLANK = LineType.CONTINUOUS_LINE, LineType.STRIPED, LineType.NONE


class HighwayEnv:
    def _reset(self):
        self._create_road()
        self._create_vehicles()

    def _create_road(self):
        self.road = Road(network=RoadNetwork.straight_road_network(self.config["lanes_count"]),
                         np_random=self.np_random, record_history=self.config["show_trajectories"])

    def _create_vehicles(self):
        self.controlled_vehicles = []
        for _ in range(self.config["controlled_vehicles"]):
            v = self.action_type.vehicle_class.create_random(self.road, speed=25,
                                                             lane_id=self.config["initial_lane_id"],
                                                             spacing=self.config["ego_spacing"])
            self.road.vehicles.append(v)
            self.controlled_vehicles.append(v)
        traffic = utils.class_from_path(self.config["other_vehicles_type"])
        for _ in range(self.config["vehicles_count"]):
            v = traffic.create_random(self.road, spacing=1 / self.config["vehicles_density"])
            self.road.vehicles.append(v)


class MergeEnv:
    def _reset(self):
        self._make_road()
        self._make_vehicles()

    def _make_road(self):
        net = RoadNetwork()
        ya, yb = 0, StraightLane.DEFAULT_WIDTH
        # main road in three sections: 0 - 230 - 310 - 460
        net.add_lane("a", "b", StraightLane([0, ya], [230, ya], line_types=[SOLID, DASHED]))
        net.add_lane("b", "c", StraightLane([230, ya], [310, ya], line_types=[SOLID, DASHED]))
        net.add_lane("c", "d", StraightLane([310, ya], [460, ya], line_types=[SOLID, DASHED]))
        net.add_lane("a", "b", StraightLane([0, yb], [230, yb], line_types=[BLANK, SOLID]))
        net.add_lane("b", "c", StraightLane([230, yb], [310, yb], line_types=[BLANK, DASHED]))
        net.add_lane("c", "d", StraightLane([310, yb], [460, yb], line_types=[BLANK, SOLID]))
        # access ramp
        amplitude = 3.25
        ramp = StraightLane([0, 14.5], [150, 14.5], line_types=[SOLID, SOLID], forbidden=True)
        bend = SineLane(ramp.position(150, -amplitude), ramp.position(230, -amplitude), amplitude,
                        2 * np.pi / 160, np.pi / 2, line_types=[SOLID, SOLID], forbidden=True)
        end = bend.position(80, 0)
        merge = StraightLane(end, end + [80, 0], line_types=[BLANK, SOLID], forbidden=True)
        net.add_lane("j", "k", ramp)
        net.add_lane("k", "b", bend)
        net.add_lane("b", "c", merge)
        road = Road(network=net, np_random=self.np_random, record_history=self.config["show_trajectories"])
        road.objects.append(Obstacle(road, merge.position(80, 0)))
        self.road = road

    def _make_vehicles(self):
        road = self.road
        me = self.action_type.vehicle_class(road, road.network.get_lane(("a", "b", 1)).position(30, 0), speed=30)
        road.vehicles.append(me)
        traffic = utils.class_from_path(self.config["other_vehicles_type"])
        for lane, x, speed in ((0, 90, 29), (1, 70, 31), (0, 5, 31.5)):
            road.vehicles.append(traffic(road, road.network.get_lane(("a", "b", lane)).position(x, 0), speed=speed))
        late = traffic(road, road.network.get_lane(("j", "k", 0)).position(110, 0), speed=20)
        late.target_speed = 30
        road.vehicles.append(late)
        self.vehicle = me


class TwoWayEnv:
    def _reset(self):
        self._make_road()
        self._make_vehicles()

    def _make_road(self, length=800):
        net = RoadNetwork()
        y = StraightLane.DEFAULT_WIDTH
        net.add_lane("a", "b", StraightLane([0, 0], [length, 0], line_types=(SOLID, DASHED)))
        net.add_lane("a", "b", StraightLane([0, y], [length, y], line_types=(BLANK, SOLID)))
        net.add_lane("b", "a", StraightLane([length, 0], [0, 0], line_types=(BLANK, BLANK)))
        self.road = Road(network=net, np_random=self.np_random, record_history=self.config["show_trajectories"])

    def _make_vehicles(self):
        road = self.road
        me = self.action_type.vehicle_class(road, road.network.get_lane(("a", "b", 1)).position(30, 0), speed=30)
        road.vehicles.append(me)
        self.vehicle = me
        traffic = utils.class_from_path(self.config["other_vehicles_type"])
        ahead = road.network.get_lane(("a", "b", 1))
        for i in range(3):
            v = traffic(road, position=ahead.position(70 + 40 * i + 10 * self.np_random.randn(), 0),
                        heading=ahead.heading_at(70 + 40 * i), speed=24 + 2 * self.np_random.randn(),
                        enable_lane_change=False)
            self.road.vehicles.append(v)
        oncoming = road.network.get_lane(("b", "a", 0))
        for i in range(2):
            v = traffic(road, position=oncoming.position(200 + 100 * i + 10 * self.np_random.randn(), 0),
                        heading=oncoming.heading_at(200 + 100 * i), speed=20 + 5 * self.np_random.randn(),
                        enable_lane_change=False)
            v.target_lane_index = ("b", "a", 0)
            self.road.vehicles.append(v)


class RoundaboutEnv:
    def _reset(self):
        self._make_road()
        self._make_vehicles()

    def _make_road(self):
        net = RoadNetwork()
        n, c, s = LineType.NONE, LineType.CONTINUOUS, LineType.STRIPED
        alpha = 24
        sections = [("se", "ex", 90 - alpha, alpha), ("ex", "ee", alpha, -alpha), ("ee", "nx", -alpha, -90 + alpha),
                    ("nx", "ne", -90 + alpha, -90 - alpha), ("ne", "wx", -90 - alpha, -180 + alpha),
                    ("wx", "we", -180 + alpha, -180 - alpha), ("we", "sx", 180 - alpha, 90 + alpha),
                    ("sx", "se", 90 + alpha, 90 - alpha)]
        for radius, line in ((20, [c, s]), (24, [n, c])):
            for a, b, start, end in sections:
                net.add_lane(a, b, CircularLane([0, 0], radius, np.deg2rad(start), np.deg2rad(end), clockwise=False,
                                                line_types=line))
        access, dev, a = 170, 85, 5
        half, st, en = dev / 2, 17, 68
        w = 2 * np.pi / dev
        down, up = -np.pi / 2, -np.pi / 2 + w * en
        # south
        net.add_lane("ser", "ses", StraightLane([2, access], [2, half], line_types=(s, c)))
        net.add_lane("ses", "se", SineLane([2 + a, half], [2 + a, half - st], a, w, down, line_types=(c, c)))
        net.add_lane("sx", "sxs", SineLane([-2 - a, -half + en], [-2 - a, half], a, w, up, line_types=(c, c)))
        net.add_lane("sxs", "sxr", StraightLane([-2, half], [-2, access], line_types=(n, c)))
        # east
        net.add_lane("eer", "ees", StraightLane([access, -2], [half, -2], line_types=(s, c)))
        net.add_lane("ees", "ee", SineLane([half, -2 - a], [half - st, -2 - a], a, w, down, line_types=(c, c)))
        net.add_lane("ex", "exs", SineLane([-half + en, 2 + a], [half, 2 + a], a, w, up, line_types=(c, c)))
        net.add_lane("exs", "exr", StraightLane([half, 2], [access, 2], line_types=(n, c)))
        # north
        net.add_lane("ner", "nes", StraightLane([-2, -access], [-2, -half], line_types=(s, c)))
        net.add_lane("nes", "ne", SineLane([-2 - a, -half], [-2 - a, -half + st], a, w, down, line_types=(c, c)))
        net.add_lane("nx", "nxs", SineLane([2 + a, half - en], [2 + a, -half], a, w, up, line_types=(c, c)))
        net.add_lane("nxs", "nxr", StraightLane([2, -half], [2, -access], line_types=(n, c)))
        # west
        net.add_lane("wer", "wes", StraightLane([-access, 2], [-half, 2], line_types=(s, c)))
        net.add_lane("wes", "we", SineLane([-half, 2 + a], [-half + st, 2 + a], a, w, down, line_types=(c, c)))
        net.add_lane("wx", "wxs", SineLane([half - en, -2 - a], [-half, -2 - a], a, w, up, line_types=(c, c)))
        net.add_lane("wxs", "wxr", StraightLane([-half, -2], [-access, -2], line_types=(n, c)))
        self.road = Road(network=net, np_random=self.np_random, record_history=self.config["show_trajectories"])

    def _make_vehicles(self):
        road, rng = self.road, self.np_random
        lane = road.network.get_lane(("ser", "ses", 0))
        me = self.action_type.vehicle_class(road, lane.position(125, 0), speed=8, heading=lane.heading_at(140))
        try:
            me.plan_route_to("nxs")
        except AttributeError:
            pass
        me.SPEED_MIN, me.SPEED_MAX, me.SPEED_COUNT = 0, 16, 3
        if isinstance(me, MDPVehicle):
            me.speed_index = me.speed_to_index(me.speed)
            me.target_speed = me.index_to_speed(me.speed_index)
        road.vehicles.append(me)
        self.vehicle = me
        exits = ["exr", "sxr", "nxr"]
        traffic = utils.class_from_path(self.config["other_vehicles_type"])
        v = traffic.make_on_lane(road, ("we", "sx", 1), longitudinal=5 + rng.randn() * 2, speed=16 + rng.randn() * 2)
        if self.config["incoming_vehicle_destination"] is None:
            goal = rng.choice(exits)
        else:
            goal = exits[self.config["incoming_vehicle_destination"]]
        v.plan_route_to(goal)
        v.randomize_behavior()
        road.vehicles.append(v)
        for where, x in ((("we", "sx", 0), 20), (("we", "sx", 0), -20), (("eer", "ees", 0), 50)):
            v = traffic.make_on_lane(road, where, longitudinal=x + rng.randn() * 2, speed=16 + rng.randn() * 2)
            v.plan_route_to(rng.choice(exits))
            v.randomize_behavior()
            road.vehicles.append(v)


class ParkingEnv:
    def _create_road(self, spots=15):
        net = RoadNetwork()
        width, near, length = 4.0, 10, 8
        kinds = (LineType.CONTINUOUS, LineType.CONTINUOUS)
        for k in range(spots):
            x = (k - spots // 2) * width - width / 2
            net.add_lane("a", "b", StraightLane([x, near], [x, near + length], width=width, line_types=kinds))
            net.add_lane("b", "c", StraightLane([x, -near], [x, -near - length], width=width, line_types=kinds))
        self.road = Road(network=net, np_random=self.np_random, record_history=self.config["show_trajectories"])

    def _create_vehicles(self):
        self.controlled_vehicles = []
        for i in range(self.config["controlled_vehicles"]):
            v = self.action_type.vehicle_class(self.road, [20 * i, 0], 2 * np.pi * self.np_random.rand(), 0)
            self.road.vehicles.append(v)
            self.controlled_vehicles.append(v)
        spot = self.np_random.choice(self.road.network.lanes_list())
        self.goal = Landmark(self.road, spot.position(spot.length / 2, 0), heading=spot.heading)
        self.road.objects.append(self.goal)


class SummonEnv:
    def _create_road(self, spots=15):
        net = RoadNetwork()
        width, near, length = 4.0, 12, 8
        solid = (LineType.CONTINUOUS, LineType.CONTINUOUS)
        for k in range(spots):
            x = (k - spots // 2) * width - width / 2
            net.add_lane("a", "b", StraightLane([x, near], [x, near + length], width=width, line_types=solid,
                                                speed_limit=5))
            net.add_lane("b", "c", StraightLane([x, -near], [x, -near - length], width=width, line_types=solid,
                                                speed_limit=5))
        self.spots = spots
        self.vehicle_starting = [x, near + length / 2]
        self.num_middle_lanes = 0
        self.x_range = (int(spots / 2) + 1) * width
        for y in np.arange(-near + width, near, width):
            net.add_lane("d", "e", StraightLane([-self.x_range, y], [self.x_range, y], width=width,
                                                line_types=(LineType.STRIPED, LineType.STRIPED), speed_limit=5))
            self.num_middle_lanes += 1
        self.road = Road(network=net, np_random=self.np_random, record_history=self.config["show_trajectories"])

    def _create_vehicles(self, parked_probability=0.75):
        rng = self.np_random
        self.vehicle = self.action_type.vehicle_class(self.road, self.vehicle_starting, 2 * np.pi * rng.rand(), 0)
        self.road.vehicles.append(self.vehicle)
        x = rng.choice([-2 * self.spots - 10, 2 * self.spots + 10])
        self.goal = Landmark(self.road, [x, 0], heading=0)
        self.road.objects.append(self.goal)
        traffic = utils.class_from_path(self.config["other_vehicles_type"])
        for i in range(self.config["vehicles_count"]):
            if rng.rand() <= parked_probability:
                lane = ("a", "b", i) if rng.rand() >= 0.5 else ("b", "c", i)
                v = Vehicle.make_on_lane(self.road, lane, 4, speed=0)
            else:
                k = rng.randint(0, self.num_middle_lanes)
                s = i * 5 - self.x_range / 8 * rng.randint(-1, 1)
                v = traffic.make_on_lane(self.road, ("d", "e", k), s, speed=2)
            self.road.vehicles.append(v)
        kept = []
        for v in self.road.vehicles:
            if v is self.vehicle or np.linalg.norm(v.position - self.vehicle.position) >= 20:
                kept.append(v)
        self.road.vehicles = kept


class IntersectionEnv:
    def _make_road(self):
        width = AbstractLane.DEFAULT_WIDTH
        right = width + 5
        left = right + width
        outer = right + width / 2
        access = 100
        net = RoadNetwork()
        n, c, s = LineType.NONE, LineType.CONTINUOUS, LineType.STRIPED
        for k in range(4):
            angle = np.radians(90 * k)
            priority = 3 if k % 2 else 1
            rot = np.array([[np.cos(angle), -np.sin(angle)], [np.sin(angle), np.cos(angle)]])
            o, i = "o" + str(k), "ir" + str(k)
            # incoming
            net.add_lane(o, i, StraightLane(rot @ np.array([width / 2, access + outer]),
                                            rot @ np.array([width / 2, outer]),
                                            line_types=[s, c], priority=priority, speed_limit=10))
            # right turn, left turn, straight
            net.add_lane(i, "il" + str((k - 1) % 4),
                         CircularLane(rot @ np.array([outer, outer]), right, angle + np.radians(180),
                                      angle + np.radians(270), line_types=[n, c], priority=priority, speed_limit=10))
            net.add_lane(i, "il" + str((k + 1) % 4),
                         CircularLane(rot @ np.array([-left + width / 2, left - width / 2]), left,
                                      angle + np.radians(0), angle + np.radians(-90), clockwise=False,
                                      line_types=[n, n], priority=priority - 1, speed_limit=10))
            net.add_lane(i, "il" + str((k + 2) % 4),
                         StraightLane(rot @ np.array([width / 2, outer]), rot @ np.array([width / 2, -outer]),
                                      line_types=[s, n], priority=priority, speed_limit=10))
            # exit
            net.add_lane("il" + str((k - 1) % 4), "o" + str((k - 1) % 4),
                         StraightLane(rot @ np.flip([width / 2, outer], axis=0),
                                      rot @ np.flip([width / 2, access + outer], axis=0),
                                      line_types=[n, c], priority=priority, speed_limit=10))
        self.road = RegulatedRoad(network=net, np_random=self.np_random,
                                  record_history=self.config["show_trajectories"])

    def _make_vehicles(self, n_vehicles=10):
        traffic = utils.class_from_path(self.config["other_vehicles_type"])
        traffic.DISTANCE_WANTED = 7
        traffic.COMFORT_ACC_MAX = 6
        traffic.COMFORT_ACC_MIN = -3
        for t in range(n_vehicles - 1):
            self._spawn_vehicle(np.linspace(0, 80, n_vehicles)[t])
        for _ in range(3):
            for _ in range(self.config["simulation_frequency"]):
                self.road.act()
                self.road.step(1 / self.config["simulation_frequency"])
        self._spawn_vehicle(60, spawn_probability=1, go_straight=True, position_deviation=0.1, speed_deviation=0)
        self.controlled_vehicles = []
        for k in range(self.config["controlled_vehicles"]):
            lane = self.road.network.get_lane(("o{}".format(k % 4), "ir{}".format(k % 4), 0))
            goal = self.config["destination"] or "o" + str(self.np_random.randint(1, 4))
            me = self.action_type.vehicle_class(self.road, lane.position(60 + 5 * self.np_random.randn(1), 0),
                                                speed=lane.speed_limit, heading=lane.heading_at(60))
            me = me.plan_route_to(goal)
            me.SPEED_MIN = 0
            me.SPEED_MAX = 9
            me.SPEED_COUNT = 3
            me.speed_index = me.speed_to_index(lane.speed_limit)
            me.target_speed = me.index_to_speed(me.speed_index)
            self.road.vehicles.append(me)
            self.controlled_vehicles.append(me)
            kept = []
            for v in self.road.vehicles:
                if v in self.controlled_vehicles or np.linalg.norm(v.position - me.position) >= 20:
                    kept.append(v)
            self.road.vehicles = kept

    def _make_vehicles__alt1(self, n_vehicles=10):
        traffic = utils.class_from_path(self.config["other_vehicles_type"])
        traffic.DISTANCE_WANTED = 7
        traffic.COMFORT_ACC_MAX = 6
        traffic.COMFORT_ACC_MIN = -3
        for t in range(n_vehicles - 1):
            self._spawn_vehicle(np.linspace(0, 80, n_vehicles)[t])
        for _ in range(3 * self.config["simulation_frequency"]):
            self.road.act()
            self.road.step(1 / self.config["simulation_frequency"])
        self._spawn_vehicle(60, spawn_probability=1, go_straight=True, position_deviation=0.1, speed_deviation=0)
        self.controlled_vehicles = []
        for k in range(self.config["controlled_vehicles"]):
            lane = self.road.network.get_lane(("o{}".format(k % 4), "ir{}".format(k % 4), 0))
            goal = self.config["destination"] or "o" + str(self.np_random.randint(1, 4))
            me = self.action_type.vehicle_class(self.road, lane.position(60 + 5 * self.np_random.randn(1), 0),
                                                speed=lane.speed_limit, heading=lane.heading_at(60))
            me = me.plan_route_to(goal)
            me.SPEED_MIN = 0
            me.SPEED_MAX = 9
            me.SPEED_COUNT = 3
            me.speed_index = me.speed_to_index(lane.speed_limit)
            me.target_speed = me.index_to_speed(me.speed_index)
            self.road.vehicles.append(me)
            self.controlled_vehicles.append(me)
            kept = []
            for v in self.road.vehicles:
                if v in self.controlled_vehicles or np.linalg.norm(v.position - me.position) >= 20:
                    kept.append(v)
            self.road.vehicles = kept

    def _spawn_vehicle(self, longitudinal=0, position_deviation=1., speed_deviation=1., spawn_probability=0.6,
                       go_straight=False):
        rng = self.np_random
        if rng.rand() > spawn_probability:
            return
        route = rng.choice(range(4), size=2, replace=False)
        if go_straight:
            route[1] = (route[0] + 2) % 4
        traffic = utils.class_from_path(self.config["other_vehicles_type"])
        new = traffic.make_on_lane(self.road, ("o" + str(route[0]), "ir" + str(route[0]), 0),
                                   longitudinal=longitudinal + 5 + rng.randn() * position_deviation,
                                   speed=8 + rng.randn() * speed_deviation)
        if any([np.linalg.norm(v.position - new.position) < 15 for v in self.road.vehicles]):
            return
        new.plan_route_to("o" + str(route[1]))
        new.randomize_behavior()
        self.road.vehicles.append(new)
        return new


class LaneKeepingEnv:
    def __init__(self, config=None):
        self.lane = self.lpv = None
        self.lanes, self.trajectory, self.interval_trajectory = [], [], []
        super().__init__(config)

    def _make_road(self):
        net = RoadNetwork()
        sine = SineLane([0, 0], [500, 0], amplitude=5, pulsation=2 * np.pi / 100, phase=0, width=10,
                        line_types=[DASHED, DASHED])
        net.add_lane("a", "b", sine)
        first = StraightLane([50, 50], [115, 15], line_types=(DASHED, DASHED), width=10)
        net.add_lane("c", "d", first)
        self.lanes = [first, sine]
        self.lane = self.lanes.pop(0)
        net.add_lane("d", "a", StraightLane([115, 15], [135, 15 + 20 * (15 - 50) / (115 - 50)],
                                            line_types=(BLANK, DASHED), width=10))
        self.road = Road(network=net, np_random=self.np_random, record_history=self.config["show_trajectories"])

    def _make_vehicles(self):
        road = self.road
        lane = road.network.get_lane(("c", "d", 0))
        me = self.action_type.vehicle_class(road, lane.position(50, -4), heading=lane.heading_at(0), speed=8.3)
        road.vehicles.append(me)
        self.vehicle = me

    @property
    def state(self):
        if not self.vehicle:
            return np.zeros((4, 1))
        a = self.config["state_noise"]
        return self.vehicle.state[[1, 2, 4, 5]] + \
            self.np_random.uniform(low=-a, high=a, size=self.vehicle.state[[0, 2, 4, 5]].shape)

    @property
    def derivative(self):
        if not self.vehicle:
            return np.zeros((4, 1))
        a = self.config["derivative_noise"]
        return self.vehicle.derivative[[1, 2, 4, 5]] + \
            self.np_random.uniform(low=-a, high=a, size=self.vehicle.derivative[[0, 2, 4, 5]].shape)

    @property
    def reference_state(self):
        if not self.vehicle or not self.lane:
            return np.zeros((4, 1))
        s, lateral = self.lane.local_coordinates(self.vehicle.position)
        y = self.vehicle.state[[1, 2, 4, 5]][0, 0]
        return np.array([[y - lateral], [self.lane.heading_at(s)], [0], [0]])

    def store_data(self):
        if self.lpv:
            state = self.vehicle.state.copy()
            interval = []
            for x_t in self.lpv.change_coordinates(self.lpv.x_i_t, back=True, interval=True):
                np.put(state, [1, 2, 4, 5], x_t)
                interval.append(state.squeeze(-1).copy())
            self.interval_trajectory.append(interval)
        self.trajectory.append(copy.deepcopy(self.vehicle.state))

    def store_data__alt1(self):
        if self.lpv:
            state = self.vehicle.state.copy()
            interval = []
            for x_t in self.lpv.change_coordinates(self.lpv.x_i_t, back=True, interval=True):
                np.put(state, [1, 2, 4, 5], x_t)
                interval.append(state.squeeze(-1).copy())
            self.interval_trajectory.append(interval)
        self.trajectory.append(self.vehicle.state.copy())
