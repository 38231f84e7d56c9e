"""Reference definitions: observation types."""
import numpy as np
import pandas as pd
from gym import spaces
from highway_env import utils
from highway_env.road.lane import AbstractLane
from highway_env.vehicle.controller import MDPVehicle
from highway_env.envs.common.finite_mdp import compute_ttc_grid
from highway_env.envs.common.observation import TimeToCollisionObservation, KinematicObservation, \
    OccupancyGridObservation, KinematicsGoalObservation, GrayscaleObservation, AttributesObservation, \
    MultiAgentObservation

PUBLIC = ('observation:observation_factory',)


def free_box(a):
    return spaces.Box(-np.inf, np.inf, shape=a.shape, dtype=np.float32)


class ObservationType:
    def __init__(self, env, **kwargs):
        self.env = env
        self.__observer_vehicle = None

    @property
    def observer_vehicle(self):
        bound = self.__observer_vehicle
        return bound if bound else self.env.vehicle

    @observer_vehicle.setter
    def observer_vehicle(self, vehicle):
        self.__observer_vehicle = vehicle


class GrayscaleObservation:
    def __init__(self, env, config):
        super().__init__(env)
        self.config = config
        self.observation_shape = config["observation_shape"]
        self.shape = self.observation_shape + (config["stack_size"],)
        self.state = np.zeros(self.shape)

    def space(self):
        try:
            return spaces.Box(shape=self.shape, low=0, high=1, dtype=np.float32)
        except AttributeError:
            return spaces.Space()

    def observe(self):
        rgb = self.env.render('rgb_array')
        grey = np.reshape(np.dot(rgb[..., :3], self.config['weights']), self.observation_shape)
        self.state = np.roll(self.state, -1, axis=-1)
        self.state[:, :, -1] = grey
        return self.state

    def observe__alt1(self):
        rgb = self.env.render('rgb_array')
        grey = np.reshape(np.dot(rgb[..., :3], self.config['weights']), self.observation_shape)
        self.state = np.roll(self.state, -1, axis=-1)
        self.state[..., -1] = grey
        return self.state


class TimeToCollisionObservation:
    def __init__(self, env, horizon=10, **kwargs):
        super().__init__(env)
        self.horizon = horizon

    def space(self):
        try:
            return spaces.Box(shape=self.observe().shape, low=0, high=1, dtype=np.float32)
        except AttributeError:
            return spaces.Space()

    def observe(self):
        if not self.env.road:
            return np.zeros((3, 3, int(self.horizon * self.env.config["policy_frequency"])))
        me = self.observer_vehicle
        grid = compute_ttc_grid(self.env, vehicle=me, time_quantization=1 / self.env.config["policy_frequency"],
                                horizon=self.horizon)
        wall = np.ones(np.shape(grid))
        lane = grid.shape[1] + me.lane_index[2]
        grid3 = np.concatenate([wall, grid, wall], axis=1)[:, lane - 1:lane + 2, :]
        n = np.ones(grid3.shape[0])
        n[np.array([0, -1])] += grid3.shape[0]
        grid3 = np.repeat(grid3, n.astype(int), axis=0)
        speed = grid.shape[0] + me.speed_index
        return grid3[speed - 1:speed + 2, :, :]


class KinematicObservation:
    def __init__(self, env, features=None, vehicles_count=5, features_range=None, absolute=False, order="sorted",
                 normalize=True, clip=True, see_behind=False, observe_intentions=False, **kwargs):
        super().__init__(env)
        self.features = features or self.FEATURES
        self.vehicles_count, self.features_range = vehicles_count, features_range
        self.absolute, self.order = absolute, order
        self.normalize, self.clip = normalize, clip
        self.see_behind, self.observe_intentions = see_behind, observe_intentions

    def space(self):
        return spaces.Box(shape=(self.vehicles_count, len(self.features)), low=-1, high=1, dtype=np.float32)

    def normalize_obs(self, df):
        if not self.features_range:
            n = len(self.env.road.network.all_side_lanes(self.observer_vehicle.lane_index))
            self.features_range = {
                "x": [-5.0 * MDPVehicle.SPEED_MAX, 5.0 * MDPVehicle.SPEED_MAX],
                "y": [-AbstractLane.DEFAULT_WIDTH * n, AbstractLane.DEFAULT_WIDTH * n],
                "vx": [-2 * MDPVehicle.SPEED_MAX, 2 * MDPVehicle.SPEED_MAX],
                "vy": [-2 * MDPVehicle.SPEED_MAX, 2 * MDPVehicle.SPEED_MAX]}
        for name, r in self.features_range.items():
            if name in df:
                df[name] = utils.lmap(df[name], [r[0], r[1]], [-1, 1])
                if self.clip:
                    df[name] = np.clip(df[name], -1, 1)
        return df

    def observe(self):
        if not self.env.road:
            return np.zeros(self.space().shape)
        me, count = self.observer_vehicle, self.vehicles_count
        df = pd.DataFrame.from_records([me.to_dict()])[self.features]
        near = self.env.road.close_vehicles_to(me, self.env.PERCEPTION_DISTANCE, count=count - 1,
                                               see_behind=self.see_behind)
        if near:
            rows = [v.to_dict(None if self.absolute else me, observe_intentions=self.observe_intentions)
                    for v in near[-count + 1:]]
            df = df.append(pd.DataFrame.from_records(rows)[self.features], ignore_index=True)
        if self.normalize:
            df = self.normalize_obs(df)
        if df.shape[0] < count:
            zeros = np.zeros((count - df.shape[0], len(self.features)))
            df = df.append(pd.DataFrame(data=zeros, columns=self.features), ignore_index=True)
        obs = df[self.features].values.copy()
        if self.order == "shuffled":
            self.env.np_random.shuffle(obs[1:])
        return obs

    def observe__alt1(self):
        if not self.env.road:
            return np.zeros(self.space().shape)
        me, count = self.observer_vehicle, self.vehicles_count
        df = pd.DataFrame.from_records([me.to_dict()])[self.features]
        near = self.env.road.close_vehicles_to(me, self.env.PERCEPTION_DISTANCE, count=count - 1,
                                               see_behind=self.see_behind)
        if near:
            rows = [v.to_dict(None if self.absolute else me, observe_intentions=self.observe_intentions)
                    for v in near]
            df = df.append(pd.DataFrame.from_records(rows)[self.features], ignore_index=True)
        if self.normalize:
            df = self.normalize_obs(df)
        if df.shape[0] < count:
            zeros = np.zeros((count - df.shape[0], len(self.features)))
            df = df.append(pd.DataFrame(data=zeros, columns=self.features), ignore_index=True)
        obs = df[self.features].values.copy()
        if self.order == "shuffled":
            self.env.np_random.shuffle(obs[1:])
        return obs


class OccupancyGridObservation:
    def __init__(self, env, features=None, grid_size=None, grid_step=None, features_range=None, absolute=False,
                 **kwargs):
        super().__init__(env)
        self.features = self.FEATURES if features is None else features
        self.grid_size = np.array(self.GRID_SIZE if grid_size is None else grid_size)
        self.grid_step = np.array(self.GRID_STEP if grid_step is None else grid_step)
        cells = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / self.grid_step), dtype=np.int)
        self.grid = np.zeros((len(self.features), *cells[::-1]))
        self.features_range, self.absolute = features_range, absolute

    def space(self):
        return spaces.Box(shape=self.grid.shape, low=-1, high=1, dtype=np.float32)

    def normalize(self, df):
        if not self.features_range:
            v = 2 * MDPVehicle.SPEED_MAX
            self.features_range = {"vx": [-v, v], "vy": [-v, v]}
        for name, r in self.features_range.items():
            if name in df:
                df[name] = utils.lmap(df[name], [r[0], r[1]], [-1, 1])
        return df

    def observe(self):
        if not self.env.road:
            return np.zeros(self.space().shape)
        if self.absolute:
            raise NotImplementedError()
        self.grid.fill(0)
        df = self.normalize(pd.DataFrame.from_records(
            [v.to_dict(self.observer_vehicle) for v in self.env.road.vehicles]))
        for layer, name in enumerate(self.features):
            for _, row in df.iterrows():
                x, y = row["x"], row["y"]
                if "x" in self.features_range:
                    x = utils.lmap(x, [-1, 1], [self.features_range["x"][0], self.features_range["x"][1]])
                if "y" in self.features_range:
                    y = utils.lmap(y, [-1, 1], [self.features_range["y"][0], self.features_range["y"][1]])
                i = int(np.floor((x - self.grid_size[0, 0]) / self.grid_step[0]))
                j = int(np.floor((y - self.grid_size[1, 0]) / self.grid_step[1]))
                if 0 <= j < self.grid.shape[-2] and 0 <= i < self.grid.shape[-1]:
                    self.grid[layer, j, i] = row[name]
        return np.clip(self.grid, -1, 1)


class KinematicsGoalObservation:
    def __init__(self, env, scales, **kwargs):
        self.scales = np.array(scales)
        super().__init__(env, **kwargs)

    def space(self):
        try:
            obs = self.observe()
            return spaces.Dict(dict(desired_goal=free_box(obs["desired_goal"]),
                                    achieved_goal=free_box(obs["achieved_goal"]),
                                    observation=free_box(obs["observation"])))
        except AttributeError:
            return spaces.Space()

    def observe(self):
        if not self.observer_vehicle:
            return {"observation": np.zeros((len(self.features),)),
                    "achieved_goal": np.zeros((len(self.features),)),
                    "desired_goal": np.zeros((len(self.features),))}
        here = np.ravel(pd.DataFrame.from_records([self.observer_vehicle.to_dict()])[self.features])
        goal = np.ravel(pd.DataFrame.from_records([self.env.goal.to_dict()])[self.features])
        return {"observation": here / self.scales,
                "achieved_goal": here / self.scales,
                "desired_goal": goal / self.scales}


class AttributesObservation:
    def __init__(self, env, attributes, **kwargs):
        self.env = env
        self.attributes = attributes

    def space(self):
        try:
            obs = self.observe()
            return spaces.Dict({a: free_box(obs[a]) for a in self.attributes})
        except AttributeError:
            return spaces.Space()

    def observe(self):
        return {a: getattr(self.env, a) for a in self.attributes}


class MultiAgentObservation:
    def __init__(self, env, observation_config, **kwargs):
        super().__init__(env)
        self.observation_config = observation_config
        self.agents_observation_types = []
        for v in self.env.controlled_vehicles:
            t = observation_factory(self.env, self.observation_config)
            t.observer_vehicle = v
            self.agents_observation_types.append(t)

    def space(self):
        return spaces.Tuple([t.space() for t in self.agents_observation_types])

    def observe(self):
        return tuple([t.observe() for t in self.agents_observation_types])


def observation_factory(env, config):
    name = config["type"]
    if name == "TimeToCollision":
        return TimeToCollisionObservation(env, **config)
    if name == "Kinematics":
        return KinematicObservation(env, **config)
    if name == "OccupancyGrid":
        return OccupancyGridObservation(env, **config)
    if name == "KinematicsGoal":
        return KinematicsGoalObservation(env, **config)
    if name == "GrayscaleObservation":
        return GrayscaleObservation(env, config)
    if name == "AttributesObservation":
        return AttributesObservation(env, **config)
    if name == "MultiAgentObservation":
        return MultiAgentObservation(env, **config)
    raise ValueError("unknown observation type")
