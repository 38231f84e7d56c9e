"""Reference definitions: environment base class."""
import copy
from gym.utils import seeding
from highway_env import utils
from highway_env.envs.common.abstract import EnvViewer
from highway_env.envs.common.action import action_factory, DiscreteMetaAction
from highway_env.envs.common.observation import observation_factory
from highway_env.envs.common.finite_mdp import finite_mdp
from highway_env.vehicle.behavior import IDMVehicle


class AbstractEnv:
    def __init__(self, config=None):
        self.config = self.default_config()
        if config:
            self.config.update(config)
        self.np_random = None
        self.seed()
        self.road = None
        self.controlled_vehicles = []
        self.action_type = self.action_space = None
        self.observation_type = self.observation_space = None
        self.define_spaces()
        self.time = self.steps = 0
        self.done = False
        self.viewer = self.automatic_rendering_callback = None
        self.should_update_rendering = True
        self.rendering_mode = 'human'
        self.enable_auto_render = False
        self.reset()

    @property
    def vehicle(self):
        if not self.controlled_vehicles:
            return None
        return self.controlled_vehicles[0]

    @vehicle.setter
    def vehicle(self, vehicle):
        self.controlled_vehicles = [vehicle]

    def seed(self, seed=None):
        rng, used = seeding.np_random(seed)
        self.np_random = rng
        return [used]

    def configure(self, config):
        if config:
            self.config.update(config)

    def define_spaces(self):
        self.observation_type = observation_factory(self, self.config["observation"])
        self.action_type = action_factory(self, self.config["action"])
        self.observation_space = self.observation_type.space()
        self.action_space = self.action_type.space()

    def reset(self):
        self.define_spaces()
        self.time = 0
        self.steps = 0
        self.done = False
        self.should_update_rendering = True
        self._reset()
        self.define_spaces()
        return self.observation_type.observe()

    def step(self, action):
        if self.vehicle is None or self.road is None:
            raise NotImplementedError('no scene')
        self.steps = self.steps + 1
        self._simulate(action)
        obs = self.observation_type.observe()
        reward = self._reward(action)
        terminal = self._is_terminal()
        info = {"speed": self.vehicle.speed, "crashed": self.vehicle.crashed, "action": action}
        try:
            info["cost"] = self._cost(action)
        except NotImplementedError:
            pass
        return obs, reward, terminal, info

    def _simulate(self, action=None):
        self.should_update_rendering = True
        for _ in range(int(self.config["simulation_frequency"] // self.config["policy_frequency"])):
            period = int(self.config["simulation_frequency"] // self.config["policy_frequency"])
            if self.time % period == 0 and not self.config["manual_control"] and action is not None:
                self.action_type.act(action)
            self.road.act()
            self.road.step(1 / self.config["simulation_frequency"])
            self.time = self.time + 1
            self._automatic_rendering()
            if self.done:
                break
            if self._is_terminal():
                break
        self.enable_auto_render = False

    def render(self, mode='human'):
        self.rendering_mode = mode
        if self.viewer is None:
            self.viewer = EnvViewer(self)
        self.enable_auto_render = True
        if self.should_update_rendering:
            self.viewer.display()
        if not self.viewer.offscreen:
            self.viewer.handle_events()
            if self.viewer is None:
                return None
        if mode == 'rgb_array':
            return self.viewer.get_image()
        self.should_update_rendering = False

    def close(self):
        self.done = True
        if self.viewer is not None:
            self.viewer.close()
        self.viewer = None

    def _automatic_rendering(self):
        if self.viewer is None or not self.enable_auto_render:
            return
        self.should_update_rendering = True
        if self.automatic_rendering_callback is None:
            self.render(self.rendering_mode)
        else:
            self.automatic_rendering_callback()

    def get_available_actions(self):
        if not isinstance(self.action_type, DiscreteMetaAction):
            raise ValueError("not a discrete action space")
        index = self.action_type.actions_indexes
        out = [index['IDLE']]
        net, me = self.road.network, self.vehicle
        for l in net.side_lanes(me.lane_index):
            if self.action_type.lateral and net.get_lane(l).is_reachable_from(me.position):
                if l[2] < me.lane_index[2]:
                    out.append(index['LANE_LEFT'])
                if l[2] > me.lane_index[2]:
                    out.append(index['LANE_RIGHT'])
        if self.action_type.longitudinal:
            if me.speed_index < me.SPEED_COUNT - 1:
                out.append(index['FASTER'])
            if me.speed_index > 0:
                out.append(index['SLOWER'])
        return out

    def simplify(self):
        env = copy.deepcopy(self)
        env.road.vehicles = [env.vehicle] + env.road.close_vehicles_to(env.vehicle, self.PERCEPTION_DISTANCE)
        return env

    def change_vehicles(self, vehicle_class_path):
        cls = utils.class_from_path(vehicle_class_path)
        env = copy.deepcopy(self)
        for i, v in enumerate(env.road.vehicles):
            if v is not env.vehicle:
                env.road.vehicles[i] = cls.create_from(v)
        return env

    def change_vehicles__alt1(self, vehicle_class_path):
        cls = utils.class_from_path(vehicle_class_path)
        env = copy.deepcopy(self)
        env.road.vehicles = [v if v is env.vehicle else cls.create_from(v) for v in env.road.vehicles]
        return env

    def set_preferred_lane(self, preferred_lane=None):
        env = copy.deepcopy(self)
        if preferred_lane is not None:
            for v in env.road.vehicles:
                if isinstance(v, IDMVehicle):
                    v.route = [(a, b, preferred_lane) for a, b, _ in (v.route or [v.lane_index])]
                    v.LANE_CHANGE_MAX_BRAKING_IMPOSED = 1000
        return env

    def set_route_at_intersection(self, _to):
        env = copy.deepcopy(self)
        for v in env.road.vehicles:
            if isinstance(v, IDMVehicle):
                v.set_route_at_intersection(_to)
        return env

    def set_vehicle_field(self, args):
        field, value = args
        env = copy.deepcopy(self)
        for v in env.road.vehicles:
            if v is not env.vehicle:
                setattr(v, field, value)
        return env

    def call_vehicle_method(self, args):
        method, arguments = args
        env = copy.deepcopy(self)
        for i, v in enumerate(env.road.vehicles):
            if hasattr(v, method):
                env.road.vehicles[i] = getattr(v, method)(*arguments)
        return env

    def call_vehicle_method__alt1(self, args):
        method, arguments = args
        env = copy.deepcopy(self)
        env.road.vehicles = [getattr(v, method)(*arguments) if hasattr(v, method) else v for v in env.road.vehicles]
        return env

    def randomize_behaviour(self):
        env = copy.deepcopy(self)
        for v in env.road.vehicles:
            if isinstance(v, IDMVehicle):
                v.randomize_behavior()
        return env

    def to_finite_mdp(self):
        return finite_mdp(self, time_quantization=1 / self.config["policy_frequency"])

    def __deepcopy__(self, memo):
        new = self.__class__.__new__(self.__class__)
        memo[id(self)] = new
        for k, v in self.__dict__.items():
            if k == 'viewer' or k == 'automatic_rendering_callback':
                setattr(new, k, None)
            else:
                setattr(new, k, copy.deepcopy(v, memo))
        return new


class MultiAgentWrapper:
    def step(self, action):
        obs, _, _, info = super().step(action)
        return obs, info['agents_rewards'], info['agents_dones'], info
