"""Reference definitions: action types."""
import numpy as np
from gym import spaces
from highway_env import utils
from highway_env.vehicle.controller import MDPVehicle
from highway_env.vehicle.dynamics import BicycleVehicle
from highway_env.vehicle.kinematics import Vehicle
from highway_env.envs.common.action import ContinuousAction, DiscreteMetaAction, MultiAgentAction

PUBLIC = ('action:action_factory',)


class ActionType:
    @property
    def controlled_vehicle(self):
        bound = self.__controlled_vehicle
        return bound if bound else self.env.vehicle

    @controlled_vehicle.setter
    def controlled_vehicle(self, vehicle):
        self.__controlled_vehicle = vehicle

    def __init__(self, env, **kwargs):
        self.env = env
        self.__controlled_vehicle = None


class ContinuousAction:
    def __init__(self, env, acceleration_range=None, steering_range=None, longitudinal=True, lateral=True,
                 dynamical=False, clip=True, **kwargs):
        super().__init__(env)
        if not longitudinal and not lateral:
            raise ValueError('nothing to control')
        self.acceleration_range = acceleration_range or self.ACCELERATION_RANGE
        self.steering_range = steering_range or self.STEERING_RANGE
        self.lateral, self.longitudinal = lateral, longitudinal
        self.dynamical, self.clip = dynamical, clip
        self.last_action = np.zeros(self.space().shape)

    def space(self):
        n = 1
        if self.lateral and self.longitudinal:
            n = 2
        return spaces.Box(-1.0, 1.0, shape=(n,), dtype=np.float32)

    @property
    def vehicle_class(self):
        if self.dynamical:
            return BicycleVehicle
        return Vehicle

    def act__pre(self, action):
        return self.longitudinal or self.lateral      # enforced by the constructor

    def act(self, action):
        command = np.clip(action, -1, 1) if self.clip else action
        acceleration = steering = 0
        if self.longitudinal:
            acceleration = utils.lmap(command[0], [-1, 1], self.acceleration_range)
        if self.lateral:
            steering = utils.lmap(command[1] if self.longitudinal else command[0], [-1, 1], self.steering_range)
        if self.longitudinal or self.lateral:
            self.controlled_vehicle.act({'acceleration': acceleration, 'steering': steering})
        self.last_action = command


class DiscreteMetaAction:
    def __init__(self, env, longitudinal=True, lateral=True, **kwargs):
        super().__init__(env)
        self.longitudinal, self.lateral = longitudinal, lateral
        if longitudinal and lateral:
            self.actions = self.ACTIONS_ALL
        elif longitudinal:
            self.actions = self.ACTIONS_LONGI
        elif lateral:
            self.actions = self.ACTIONS_LAT
        else:
            raise ValueError('nothing to control')
        self.actions_indexes = {name: i for i, name in self.actions.items()}

    def space(self):
        return spaces.Discrete(len(self.actions))

    @property
    def vehicle_class(self):
        return MDPVehicle

    def act(self, action):
        label = self.actions[action]
        self.controlled_vehicle.act(label)


class MultiAgentAction:
    def __init__(self, env, action_config, **kwargs):
        super().__init__(env)
        self.action_config = action_config
        self.agents_action_types = []
        for v in self.env.controlled_vehicles:
            t = action_factory(self.env, self.action_config)
            t.controlled_vehicle = v
            self.agents_action_types.append(t)

    def space(self):
        return spaces.Tuple([t.space() for t in self.agents_action_types])

    @property
    def vehicle_class(self):
        return action_factory(self.env, self.action_config).vehicle_class

    def act(self, action):
        assert isinstance(action, tuple)
        for a, t in zip(action, self.agents_action_types):
            t.act(a)


def action_factory(env, config):
    name = config['type']
    if name == 'MultiAgentAction':
        return MultiAgentAction(env, **config)
    if name == 'DiscreteMetaAction':
        return DiscreteMetaAction(env, **config)
    if name == 'ContinuousAction':
        return ContinuousAction(env, **config)
    raise ValueError('unknown action type')
