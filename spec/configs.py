"""Documented default configurations."""
import os
import numpy as np
from highway_env.envs.intersection_env import IntersectionEnv, MultiAgentIntersectionEnv


class AbstractEnv:
    @classmethod
    def default_config(cls):
        return {"observation": {"type": "TimeToCollision"}, "action": {"type": "DiscreteMetaAction"},
                "simulation_frequency": 15, "policy_frequency": 1,
                "other_vehicles_type": "highway_env.vehicle.behavior.IDMVehicle",
                "screen_width": 600, "screen_height": 150, "centering_position": [0.3, 0.5], "scaling": 5.5,
                "show_trajectories": False, "render_agent": True,
                "offscreen_rendering": os.environ.get("OFFSCREEN_RENDERING", "0") == "1",
                "manual_control": False, "real_time_rendering": False}


class HighwayEnv:
    @classmethod
    def default_config(cls):
        config = super().default_config()
        config.update({"observation": {"type": "Kinematics"}, "action": {"type": "DiscreteMetaAction"},
                       "lanes_count": 4, "vehicles_count": 50, "controlled_vehicles": 1, "initial_lane_id": None,
                       "duration": 40, "ego_spacing": 2, "vehicles_density": 1, "collision_reward": -1,
                       "reward_speed_range": [20, 30], "offroad_terminal": False})
        return config


class IntersectionEnv:
    @classmethod
    def default_config(cls):
        config = super().default_config()
        config.update({
            "observation": {"type": "Kinematics", "vehicles_count": 15,
                            "features": ["presence", "x", "y", "vx", "vy", "cos_h", "sin_h"],
                            "features_range": {"x": [-100, 100], "y": [-100, 100], "vx": [-20, 20], "vy": [-20, 20]},
                            "absolute": True, "flatten": False, "observe_intentions": False},
            "action": {"type": "DiscreteMetaAction", "longitudinal": True, "lateral": False},
            "duration": 13, "destination": "o1", "controlled_vehicles": 1, "initial_vehicle_count": 10,
            "spawn_probability": 0.6, "screen_width": 600, "screen_height": 600, "centering_position": [0.5, 0.6],
            "scaling": 5.5 * 1.3, "collision_reward": IntersectionEnv.COLLISION_REWARD, "normalize_reward": False})
        return config


class MultiAgentIntersectionEnv:
    @classmethod
    def default_config(cls):
        config = super().default_config()
        config.update({
            "action": {"type": "MultiAgentAction", "action_config": {"type": "DiscreteMetaAction", "lateral": False,
                                                                     "longitudinal": True}},
            "observation": {"type": "MultiAgentObservation", "observation_config": {"type": "Kinematics"}},
            "controlled_vehicles": 2})
        return config


class RoundaboutEnv:
    @classmethod
    def default_config(cls):
        config = super().default_config()
        config.update({
            "observation": {"type": "Kinematics", "absolute": True,
                            "features_range": {"x": [-100, 100], "y": [-100, 100], "vx": [-15, 15], "vy": [-15, 15]}},
            "action": {"type": "DiscreteMetaAction"}, "incoming_vehicle_destination": None, "screen_width": 600,
            "screen_height": 600, "centering_position": [0.5, 0.6], "duration": 11})
        return config


class TwoWayEnv:
    @classmethod
    def default_config(cls):
        config = super().default_config()
        config.update({"observation": {"type": "TimeToCollision", "horizon": 5},
                       "action": {"type": "DiscreteMetaAction"}})
        return config


class ParkingEnv:
    @classmethod
    def default_config(cls):
        config = super().default_config()
        config.update({
            "observation": {"type": "KinematicsGoal", "features": ["x", "y", "vx", "vy", "cos_h", "sin_h"],
                            "scales": [100, 100, 5, 5, 1, 1], "normalize": False},
            "action": {"type": "ContinuousAction"}, "simulation_frequency": 15, "policy_frequency": 5,
            "duration": 100, "screen_width": 600, "screen_height": 300, "centering_position": [0.5, 0.5],
            "scaling": 7, "controlled_vehicles": 1})
        return config


class SummonEnv:
    @classmethod
    def default_config(cls):
        config = super().default_config()
        config.update({"vehicles_count": 10, "other_vehicles_type": "highway_env.vehicle.behavior.IDMVehicle"})
        return config


class LaneKeepingEnv:
    @classmethod
    def default_config(cls):
        config = super().default_config()
        config.update({
            "observation": {"type": "AttributesObservation", "attributes": ["state", "derivative", "reference_state"]},
            "action": {"type": "ContinuousAction", "steering_range": [-np.pi / 3, np.pi / 3], "longitudinal": False,
                       "lateral": True, "dynamical": True},
            "simulation_frequency": 10, "policy_frequency": 10, "state_noise": 0.05, "derivative_noise": 0.05,
            "screen_width": 600, "screen_height": 250, "scaling": 7, "centering_position": [0.4, 0.5]})
        return config


class ParkingEnvActionRepeat:
    def __init__(self):
        super().__init__({"policy_frequency": 1, "duration": 20})


class SummonEnvActionRepeat:
    def __init__(self):
        super().__init__()
        self.configure({"policy_frequency": 1})


class TupleMultiAgentIntersectionEnv:
    def __init__(self):
        super().__init__(MultiAgentIntersectionEnv())
