"""Reference definitions: rewards, costs, termination, steps and clean-up of the environments."""
import copy
import numpy as np
from highway_env import utils
from highway_env.envs.common.observation import MultiAgentObservation
from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle


class HighwayEnv:
    def _reward(self, action):
        me = self.vehicle
        lanes = self.road.network.all_side_lanes(me.lane_index)
        if isinstance(me, ControlledVehicle):
            lane = me.target_lane_index[2]
        else:
            lane = me.lane_index[2]
        if not me.on_road:
            return 0
        fast = np.clip(utils.lmap(me.speed, self.config["reward_speed_range"], [0, 1]), 0, 1)
        total = self.config["collision_reward"] * me.crashed + self.HIGH_SPEED_REWARD * fast \
            + self.RIGHT_LANE_REWARD * lane / max(len(lanes) - 1, 1)
        return utils.lmap(total, [self.config["collision_reward"],
                                  self.HIGH_SPEED_REWARD + self.RIGHT_LANE_REWARD], [0, 1])

    def _is_terminal(self):
        if self.vehicle.crashed or self.steps >= self.config["duration"] * self.config["policy_frequency"]:
            return True
        return self.config["offroad_terminal"] and not self.vehicle.on_road

    def _cost(self, action):
        return float(self.vehicle.crashed)


class MergeEnv:
    def _reward(self, action):
        me = self.vehicle
        total = self.COLLISION_REWARD * me.crashed + self.RIGHT_LANE_REWARD * me.lane_index[2] \
            + self.HIGH_SPEED_REWARD * me.speed_index / (me.SPEED_COUNT - 1)
        for v in self.road.vehicles:
            if isinstance(v, ControlledVehicle) and v.lane_index == ("b", "c", 2):
                total += self.MERGING_SPEED_REWARD * (v.target_speed - v.speed) / v.target_speed
        cost = {0: self.LANE_CHANGE_REWARD, 1: 0, 2: self.LANE_CHANGE_REWARD, 3: 0, 4: 0}
        return utils.lmap(cost[action] + total, [self.COLLISION_REWARD + self.MERGING_SPEED_REWARD,
                                                 self.HIGH_SPEED_REWARD + self.RIGHT_LANE_REWARD], [0, 1])

    def _is_terminal(self):
        return self.vehicle.crashed or self.vehicle.position[0] > 370


class TwoWayEnv:
    def _reward(self, action):
        me = self.vehicle
        n = len(self.road.network.all_side_lanes(me.lane_index))
        return self.HIGH_SPEED_REWARD * me.speed_index / (me.SPEED_COUNT - 1) \
            + self.LEFT_LANE_REWARD * (n - 1 - me.target_lane_index[2]) / max(n - 1, 1)

    def _is_terminal(self):
        return self.vehicle.crashed

    def _cost(self, action):
        return float(self.vehicle.crashed) + float(self.vehicle.lane_index[2] == 0) / 15


class RoundaboutEnv:
    def _reward(self, action):
        me = self.vehicle
        if isinstance(me, MDPVehicle):
            notch = me.speed_index
        else:
            notch = MDPVehicle.speed_to_index(me, me.speed)
        total = self.COLLISION_REWARD * me.crashed + self.HIGH_SPEED_REWARD * notch / max(me.SPEED_COUNT - 1, 1) \
            + self.LANE_CHANGE_REWARD * (action == 0 or action == 2)
        return utils.lmap(total, [self.COLLISION_REWARD + self.LANE_CHANGE_REWARD, self.HIGH_SPEED_REWARD], [0, 1])

    def _is_terminal(self):
        return self.vehicle.crashed or self.steps >= self.config["duration"]


class IntersectionEnv:
    def _reward(self, action):
        total = 0
        for v in self.controlled_vehicles:
            total += self._agent_reward(action, v)
        return total / len(self.controlled_vehicles)

    def _agent_reward(self, action, vehicle):
        if self.has_arrived(vehicle):
            reward = self.ARRIVED_REWARD
        else:
            reward = self.config["collision_reward"] * vehicle.crashed \
                + self.HIGH_SPEED_REWARD * (vehicle.speed_index == vehicle.SPEED_COUNT - 1)
        if self.config["normalize_reward"]:
            return utils.lmap(reward, [self.config["collision_reward"], self.ARRIVED_REWARD], [0, 1])
        return reward

    def _is_terminal(self):
        if any([v.crashed for v in self.controlled_vehicles]):
            return True
        if all([self.has_arrived(v) for v in self.controlled_vehicles]):
            return True
        return self.steps >= self.config["duration"] * self.config["policy_frequency"]

    def _agent_is_terminal(self, vehicle):
        return vehicle.crashed or self.steps >= self.config["duration"] * self.config["policy_frequency"] \
            or self.has_arrived(vehicle)

    def has_arrived(self, vehicle, exit_distance=25):
        a, b, _ = vehicle.lane_index
        return "il" in a and "o" in b and vehicle.lane.local_coordinates(vehicle.position)[0] >= exit_distance

    def step(self, action):
        obs, reward, done, info = super().step(action)
        self._clear_vehicles()
        self._spawn_vehicle(spawn_probability=self.config["spawn_probability"])
        info["agents_rewards"] = tuple([self._agent_reward(action, v) for v in self.controlled_vehicles])
        info["agents_dones"] = tuple([self._agent_is_terminal(v) for v in self.controlled_vehicles])
        return obs, reward, done, info

    def _clear_vehicles(self):
        kept = []
        for v in self.road.vehicles:
            leaving = "il" in v.lane_index[0] and "o" in v.lane_index[1] and \
                v.lane.local_coordinates(v.position)[0] >= v.lane.length - 4 * v.LENGTH
            if v in self.controlled_vehicles or not (leaving or v.route is None):
                kept.append(v)
        self.road.vehicles = kept

    def _cost(self, action):
        return float(self.vehicle.crashed)

    def _reset(self):
        self._make_road()
        self._make_vehicles(self.config["initial_vehicle_count"])


class LaneKeepingEnv:
    def _reward(self, action):
        lateral = self.lane.local_coordinates(self.vehicle.position)[1]
        return 1 - (lateral / self.lane.width) ** 2

    def _is_terminal(self):
        return False

    def _reset(self):
        self.trajectory = []
        self.interval_trajectory = []
        self._make_road()
        self._make_vehicles()

    def step(self, action):
        if self.lanes and not self.lane.on_lane(self.vehicle.position):
            self.lane = self.lanes.pop(0)
        self.store_data()
        if self.lpv:
            self.lpv.set_control(control=action.squeeze(-1), state=self.vehicle.state[[1, 2, 4, 5]])
            self.lpv.step(1 / self.config["simulation_frequency"])
        self.action_type.act(action)
        obs = self.observation_type.observe()
        self._simulate()
        reward = self._reward(action)
        return obs, reward, self._is_terminal(), {}


class ParkingEnv:
    def _reward(self, action):
        obs = self.observation_type.observe()
        total = 0
        for o in (obs if isinstance(obs, tuple) else (obs,)):
            total += self.compute_reward(o['achieved_goal'], o['desired_goal'], {})
        return total

    def compute_reward(self, achieved_goal, desired_goal, info, p=0.5):
        return -np.power(np.dot(np.abs(achieved_goal - desired_goal), self.REWARD_WEIGHTS), p)

    def _is_success(self, achieved_goal, desired_goal):
        return self.compute_reward(achieved_goal, desired_goal, {}) > -self.SUCCESS_GOAL_REWARD

    def _is_terminal(self):
        late = self.steps >= self.config["duration"]
        crash = any([v.crashed for v in self.controlled_vehicles])
        obs = self.observation_type.observe()
        parked = all([self._is_success(o['achieved_goal'], o['desired_goal'])
                      for o in (obs if isinstance(obs, tuple) else (obs,))])
        return late or crash or parked

    def step(self, action):
        obs, reward, done, info = super().step(action)
        if isinstance(self.observation_type, MultiAgentObservation):
            success = tuple([self._is_success(o['achieved_goal'], o['desired_goal']) for o in obs])
        else:
            success = self._is_success(obs['achieved_goal'], obs['desired_goal'])
        info.update({"is_success": success})
        return obs, reward, done, info

    def _reset(self):
        self._create_road()
        self._create_vehicles()


class SummonEnv:
    def compute_reward(self, achieved_goal, desired_goal, info, p=0.5):
        base = super().compute_reward(achieved_goal, desired_goal, info, p)
        return base + self.COLLISION_REWARD * self.vehicle.crashed
