"""Reference definitions: export to a finite decision process and time-to-collision grids."""
import importlib
from functools import partial
import numpy as np
from highway_env import utils
from highway_env.envs.common.finite_mdp import compute_ttc_grid, transition_model, clip_position

PUBLIC = ('finite_mdp:finite_mdp', 'finite_mdp:compute_ttc_grid', 'finite_mdp:transition_model',
          'finite_mdp:clip_position')


def compute_ttc_grid__pre(env, time_quantization, horizon, vehicle=None):
    return vehicle is not None or len(env.controlled_vehicles) > 0


def compute_ttc_grid(env, time_quantization, horizon, vehicle=None):
    me = vehicle or env.vehicle
    net = env.road.network
    lanes = net.all_side_lanes(me.lane_index)
    grid = np.zeros((me.SPEED_COUNT, len(lanes), int(horizon / time_quantization)))
    for k in range(grid.shape[0]):
        speed = me.index_to_speed(k)
        for other in env.road.vehicles:
            if speed == other.speed or other is me:
                continue
            gap = other.LENGTH / 2 + me.LENGTH / 2
            for margin, cost in [(0, 1), (-gap, 0.5), (gap, 0.5)]:
                closing = speed - other.speed * np.dot(other.direction, me.direction)
                ttc = (me.lane_distance_to(other) + margin) / utils.not_zero(closing)
                if ttc < 0:
                    continue
                if net.is_connected_road(me.lane_index, other.lane_index, route=me.route, depth=3):
                    if len(net.all_side_lanes(other.lane_index)) == len(lanes):
                        where = [other.lane_index[2]]
                    else:
                        where = range(grid.shape[1])
                    for t in [int(ttc / time_quantization), int(np.ceil(ttc / time_quantization))]:
                        if 0 <= t < grid.shape[2]:
                            grid[k, where, t] = np.maximum(grid[k, where, t], cost)
    return grid


def clip_position(h, i, j, grid):
    n = grid.shape
    return np.ravel_multi_index((np.clip(h, 0, n[0] - 1), np.clip(i, 0, n[1] - 1), np.clip(j, 0, n[2] - 1)), n)


def transition_model(h, i, j, a, grid):
    out = clip_position(h, i, j + 1, grid)
    left, right = a == 0, a == 2
    faster, slower = (a == 3) & (j == 0), (a == 4) & (j == 0)
    out[left] = clip_position(h[left], i[left] - 1, j[left] + 1, grid)
    out[right] = clip_position(h[right], i[right] + 1, j[right] + 1, grid)
    out[faster] = clip_position(h[faster] + 1, i[faster], j[faster] + 1, grid)
    out[slower] = clip_position(h[slower] - 1, i[slower], j[slower] + 1, grid)
    return out


def finite_mdp(env, time_quantization=1., horizon=10.):
    grid = compute_ttc_grid(env, time_quantization, horizon)
    state = np.ravel_multi_index((env.vehicle.speed_index, env.vehicle.lane_index[2], 0), grid.shape)
    n_actions = env.action_space.n
    transition = np.fromfunction(partial(transition_model, grid=grid), grid.shape + (n_actions,), dtype=int)
    transition = np.reshape(transition, (np.size(grid), n_actions))
    v, l, t = grid.shape
    lanes = np.arange(l) / max(l - 1, 1)
    speeds = np.arange(v) / max(v - 1, 1)
    values = np.ravel(env.config["collision_reward"] * grid
                      + env.RIGHT_LANE_REWARD * np.tile(lanes[np.newaxis, :, np.newaxis], (v, 1, t))
                      + env.HIGH_SPEED_REWARD * np.tile(speeds[:, np.newaxis, np.newaxis], (1, l, t)))
    costs = [env.LANE_CHANGE_REWARD, 0, env.LANE_CHANGE_REWARD, 0, 0]
    reward = np.fromfunction(np.vectorize(lambda s, a: values[s] + costs[a]), (np.size(values), np.size(costs)),
                             dtype=int)
    last = np.fromfunction(lambda h, i, j: j == grid.shape[2] - 1, grid.shape, dtype=int)
    terminal = np.ravel((grid == 1) | last)
    try:
        mdp = importlib.import_module("finite_mdp.mdp").DeterministicMDP(transition, reward, terminal, state=state)
        mdp.original_shape = grid.shape
        return mdp
    except ModuleNotFoundError as e:
        raise ModuleNotFoundError("finite_mdp is required: {}".format(e))
