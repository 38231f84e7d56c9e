"""Reference definitions: highway_env.utils."""
import copy
import numpy as np
from highway_env import utils

PUBLIC = ('utils:do_every', 'utils:lmap', 'utils:constrain', 'utils:not_zero', 'utils:wrap_to_pi',
          'utils:point_in_rectangle', 'utils:point_in_rotated_rectangle', 'utils:has_corner_inside',
          'utils:rotated_rectangles_intersect', 'utils:is_consistent_dataset', 'utils:is_valid_observation',
          'utils:confidence_ellipsoid', 'utils:confidence_polytope', 'utils:point_in_ellipse', 'utils:class_from_path')


def do_every(duration, timer):
    return timer > duration


def lmap(v, x, y):
    return y[0] + (y[1] - y[0]) / (x[1] - x[0]) * (v - x[0])


def constrain(x, a, b):
    return np.clip(x, a, b)


def not_zero(x, eps=0.01):
    if abs(x) > eps:
        return x
    return eps if x > 0 else -eps


def wrap_to_pi(x):
    return (x + np.pi) % (2 * np.pi) - np.pi


def point_in_rectangle(point, rect_min, rect_max):
    return rect_min[0] <= point[0] <= rect_max[0] and rect_min[1] <= point[1] <= rect_max[1]


def point_in_rotated_rectangle(point, center, length, width, angle):
    d = point - center
    x = np.cos(angle) * d[0] + np.sin(angle) * d[1]
    y = np.cos(angle) * d[1] - np.sin(angle) * d[0]
    return -length / 2 <= x <= length / 2 and -width / 2 <= y <= width / 2


def point_in_ellipse(point, center, angle, length, width):
    c, s = np.cos(angle), np.sin(angle)
    r = np.matrix([[c, -s], [s, c]])
    ru = r.dot(point - center)
    return np.sum(np.square(ru / np.array([length, width]))) < 1


def has_corner_inside(rect1, rect2):
    (c1, l1, w1, a1), (c2, l2, w2, a2) = rect1, rect2
    c1 = np.array(c1)
    along = np.array([np.cos(a1), np.sin(a1)]) * l1 / 2
    across = np.array([-np.sin(a1), np.cos(a1)]) * w1 / 2
    points = [c1 + np.array([0, 0]), c1 - along, c1 + along, c1 - across, c1 + across,
              c1 - along - across, c1 - along + across, c1 + along - across, c1 + along + across]
    return any([utils.point_in_rotated_rectangle(p, c2, l2, w2, a2) for p in points])


def rotated_rectangles_intersect(rect1, rect2):
    return utils.has_corner_inside(rect1, rect2) or utils.has_corner_inside(rect2, rect1)


def class_from_path(path):
    import importlib
    parts = path.rsplit('.', 1)
    return getattr(importlib.import_module(parts[0]), parts[1])


def class_from_path__alt1(path):
    import importlib
    parts = path.rpartition('.')
    return getattr(importlib.import_module(parts[0]), parts[2])


def confidence_ellipsoid(data, lambda_=1e-5, delta=0.1, sigma=0.1, param_bound=1.0):
    phi = np.array(data['features'])
    y = np.array(data['outputs'])
    gram = 1 / sigma * np.transpose(phi) @ phi + lambda_ * np.identity(phi.shape[-1])
    theta = np.linalg.inv(gram) @ np.transpose(phi) @ y / sigma
    d = theta.shape[0]
    beta = np.sqrt(2 * np.log(np.sqrt(np.linalg.det(gram) / lambda_ ** d) / delta)) + np.sqrt(lambda_ * d) * param_bound
    return theta, gram, beta


def confidence_polytope(data, parameter_box):
    import itertools
    bound = np.amax(np.abs(parameter_box))
    theta, gram, beta = utils.confidence_ellipsoid(data, param_bound=bound)
    values, pp = np.linalg.eig(gram)
    radius = np.sqrt(beta) * np.linalg.inv(pp) @ np.diag(np.sqrt(1 / values))
    h = np.array(list(itertools.product([-1, 1], repeat=theta.shape[0])))
    d_theta = np.array([radius @ h_k for h_k in h])
    theta = np.clip(theta, parameter_box[0], parameter_box[1])
    for k, _ in enumerate(d_theta):
        d_theta[k] = np.clip(d_theta[k], parameter_box[0] - theta, parameter_box[1] - theta)
    return theta, d_theta, gram, beta


def is_valid_observation(y, phi, theta, gramian, beta, sigma=0.1):
    error = np.linalg.norm(y - np.tensordot(theta, phi, axes=[0, 0]))
    eig_phi, _ = np.linalg.eig(phi.transpose() @ phi)
    eig_g, _ = np.linalg.eig(gramian)
    return error < np.sqrt(np.amax(eig_phi) / np.amin(eig_g)) * beta + sigma


def is_consistent_dataset(data, parameter_box=None):
    train = copy.deepcopy(data)
    y, phi = train['outputs'].pop(-1), train['features'].pop(-1)
    y, phi = np.array(y)[..., np.newaxis], np.array(phi)[..., np.newaxis]
    if train['outputs'] and train['features']:
        theta, _, gramian, beta = utils.confidence_polytope(train, parameter_box=parameter_box)
        return utils.is_valid_observation(y, phi, theta, gramian, beta)
    return True
