"""Reference definitions: interval arithmetic and interval predictors."""
import itertools
import numpy as np
from numpy.linalg import LinAlgError
from highway_env.interval import (intervals_product, intervals_scaling, intervals_diff, interval_negative_part,
                                  is_metzler)

PUBLIC = ('interval:intervals_product', 'interval:intervals_scaling', 'interval:intervals_diff',
          'interval:interval_negative_part', 'interval:integrator_interval', 'interval:vector_interval_section',
          'interval:interval_absolute_to_local', 'interval:interval_local_to_absolute', 'interval:is_metzler', 'interval:polytope')


def plus(x):
    return np.maximum(x, 0)


def minus(x):
    return np.maximum(-x, 0)


def intervals_product(a, b):
    """[a-, a+] [b-, b+] by sign decomposition of both factors"""
    low, high = a[0], a[1]
    return np.array([
        np.dot(plus(low), plus(b[0])) - np.dot(plus(high), minus(b[0])) - np.dot(minus(low), plus(b[1])) +
        np.dot(minus(high), minus(b[1])),
        np.dot(plus(high), plus(b[1])) - np.dot(plus(low), minus(b[1])) - np.dot(minus(high), plus(b[0])) +
        np.dot(minus(low), minus(b[0]))])


def intervals_scaling(a, b):
    """scalar a times an interval: a+ b-  -  a- b+ ... a+ b+  -  a- b-"""
    return np.array([np.dot(plus(a), b[0]) - np.dot(minus(a), b[1]),
                     np.dot(plus(a), b[1]) - np.dot(minus(a), b[0])])


def intervals_diff(a, b):
    return np.array([a[0] - b[1], a[1] - b[0]])


def interval_negative_part(a):
    return np.minimum(a, 0)


def integrator_interval(x, k):
    if x[0] >= 0:
        return np.flip(-k, 0) * x
    if x[1] <= 0:
        return -k * x
    return -np.array([k[0], k[0]]) * x


def vector_interval_section(v_i, direction):
    d = [np.dot(c, direction) for c in
         [[v_i[0, 0], v_i[0, 1]], [v_i[0, 0], v_i[1, 1]], [v_i[1, 0], v_i[0, 1]], [v_i[1, 0], v_i[1, 1]]]]
    return np.array([min(d), max(d)])


def interval_absolute_to_local(position_i, lane):
    corners = np.array([[position_i[0, 0], position_i[0, 1]], [position_i[0, 0], position_i[1, 1]],
                        [position_i[1, 0], position_i[0, 1]], [position_i[1, 0], position_i[1, 1]]])
    local = np.array([lane.local_coordinates(c) for c in corners])
    s, r = local[:, 0], local[:, 1]
    return np.array([min(s), max(s)]), np.array([min(r), max(r)])


def interval_local_to_absolute(longitudinal_i, lateral_i, lane):
    corners = np.array([lane.position(*c) for c in [
        [longitudinal_i[0], lateral_i[0]], [longitudinal_i[0], lateral_i[1]],
        [longitudinal_i[1], lateral_i[0]], [longitudinal_i[1], lateral_i[1]]]])
    return np.array([np.amin(corners, axis=0), np.amax(corners, axis=0)])


def is_metzler(matrix, eps=1e-9):
    return (matrix - np.diag(np.diag(matrix)) >= -eps).all()


def polytope(parametrized_f, params_intervals):
    """centre and vertices of the image of a box of parameters by an affine map, every corner of the box considered"""
    centre = params_intervals.mean(axis=0)
    deviations = []
    for corner in itertools.product([0, 1], repeat=params_intervals.shape[1]):
        deviations.append(parametrized_f(params_intervals[corner, np.arange(len(corner))]) - parametrized_f(centre))
    return parametrized_f(centre), list({d.tostring(): d for d in deviations}.values())


class LPV:
    def __init__(self, x0, a0, da, b=None, d=None, omega_i=None, u=None, k=None, center=None, x_i=None):
        self.x0 = np.array(x0, dtype=float)
        self.da = [np.array(m) for m in da]
        self.b = np.zeros((*self.x0.shape, 1)) if b is None else np.array(b)
        self.d = np.zeros((*self.x0.shape, 1)) if d is None else np.array(d)
        self.omega_i = np.zeros((2, 1)) if omega_i is None else np.array(omega_i)
        self.u = np.zeros((1,)) if u is None else np.array(u)
        self.k = np.zeros((self.b.shape[1], self.b.shape[0])) if k is None else np.array(k)
        self.center = np.zeros(self.x0.shape) if center is None else np.array(center)
        self.a0 = np.array(a0, dtype=float)
        self.a0 += self.b @ self.k
        self.coordinates = None
        self.x_t = self.x0
        self.x_i = np.array([self.x0, self.x0]) if x_i is None else np.array(x_i)
        self.x_i_t = None
        self.update_coordinates_frame(self.a0)

    def update_coordinates_frame(self, a0):
        self.coordinates = None
        if is_metzler(a0):
            self.coordinates = (np.eye(a0.shape[0]), np.eye(a0.shape[0]))
        else:
            eig_v, modes = np.linalg.eig(a0)
            if np.isreal(eig_v).all():
                try:
                    self.coordinates = (modes, np.linalg.inv(modes))
                except LinAlgError:
                    pass
            if not self.coordinates:
                print("Non Metzler A0 with eigenvalues: ", eig_v)
        self.a0 = self.change_coordinates(self.a0, matrix=True)
        self.da = self.change_coordinates(self.da, matrix=True)
        self.b = self.change_coordinates(self.b, offset=False)
        self.x_i_t = np.array(self.change_coordinates([x for x in self.x_i]))

    def change_coordinates(self, value, matrix=False, back=False, interval=False, offset=True):
        if self.coordinates is None:
            return value
        modes, inverse = self.coordinates
        if interval and back:
            return intervals_scaling(modes, value[:, :, np.newaxis]).squeeze() + \
                offset * np.array([self.center, self.center])
        if interval:
            moved = value - offset * np.array([self.center, self.center])
            return intervals_scaling(inverse, moved[:, :, np.newaxis]).squeeze()
        if matrix:
            return modes @ value @ inverse if back else inverse @ value @ modes
        if isinstance(value, list):
            return [self.change_coordinates(v, back=back, offset=offset) for v in value]
        if back:
            return modes @ value + self.center if offset else modes @ value
        return inverse @ (value - self.center) if offset else inverse @ value

    def set_control(self, control, state=None):
        self.u = control if state is None else control - self.k @ state

    def step(self, dt):
        if is_metzler(self.a0):
            self.x_i_t = self.step_interval_predictor(self.x_i_t, dt)
        else:
            self.x_i_t = self.step_naive_predictor(self.x_i_t, dt)
        self.x_t = self.x_t + (self.a0 @ self.x_t + self.b @ self.u.squeeze(-1)) * dt

    def step_naive_predictor(self, x_i, dt):
        gain = self.a0 + sum(intervals_product([0, 1], [m, m]) for m in self.da)
        bu = (self.b @ self.u).squeeze(-1)
        return x_i + (intervals_product(gain, x_i) + intervals_product([self.d, self.d], self.omega_i) +
                      np.array([bu, bu])) * dt

    def step_interval_predictor(self, x_i, dt):
        up = sum(plus(m) for m in self.da)
        down = sum(minus(m) for m in self.da)
        low, high = x_i[0, :, np.newaxis], x_i[1, :, np.newaxis]
        wl, wh = self.omega_i[0, :, np.newaxis], self.omega_i[1, :, np.newaxis]
        dl = self.a0 @ low - up @ minus(low) - down @ plus(high) + plus(self.d) @ wl - minus(self.d) @ wh + self.b @ self.u
        dh = self.a0 @ high + up @ plus(high) + down @ minus(low) + plus(self.d) @ wh - minus(self.d) @ wl + self.b @ self.u
        return x_i + np.array([dl.squeeze(axis=-1), dh.squeeze(axis=-1)]) * dt
