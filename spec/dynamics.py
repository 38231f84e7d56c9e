"""Reference definitions: dynamic bicycle model."""
import numpy as np
from highway_env.vehicle.kinematics import Vehicle


class BicycleVehicle:
    def __init__(self, road, position, heading=0, speed=0):
        Vehicle.__init__(self, road, position, heading, speed)
        self.lateral_speed = 0
        self.yaw_rate = 0
        self.theta = None
        self.A_lat, self.B_lat = self.lateral_lpv_dynamics()

    @property
    def derivative_linear(self):
        """the lateral dynamics linearised as dx = A x + B u, with x = (lateral speed, yaw rate)"""
        self.A_lat, self.B_lat = self.lateral_lpv_dynamics()
        lateral = self.A_lat @ np.array([[self.lateral_speed], [self.yaw_rate]]) + \
            self.B_lat @ np.array([[self.action["steering"]]])
        c, s = np.cos(self.heading), np.sin(self.heading)
        v = np.array([[c, -s], [s, c]]) @ np.array([self.speed, self.lateral_speed])
        return np.array([[v[0]], [v[1]], [self.yaw_rate], [self.action["acceleration"]], lateral[0], lateral[1]])

    def state(self):
        return np.array([[self.position[0]], [self.position[1]], [self.heading], [self.speed], [self.lateral_speed],
                         [self.yaw_rate]])

    def derivative(self):
        v, u, r = self.speed, self.lateral_speed, self.yaw_rate
        front = 2 * self.FRICTION_FRONT * (self.action["steering"] - np.arctan2(u + self.LENGTH_A * r, v))
        rear = 2 * self.FRICTION_REAR * (-np.arctan2(u - self.LENGTH_B * r, v))
        if abs(v) < 1:
            front = -self.MASS * u - self.INERTIA_Z / self.LENGTH_A * r
            rear = -self.MASS * u + self.INERTIA_Z / self.LENGTH_A * r
        c, s = np.cos(self.heading), np.sin(self.heading)
        return np.array([[c * v - s * u], [s * v + c * u], [r], [self.action['acceleration']],
                         [(front + rear) / self.MASS - r * v],
                         [(self.LENGTH_A * front - self.LENGTH_B * rear) / self.INERTIA_Z]])

    def step(self, dt):
        self.clip_actions()
        d = self.derivative
        self.position += d[0:2, 0] * dt
        self.heading += self.yaw_rate * dt
        self.speed += self.action['acceleration'] * dt
        self.lateral_speed += d[4, 0] * dt
        self.yaw_rate += d[5, 0] * dt
        self.on_state_update()

    def clip_actions(self):
        Vehicle.clip_actions(self)
        self.action['steering'] = np.clip(self.action['steering'], -np.pi / 2, np.pi / 2)
        self.yaw_rate = np.clip(self.yaw_rate, -self.MAX_ANGULAR_SPEED, self.MAX_ANGULAR_SPEED)

    def lateral_lpv_structure(self):
        """lateral speed and yaw rate: A0 + theta phi, B linearise the tyre forces around zero slip"""
        m, iz, a, b, v = self.MASS, self.INERTIA_Z, self.LENGTH_A, self.LENGTH_B, self.speed
        B = np.array([[2 * self.FRICTION_FRONT / m], [2 * self.FRICTION_FRONT * a / iz]])
        A0 = np.array([[0, -v], [0, 0]])
        if abs(v) < 1:
            return A0, np.zeros((2, 2, 2)), B * 0
        front = [[-2 / (m * v), -2 * a / (m * v)], [-2 * a / (iz * v), -2 * a ** 2 / (iz * v)]]
        rear = [[-2 / (m * v), 2 * b / (m * v)], [2 * b / (iz * v), -2 * b ** 2 / (iz * v)]]
        return A0, np.array([front, rear]), B

    def lateral_lpv_dynamics(self):
        A0, phi, B = self.lateral_lpv_structure()
        self.theta = np.array([self.FRICTION_FRONT, self.FRICTION_REAR])
        return A0 + np.tensordot(self.theta, phi, axes=[0, 0]), B

    def full_lateral_lpv_structure(self):
        A, phi, B = self.lateral_lpv_structure()
        top = np.array([[0, self.speed, 1, 0], [0, 0, 0, 1]])
        A0 = np.concatenate((top, np.concatenate((np.zeros((2, 2)), A), axis=1)))
        phi = np.array([np.concatenate((np.zeros((2, 4)), np.concatenate((np.zeros((2, 2)), p), axis=1)))
                        for p in phi])
        return A0, phi, np.concatenate((np.zeros((2, 1)), B))

    def full_lateral_lpv_dynamics(self):
        A0, phi, B = self.full_lateral_lpv_structure()
        self.theta = [self.FRICTION_FRONT, self.FRICTION_REAR]
        return A0 + np.tensordot(self.theta, phi, axes=[0, 0]), B
