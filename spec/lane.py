"""Reference definitions: lane geometry."""
import numpy as np
from highway_env import utils
from highway_env.road.lane import LineType


def overshoot(lane, position):
    s, r = lane.local_coordinates(position)
    return abs(r) + max(s - lane.length, 0) + max(-s, 0)


class AbstractLane:
    def on_lane(self, position, longitudinal=None, lateral=None, margin=0):
        if not longitudinal or not lateral:
            longitudinal, lateral = self.local_coordinates(position)
        return abs(lateral) <= self.width_at(longitudinal) / 2 + margin and \
            -self.VEHICLE_LENGTH <= longitudinal and longitudinal < self.length + self.VEHICLE_LENGTH

    def is_reachable_from(self, position):
        if self.forbidden:
            return False
        s, r = self.local_coordinates(position)
        return abs(r) <= 2 * self.width_at(s) and 0 <= s and s < self.length + self.VEHICLE_LENGTH

    def after_end(self, position, longitudinal=None, lateral=None):
        if not longitudinal:
            longitudinal = self.local_coordinates(position)[0]
        return self.length - self.VEHICLE_LENGTH / 2 < longitudinal

    def distance__pre(self, position):
        return self.length >= 0

    def distance_with_heading__pre(self, position, heading, heading_weight=1.0):
        return self.length >= 0

    def distance(self, position):
        return overshoot(self, position)

    def distance_with_heading(self, position, heading, heading_weight=1.0):
        if heading is None:
            return overshoot(self, position)
        s = self.local_coordinates(position)[0]
        turn = abs(utils.wrap_to_pi(heading - self.heading_at(s)))
        return overshoot(self, position) + heading_weight * turn


class StraightLane:
    def __init__(self, start, end, width=4, line_types=None, forbidden=False, speed_limit=20, priority=0):
        a, b = np.array(start), np.array(end)
        d = b - a
        self.start, self.end = a, b
        self.width = width
        self.length = np.linalg.norm(d)
        self.heading = np.arctan2(d[1], d[0])
        self.direction = d / self.length
        self.direction_lateral = np.array([-self.direction[1], self.direction[0]])
        self.line_types = line_types or [LineType.STRIPED, LineType.STRIPED]
        self.forbidden = forbidden
        self.priority = priority
        self.speed_limit = speed_limit

    def position(self, longitudinal, lateral):
        return self.start + longitudinal * self.direction + lateral * self.direction_lateral

    def heading_at(self, longitudinal):
        return self.heading

    def width_at(self, longitudinal):
        return self.width

    def local_coordinates(self, position):
        dx, dy = position[0] - self.start[0], position[1] - self.start[1]
        return (float(dx * self.direction[0] + dy * self.direction[1]),
                float(dx * self.direction_lateral[0] + dy * self.direction_lateral[1]))


class SineLane:
    def __init__(self, start, end, amplitude, pulsation, phase, width=4, line_types=None, forbidden=False,
                 speed_limit=20, priority=0):
        super().__init__(start, end, width, line_types, forbidden, speed_limit, priority)
        self.amplitude, self.pulsation, self.phase = amplitude, pulsation, phase

    def position(self, longitudinal, lateral):
        wave = self.amplitude * np.sin(self.pulsation * longitudinal + self.phase)
        return self.start + longitudinal * self.direction + (lateral + wave) * self.direction_lateral

    def heading_at(self, longitudinal):
        slope = self.amplitude * self.pulsation * np.cos(self.pulsation * longitudinal + self.phase)
        return self.heading + np.arctan(slope)

    def local_coordinates(self, position):
        dx, dy = position[0] - self.start[0], position[1] - self.start[1]
        s = float(dx * self.direction[0] + dy * self.direction[1])
        r = float(dx * self.direction_lateral[0] + dy * self.direction_lateral[1])
        return s, r - self.amplitude * np.sin(self.pulsation * s + self.phase)


class CircularLane:
    def __init__(self, center, radius, start_phase, end_phase, clockwise=True, width=4, line_types=None,
                 forbidden=False, speed_limit=20, priority=0):
        self.center = np.array(center)
        self.radius = radius
        self.start_phase, self.end_phase = start_phase, end_phase
        self.direction = 1 if clockwise else -1
        self.length = radius * (end_phase - start_phase) * self.direction
        self.width = width
        self.line_types = line_types or [LineType.STRIPED, LineType.STRIPED]
        self.forbidden = forbidden
        self.priority = priority
        self.speed_limit = speed_limit

    def position(self, longitudinal, lateral):
        phi = self.start_phase + self.direction * longitudinal / self.radius
        rho = self.radius - self.direction * lateral
        return self.center + rho * np.array([np.cos(phi), np.sin(phi)])

    def heading_at(self, longitudinal):
        return self.start_phase + self.direction * longitudinal / self.radius + self.direction * np.pi / 2

    def width_at(self, longitudinal):
        return self.width

    def local_coordinates(self, position):
        d = position - self.center
        swept = utils.wrap_to_pi(np.arctan2(d[1], d[0]) - self.start_phase)
        return self.direction * swept * self.radius, self.direction * (self.radius - np.linalg.norm(d))
