"""Documented parameter values of the classes (own and inherited); descendants not listed inherit them."""
import numpy as np


class AbstractEnv:
    PERCEPTION_DISTANCE = 180.0     # 6 s at the highest default set-point of 30 m/s


class ContinuousAction:
    ACCELERATION_RANGE = (-5, 5.0)
    STEERING_RANGE = (-np.pi / 4, np.pi / 4)


class DiscreteMetaAction:
    ACTIONS_ALL = {0: "LANE_LEFT", 1: "IDLE", 2: "LANE_RIGHT", 3: "FASTER", 4: "SLOWER"}
    ACTIONS_LONGI = {0: "SLOWER", 1: "IDLE", 2: "FASTER"}
    ACTIONS_LAT = {0: "LANE_LEFT", 1: "IDLE", 2: "LANE_RIGHT"}


class KinematicObservation:
    FEATURES = ["presence", "x", "y", "vx", "vy"]


class OccupancyGridObservation:
    FEATURES = ["presence", "vx", "vy"]
    GRID_SIZE = [[-27.5, 27.5], [-27.5, 27.5]]
    GRID_STEP = [5, 5]


class HighwayEnv:
    RIGHT_LANE_REWARD = 0.1
    HIGH_SPEED_REWARD = 0.4
    LANE_CHANGE_REWARD = 0


class IntersectionEnv:
    COLLISION_REWARD = -5
    HIGH_SPEED_REWARD = 1
    ARRIVED_REWARD = 1
    ACTIONS = {0: "SLOWER", 1: "IDLE", 2: "FASTER"}
    ACTIONS_INDEXES = {"SLOWER": 0, "IDLE": 1, "FASTER": 2}


class MergeEnv:
    COLLISION_REWARD = -1
    RIGHT_LANE_REWARD = 0.1
    HIGH_SPEED_REWARD = 0.2
    MERGING_SPEED_REWARD = -0.5
    LANE_CHANGE_REWARD = -0.05


class ParkingEnv:
    REWARD_WEIGHTS = np.array([1, 0.3, 0, 0, 0.02, 0.02])
    SUCCESS_GOAL_REWARD = 0.12
    STEERING_RANGE = np.deg2rad(45)


class SummonEnv:
    COLLISION_REWARD = -5


class RoundaboutEnv:
    COLLISION_REWARD = -1
    HIGH_SPEED_REWARD = 0.2
    RIGHT_LANE_REWARD = 0
    LANE_CHANGE_REWARD = -0.05


class TwoWayEnv:
    COLLISION_REWARD = 0
    LEFT_LANE_CONSTRAINT = 1
    LEFT_LANE_REWARD = 0.2
    HIGH_SPEED_REWARD = 0.8


class WorldSurface:
    BLACK = (0, 0, 0)
    GREY = (100, 100, 100)
    GREEN = (50, 200, 0)
    YELLOW = (200, 200, 0)
    WHITE = (255, 255, 255)
    INITIAL_SCALING = 5.5
    INITIAL_CENTERING = [0.5, 0.5]
    SCALING_FACTOR = 1.3
    MOVING_FACTOR = 0.1


class LaneGraphics:
    STRIPE_SPACING = 5
    STRIPE_LENGTH = 3
    STRIPE_WIDTH = 0.3


class RoadObjectGraphics:
    YELLOW = (200, 200, 0)
    BLUE = (100, 200, 255)
    RED = (255, 100, 100)
    GREEN = (50, 200, 0)
    BLACK = (60, 60, 60)
    DEFAULT_COLOR = (200, 200, 0)


class VehicleGraphics:
    RED = (255, 100, 100)
    GREEN = (50, 200, 0)
    BLUE = (100, 200, 255)
    YELLOW = (200, 200, 0)
    BLACK = (60, 60, 60)
    PURPLE = (200, 0, 150)
    DEFAULT_COLOR = (200, 200, 0)
    EGO_COLOR = (50, 200, 0)


class AbstractLane:
    DEFAULT_WIDTH = 4
    VEHICLE_LENGTH = 5


class LineType:
    NONE = 0
    STRIPED = 1
    CONTINUOUS = 2
    CONTINUOUS_LINE = 3


class RoadObject:
    LENGTH = 2.0
    WIDTH = 2.0


class RegulatedRoad:
    REGULATION_FREQUENCY = 2
    YIELD_DURATION = 0.0


class Vehicle:
    COLLISIONS_ENABLED = True
    LENGTH = 5.0
    WIDTH = 2.0
    DEFAULT_SPEEDS = [23, 25]
    MAX_SPEED = 40.0


class BicycleVehicle:
    MASS = 1
    LENGTH_A = 2.5
    LENGTH_B = 2.5
    INERTIA_Z = 37 / 12         # of a box of 5 m by 2 m: m (l^2 + 3 w^2) / 12
    FRICTION_FRONT = 15.0
    FRICTION_REAR = 15.0
    MAX_ANGULAR_SPEED = 2 * np.pi
    MAX_SPEED = 15


class ControlledVehicle:
    """response times of the speed and heading loops, and the gains derived from them"""
    TAU_A = 0.6
    TAU_DS = 0.2
    PURSUIT_TAU = 0.5 * 0.2
    KP_A = 1 / 0.6
    KP_HEADING = 1 / 0.2
    KP_LATERAL = 1 / 3 / 0.2
    MAX_STEERING_ANGLE = np.pi / 3
    DELTA_SPEED = 5


class MDPVehicle:
    SPEED_COUNT = 3
    SPEED_MIN = 20
    SPEED_MAX = 30


class IDMVehicle:
    ACC_MAX = 6.0
    COMFORT_ACC_MAX = 3.0
    COMFORT_ACC_MIN = -5.0
    DISTANCE_WANTED = 10.0      # 5 m beyond the vehicle length
    TIME_WANTED = 1.5
    DELTA = 4.0
    POLITENESS = 0.
    LANE_CHANGE_MIN_ACC_GAIN = 0.2
    LANE_CHANGE_MAX_BRAKING_IMPOSED = 2.0
    LANE_CHANGE_DELAY = 1.0


class LinearVehicle:
    TIME_WANTED = 2.5
    ACCELERATION_PARAMETERS = [0.3, 0.3, 2.0]
    STEERING_PARAMETERS = [5., 25. / 3]
    ACCELERATION_RANGE = np.array([[0.15, 0.15, 1.0], [0.45, 0.45, 3.0]])
    STEERING_RANGE = np.array([[4.93, 25. / 3 - 1.5], [5.07, 25. / 3 + 1.5]])


class AggressiveVehicle:
    LANE_CHANGE_MIN_ACC_GAIN = 1.0
    ACCELERATION_PARAMETERS = [0.8 / 7.5, 0.8 / 22.5, 0.5]


class DefensiveVehicle:
    LANE_CHANGE_MIN_ACC_GAIN = 1.0
    ACCELERATION_PARAMETERS = [1.2 / 7.5, 1.2 / 22.5, 2.0]
