"""Reference definitions: keyboard control and the viewer's access to the simulation."""
import itertools
import os
import numpy as np
import pygame
from gym.spaces import Discrete
from highway_env.envs.common.action import ContinuousAction, DiscreteMetaAction
from highway_env.envs.common.graphics import EventHandler
from highway_env.road.graphics import WorldSurface, RoadGraphics, LaneGraphics, RoadObjectGraphics
from highway_env.vehicle.graphics import VehicleGraphics
from highway_env.vehicle.kinematics import Vehicle
from highway_env.vehicle.dynamics import BicycleVehicle
from highway_env.vehicle.behavior import IDMVehicle, LinearVehicle
from highway_env.vehicle.controller import MDPVehicle
from highway_env.road.objects import Obstacle, Landmark
from highway_env.road.lane import LineType


class EventHandler:
    @classmethod
    def handle_event(cls, action_type, event):
        if isinstance(action_type, DiscreteMetaAction):
            cls.handle_discrete_action_event(action_type, event)
        elif isinstance(action_type, ContinuousAction):
            cls.handle_continuous_action_event(action_type, event)

    @classmethod
    def handle_discrete_action_event(cls, action_type, event):
        if event.type != pygame.KEYDOWN:
            return
        ids = action_type.actions_indexes
        if event.key == pygame.K_RIGHT and action_type.longitudinal:
            action_type.act(ids["FASTER"])
        if event.key == pygame.K_LEFT and action_type.longitudinal:
            action_type.act(ids["SLOWER"])
        if event.key == pygame.K_DOWN and action_type.lateral:
            action_type.act(ids["LANE_RIGHT"])
        if event.key == pygame.K_UP and action_type.lateral:
            action_type.act(ids["LANE_LEFT"])

    @classmethod
    def handle_continuous_action_event(cls, action_type, event):
        action = action_type.last_action.copy()
        s = action_type.space().shape[0] - 1
        if event.type == pygame.KEYDOWN or event.type == pygame.KEYUP:
            level = 0.7 if event.type == pygame.KEYDOWN else 0
            if event.key == pygame.K_RIGHT and action_type.lateral:
                action[s] = level
            if event.key == pygame.K_LEFT and action_type.lateral:
                action[s] = -level
            if event.key == pygame.K_DOWN and action_type.longitudinal:
                action[0] = -level
            if event.key == pygame.K_UP and action_type.longitudinal:
                action[0] = level
        action_type.act(action)


class EnvViewer:
    def __init__(self, env):
        self.env = env
        self.offscreen = env.config["offscreen_rendering"]
        pygame.init()
        pygame.display.set_caption("Highway-env")
        size = (env.config["screen_width"], env.config["screen_height"])
        if not self.offscreen:
            self.screen = pygame.display.set_mode([env.config["screen_width"], env.config["screen_height"]])
        self.sim_surface = WorldSurface(size, 0, pygame.Surface(size))
        self.sim_surface.scaling = env.config.get("scaling", self.sim_surface.INITIAL_SCALING)
        self.sim_surface.centering_position = list(env.config.get("centering_position",
                                                                  self.sim_surface.INITIAL_CENTERING))
        self.clock = pygame.time.Clock()
        self.enabled = os.environ.get("SDL_VIDEODRIVER", None) != "dummy"
        self.agent_display = None
        self.agent_surface = None
        self.vehicle_trajectory = None
        self.frame = 0
        self.directory = None

    def set_agent_action_sequence(self, actions):
        if isinstance(self.env.action_space, Discrete):
            actions = [self.env.action_type.actions[a] for a in actions]
        if len(actions) > 1:
            self.vehicle_trajectory = self.env.vehicle.predict_trajectory(
                actions, 1 / self.env.config["policy_frequency"], 1 / 3 / self.env.config["policy_frequency"],
                1 / self.env.config["simulation_frequency"])

    def window_position(self):
        return self.env.vehicle.position if self.env.vehicle else np.array([0, 0])

    def handle_events(self):
        for event in pygame.event.get():
            if event.type == pygame.QUIT:
                self.env.close()
            self.sim_surface.handle_event(event)
            if self.env.action_type:
                EventHandler.handle_event(self.env.action_type, event)

    def get_image(self):
        on_screen = self.env.config["render_agent"] and not self.offscreen
        return np.moveaxis(pygame.surfarray.array3d(self.screen if on_screen else self.sim_surface), 0, 1)

    def close(self):
        pygame.quit()

    def set_agent_display(self, agent_display):
        w, h = self.env.config["screen_width"], self.env.config["screen_height"]
        if self.agent_display is None:
            if not self.offscreen:
                self.screen = pygame.display.set_mode((w, 2 * h) if w > h else (2 * w, h))
            self.agent_surface = pygame.Surface((w, h))
        self.agent_display = agent_display

    def display(self):
        if not self.enabled:
            return
        cfg, surf, road = self.env.config, self.sim_surface, self.env.road
        surf.move_display_window_to(self.window_position())
        RoadGraphics.display(road, surf)
        if self.vehicle_trajectory:
            VehicleGraphics.display_trajectory(self.vehicle_trajectory, surf, offscreen=self.offscreen)
        RoadGraphics.display_road_objects(road, surf, offscreen=self.offscreen)
        if self.agent_display:
            self.agent_display(self.agent_surface, surf)
            if not self.offscreen:
                wide = cfg["screen_width"] > cfg["screen_height"]
                self.screen.blit(self.agent_surface,
                                 (0, cfg["screen_height"]) if wide else (cfg["screen_width"], 0))
        RoadGraphics.display_traffic(road, surf, simulation_frequency=cfg["simulation_frequency"],
                                     offscreen=self.offscreen)
        if not self.offscreen:
            self.screen.blit(surf, (0, 0))
            if cfg["real_time_rendering"]:
                self.clock.tick(cfg["simulation_frequency"])
            pygame.display.flip()
        if self.SAVE_IMAGES and self.directory:
            pygame.image.save(surf, str(self.directory / "highway-env_{}.png".format(self.frame)))
            self.frame += 1


class WorldSurface:
    def __init__(self, size, flags, surf):
        super().__init__(size, flags, surf)
        self.origin = np.array([0, 0])
        self.scaling = self.INITIAL_SCALING
        self.centering_position = list(self.INITIAL_CENTERING)

    def pix(self, length):
        return int(self.scaling * length)

    def pos2pix(self, x, y):
        return self.pix(x - self.origin[0]), self.pix(y - self.origin[1])

    def vec2pix(self, vec):
        return self.pos2pix(vec[0], vec[1])

    def is_visible(self, vec, margin=50):
        px, py = self.vec2pix(vec)
        return -margin < px and px < self.get_width() + margin and -margin < py and py < self.get_height() + margin

    def move_display_window_to(self, position):
        self.origin = np.array([position[0] - self.centering_position[0] * self.get_width() / self.scaling,
                                position[1] - self.centering_position[1] * self.get_height() / self.scaling])

    def handle_event(self, event):
        if event.type != pygame.KEYDOWN:
            return
        if event.key == pygame.K_l:
            self.scaling /= self.SCALING_FACTOR
        if event.key == pygame.K_o:
            self.scaling *= self.SCALING_FACTOR
        if event.key == pygame.K_m:
            self.centering_position[0] = self.centering_position[0] - self.MOVING_FACTOR
        if event.key == pygame.K_k:
            self.centering_position[0] = self.centering_position[0] + self.MOVING_FACTOR


class LaneGraphics:
    @classmethod
    def display(cls, lane, surface):
        n = int(2 * (surface.get_height() + surface.get_width()) / (cls.STRIPE_SPACING * surface.scaling))
        s = lane.local_coordinates(surface.origin)[0]
        first = (int(s) // cls.STRIPE_SPACING - n // 2) * cls.STRIPE_SPACING
        for side in range(2):
            kind = lane.line_types[side]
            if kind == LineType.STRIPED:
                cls.striped_line(lane, surface, n, first, side)
            elif kind == LineType.CONTINUOUS:
                cls.continuous_curve(lane, surface, n, first, side)
            elif kind == LineType.CONTINUOUS_LINE:
                cls.continuous_line(lane, surface, n, first, side)

    @classmethod
    def striped_line(cls, lane, surface, stripes_count, longitudinal, side):
        a = longitudinal + np.arange(stripes_count) * cls.STRIPE_SPACING
        cls.draw_stripes(lane, surface, a, a + cls.STRIPE_LENGTH, [(side - 0.5) * lane.width_at(s) for s in a])

    @classmethod
    def continuous_curve(cls, lane, surface, stripes_count, longitudinal, side):
        a = longitudinal + np.arange(stripes_count) * cls.STRIPE_SPACING
        cls.draw_stripes(lane, surface, a, a + cls.STRIPE_SPACING, [(side - 0.5) * lane.width_at(s) for s in a])

    @classmethod
    def continuous_line(cls, lane, surface, stripes_count, longitudinal, side):
        cls.draw_stripes(lane, surface, [longitudinal],
                         [longitudinal + stripes_count * cls.STRIPE_SPACING + cls.STRIPE_LENGTH],
                         [(side - 0.5) * lane.width_at(longitudinal)])

    @classmethod
    def draw_stripes(cls, lane, surface, starts, ends, lats):
        a, b = np.clip(starts, 0, lane.length), np.clip(ends, 0, lane.length)
        for k in range(len(a)):
            if abs(a[k] - b[k]) > 0.5 * cls.STRIPE_LENGTH:
                pygame.draw.line(surface, surface.WHITE, surface.vec2pix(lane.position(a[k], lats[k])),
                                 surface.vec2pix(lane.position(b[k], lats[k])), max(surface.pix(cls.STRIPE_WIDTH), 1))

    @classmethod
    def draw_stripes__alt1(cls, lane, surface, starts, ends, lats):
        a, b = np.clip(starts, 0, lane.length), np.clip(ends, 0, lane.length)
        for start, end, lat in zip(a, b, lats):
            if abs(start - end) > 0.5 * cls.STRIPE_LENGTH:
                pygame.draw.line(surface, surface.WHITE, surface.vec2pix(lane.position(start, lat)),
                                 surface.vec2pix(lane.position(end, lat)), max(surface.pix(cls.STRIPE_WIDTH), 1))


class RoadGraphics:
    @staticmethod
    def display(road, surface):
        surface.fill(surface.GREY)
        graph = road.network.graph
        for origin in graph.keys():
            for destination in graph[origin].keys():
                for lane in graph[origin][destination]:
                    LaneGraphics.display(lane, surface)

    @staticmethod
    def display_traffic(road, surface, simulation_frequency=15, offscreen=False):
        if road.record_history:
            for vehicle in road.vehicles:
                VehicleGraphics.display_history(vehicle, surface, simulation=simulation_frequency, offscreen=offscreen)
        for vehicle in road.vehicles:
            VehicleGraphics.display(vehicle, surface, offscreen=offscreen)

    @staticmethod
    def display_road_objects(road, surface, offscreen=False):
        for thing in road.objects:
            RoadObjectGraphics.display(thing, surface, offscreen=offscreen)


class RoadObjectGraphics:
    @staticmethod
    def blit_rotate(surf, image, pos, angle, origin_pos=None, show_rect=False):
        w, h = image.get_size()
        if origin_pos is None:
            origin_pos = (w / 2, h / 2)
        corners = [pygame.math.Vector2(c).rotate(angle) for c in ((0, 0), (w, 0), (w, -h), (0, -h))]
        left = min(corners, key=lambda c: c[0])[0]
        bottom = min(corners, key=lambda c: c[1])[1]
        right = max(corners, key=lambda c: c[0])[0]
        top = max(corners, key=lambda c: c[1])[1]
        pivot = pygame.math.Vector2(origin_pos[0], -origin_pos[1])
        move = pivot.rotate(angle) - pivot
        corner = (pos[0] - origin_pos[0] + left - move[0], pos[1] - origin_pos[1] - top + move[1])
        turned = pygame.transform.rotate(image, angle)
        surf.blit(turned, corner)
        if show_rect:
            pygame.draw.rect(surf, (255, 0, 0), (*corner, *turned.get_size()), 2)

    @classmethod
    def get_color(cls, object_, transparent=False):
        if isinstance(object_, Obstacle):
            c = cls.RED if object_.hit else cls.YELLOW
        elif isinstance(object_, Landmark):
            c = cls.GREEN if object_.hit else cls.BLUE
        else:
            c = cls.DEFAULT_COLOR
        return (c[0], c[1], c[2], 30) if transparent else c

    @classmethod
    def display(cls, object_, surface, transparent=False, offscreen=False):
        length, width = surface.pix(object_.LENGTH), surface.pix(object_.WIDTH)
        image = pygame.Surface((length, length), pygame.SRCALPHA)
        rect = (0, width / 2 - width / 2, length, width)
        pygame.draw.rect(image, cls.get_color(object_, transparent), rect, 0)
        pygame.draw.rect(image, cls.BLACK, rect, 1)
        if not offscreen:
            image = pygame.Surface.convert_alpha(image)
        turn = object_.heading if abs(object_.heading) > np.pi / 90 else 0
        cls.blit_rotate(surface, image, surface.pos2pix(object_.position[0], object_.position[1]), np.rad2deg(-turn))


class VehicleGraphics:
    @staticmethod
    def blit_rotate(surf, image, pos, angle, origin_pos=None, show_rect=False):
        w, h = image.get_size()
        if origin_pos is None:
            origin_pos = (w / 2, h / 2)
        corners = [pygame.math.Vector2(c).rotate(angle) for c in ((0, 0), (w, 0), (w, -h), (0, -h))]
        left = min(corners, key=lambda c: c[0])[0]
        bottom = min(corners, key=lambda c: c[1])[1]
        right = max(corners, key=lambda c: c[0])[0]
        top = max(corners, key=lambda c: c[1])[1]
        pivot = pygame.math.Vector2(origin_pos[0], -origin_pos[1])
        move = pivot.rotate(angle) - pivot
        corner = (pos[0] - origin_pos[0] + left - move[0], pos[1] - origin_pos[1] - top + move[1])
        turned = pygame.transform.rotate(image, angle)
        surf.blit(turned, corner)
        if show_rect:
            pygame.draw.rect(surf, (255, 0, 0), (*corner, *turned.get_size()), 2)

    @classmethod
    def get_color(cls, vehicle, transparent=False):
        if getattr(vehicle, "color", None):
            c = vehicle.color
        elif vehicle.crashed:
            c = cls.RED
        elif isinstance(vehicle, LinearVehicle):
            c = cls.YELLOW
        elif isinstance(vehicle, IDMVehicle):
            c = cls.BLUE
        elif isinstance(vehicle, MDPVehicle):
            c = cls.EGO_COLOR
        else:
            c = cls.DEFAULT_COLOR
        return (c[0], c[1], c[2], 30) if transparent else c

    @classmethod
    def display_trajectory(cls, states, surface, offscreen=False):
        for state in states:
            cls.display(state, surface, transparent=True, offscreen=offscreen)

    @classmethod
    def display_history(cls, vehicle, surface, frequency=3, duration=2, simulation=15, offscreen=False):
        for past in itertools.islice(vehicle.history, None, int(simulation * duration), int(simulation / frequency)):
            cls.display(past, surface, transparent=True, offscreen=offscreen)

    @classmethod
    def display_history__alt1(cls, vehicle, surface, frequency=3, duration=2, simulation=15, offscreen=False):
        cls.display_trajectory(itertools.islice(vehicle.history, None, int(simulation * duration), int(simulation / frequency)),
                               surface, offscreen=offscreen)

    @classmethod
    def display(cls, vehicle, surface, transparent=False, offscreen=False, label=False):
        if not surface.is_visible(vehicle.position):
            return
        tire, tire_width = 1, 0.3
        length = vehicle.LENGTH + 2 * tire
        left, right = surface.pix(length / 2 - vehicle.WIDTH / 2), surface.pix(length / 2 + vehicle.WIDTH / 2)
        image = pygame.Surface((surface.pix(length), surface.pix(length)), flags=pygame.SRCALPHA)
        body = (surface.pix(tire), left, surface.pix(vehicle.LENGTH), surface.pix(vehicle.WIDTH))
        pygame.draw.rect(image, cls.get_color(vehicle, transparent), body, 0)
        pygame.draw.rect(image, cls.BLACK, body, 1)
        if type(vehicle) in [Vehicle, BicycleVehicle]:
            rear, front = surface.pix(tire), surface.pix(length - tire)
            steering = vehicle.action["steering"]
            for where, angle in [([rear, left], 0), ([rear, right], 0), ([front, left], steering), ([front, right], steering)]:
                wheel = pygame.Surface((surface.pix(tire), surface.pix(tire)), pygame.SRCALPHA)
                pygame.draw.rect(wheel, cls.BLACK, (0, surface.pix(tire / 2 - tire_width / 2), surface.pix(tire),
                                                    surface.pix(tire_width)), 0)
                cls.blit_rotate(image, wheel, where, np.rad2deg(-angle))
        turn = vehicle.heading if abs(vehicle.heading) > np.pi / 90 else 0
        px, py = surface.pos2pix(vehicle.position[0], vehicle.position[1])
        if not offscreen:
            image = pygame.Surface.convert_alpha(image)
        cls.blit_rotate(surface, image, [px, py], np.rad2deg(-turn))
        if label:
            font = pygame.font.Font(None, 15)
            text = font.render("#{}".format(id(vehicle) % 1000), 1, (10, 10, 10), (255, 255, 255))
            surface.blit(text, [px, py])
