"""Which obligations decide which property, and how they are run."""
import os
import time
from .front import AnchorMissing
from .pairs import Pairs
from . import queries

ASSUMPTIONS = [
    'numbers behave as reals (no rounding, overflow or NaN)',
    'numpy, gym and pandas functions do what their documentation says',
    'attributes of simulation objects are only reached through the classes of the package',
]

KIN = ['Vehicle.__init__', 'Vehicle.step', 'Vehicle.clip_actions', 'Vehicle.act', 'Vehicle.on_state_update',
       'Vehicle.velocity', 'Vehicle.direction', 'Vehicle.create_from', 'IDMVehicle.step',
       'RoadNetwork.get_closest_lane_index', 'RoadNetwork.get_lane', 'AbstractLane.distance_with_heading',
       'ControlledVehicle.__init__', 'MDPVehicle.__init__', 'IDMVehicle.__init__', 'LinearVehicle.__init__']
LANE = ['StraightLane.__init__', 'StraightLane.position', 'StraightLane.heading_at', 'StraightLane.width_at',
        'StraightLane.local_coordinates', 'SineLane.__init__', 'SineLane.position', 'SineLane.heading_at',
        'SineLane.local_coordinates', 'CircularLane.__init__', 'CircularLane.position', 'CircularLane.heading_at',
        'CircularLane.width_at', 'CircularLane.local_coordinates', 'utils:wrap_to_pi', 'AbstractLane.on_lane',
        'AbstractLane.is_reachable_from', 'AbstractLane.after_end', 'AbstractLane.distance',
        'AbstractLane.distance_with_heading']
RECT = ['utils:rotated_rectangles_intersect', 'utils:has_corner_inside', 'utils:point_in_rotated_rectangle',
        'utils:point_in_rectangle']

OBSERVER = ['ObservationType.__init__', 'ObservationType.observer_vehicle', 'ObservationType.observer_vehicle=']
CONTROLLED = ['ActionType.__init__', 'ActionType.controlled_vehicle', 'ActionType.controlled_vehicle=']
RESETS = ['HighwayEnv._reset', 'MergeEnv._reset', 'TwoWayEnv._reset', 'RoundaboutEnv._reset', 'IntersectionEnv._reset',
          'LaneKeepingEnv._reset', 'ParkingEnv._reset']
TRAFFIC = ['HighwayEnv._create_vehicles', 'MergeEnv._make_vehicles', 'TwoWayEnv._make_vehicles',
           'RoundaboutEnv._make_vehicles', 'IntersectionEnv._make_vehicles', 'IntersectionEnv._spawn_vehicle',
           'LaneKeepingEnv._make_vehicles', 'ParkingEnv._create_vehicles', 'SummonEnv._create_vehicles']
ROADS = ['HighwayEnv._create_road', 'MergeEnv._make_road', 'TwoWayEnv._make_road', 'RoundaboutEnv._make_road',
         'IntersectionEnv._make_road', 'LaneKeepingEnv._make_road', 'ParkingEnv._create_road', 'SummonEnv._create_road']

PAIRS = {
    'C01': ['AbstractEnv.__init__', 'AbstractEnv.seed', 'Road.__init__', 'RegulatedRoad.__init__',
            'RoadNetwork.next_lane', 'ControlledVehicle.get_routes_at_intersection',
            'ControlledVehicle.set_route_at_intersection', 'RoadNetwork.bfs_paths'],
    'C05': ['Vehicle.act', 'Vehicle.__init__', 'ControlledVehicle.__init__', 'Vehicle.create_from'],
    'C03': ['AbstractEnv.__deepcopy__', 'AbstractEnv.simplify', 'AbstractEnv.change_vehicles',
            'AbstractEnv.set_preferred_lane', 'AbstractEnv.set_route_at_intersection', 'AbstractEnv.set_vehicle_field',
            'AbstractEnv.call_vehicle_method', 'AbstractEnv.randomize_behaviour', 'IDMVehicle.create_from',
            'ControlledVehicle.create_from', 'Vehicle.create_from'],
    'C06': ['AbstractEnv.step', 'AbstractEnv._simulate', 'AbstractEnv._automatic_rendering', 'IntersectionEnv.step',
            'ParkingEnv.step'],
    'C07': ['Road.act', 'Road.step', 'RegulatedRoad.step', 'Vehicle.check_collision'],
    'C08': ['AbstractEnv.__init__', 'AbstractEnv.reset', 'AbstractEnv.define_spaces', 'AbstractEnv.configure',
            'LaneKeepingEnv.__init__'] + RESETS,
    'C09': TRAFFIC + ['IntersectionEnv._clear_vehicles', 'IntersectionEnv.has_arrived', 'AbstractEnv.vehicle',
                      'AbstractEnv.vehicle=', 'HighwayEnv._reset', 'IntersectionEnv._reset', 'ParkingEnv._reset'],
    'C10': ['AbstractEnv.render', 'AbstractEnv.close', 'AbstractEnv._automatic_rendering', 'AbstractEnv.reset',
            'AbstractEnv._simulate', 'EnvViewer.window_position', 'EnvViewer.__init__', 'EnvViewer.handle_events',
            'EnvViewer.display', 'EnvViewer.get_image', 'EnvViewer.close', 'EnvViewer.set_agent_display'],
    'C11': ['DiscreteMetaAction.__init__', 'DiscreteMetaAction.space', 'DiscreteMetaAction.act',
            'AbstractEnv.get_available_actions', 'EventHandler.handle_event',
            'EventHandler.handle_discrete_action_event', 'EnvViewer.set_agent_action_sequence', 'MDPVehicle.act',
            'ControlledVehicle.act', 'RoadNetwork.side_lanes', 'AbstractLane.is_reachable_from'],
    'C14': CONTROLLED + ['ContinuousAction.__init__', 'ContinuousAction.space', 'ContinuousAction.vehicle_class',
            'ContinuousAction.act', 'utils:lmap', 'EventHandler.handle_continuous_action_event'],
    'C12': ['MDPVehicle.__init__', 'MDPVehicle.act', 'MDPVehicle.index_to_speed', 'MDPVehicle.speed_to_index',
            'MDPVehicle.speed_to_index_default', 'MDPVehicle.get_speed_index', 'ControlledVehicle.act',
            'ControlledVehicle.__init__'],
    'C13': ['ControlledVehicle.act', 'MDPVehicle.act', 'ControlledVehicle.follow_road',
            'AbstractLane.is_reachable_from', 'AbstractLane.after_end', 'RoadNetwork.get_lane'],
    'C15': KIN,
    'C16': ['Vehicle.clip_actions', 'Vehicle.step', 'BicycleVehicle.clip_actions', 'BicycleVehicle.step'],
    'C17': ['Vehicle.check_collision', 'Road.step'] + RECT,
    'C18': ['ControlledVehicle.__init__', 'ControlledVehicle.steering_control', 'ControlledVehicle.speed_control',
            'ControlledVehicle.act', 'utils:not_zero', 'utils:wrap_to_pi', 'ControlledVehicle.create_from'],
    'C19': ['IDMVehicle.act', 'IDMVehicle.acceleration', 'IDMVehicle.desired_gap', 'utils:not_zero',
            'Vehicle.lane_distance_to', 'Vehicle.velocity', 'Vehicle.direction', 'Vehicle.act'],
    'C20': ['IDMVehicle.__init__', 'IDMVehicle.create_from', 'IDMVehicle.act', 'IDMVehicle.step',
            'IDMVehicle.change_lane_policy', 'IDMVehicle.mobil', 'IDMVehicle.desired_gap', 'IDMVehicle.acceleration',
            'RoadNetwork.side_lanes', 'AbstractLane.is_reachable_from', 'Vehicle.lane_distance_to', 'utils:do_every',
            'Road.neighbour_vehicles'],
    'C21': ['RegulatedRoad.__init__', 'RegulatedRoad.step', 'RegulatedRoad.enforce_road_rules',
            'RegulatedRoad.respect_priorities', 'RegulatedRoad.is_conflict_possible',
            'ControlledVehicle.predict_trajectory_constant_speed', 'RoadNetwork.position_heading_along_route',
            'Vehicle.front_distance_to', 'Vehicle.direction'] + RECT,
    'C22': ['ControlledVehicle.plan_route_to', 'ControlledVehicle.follow_road', 'RoadNetwork.next_lane',
            'RoadNetwork.shortest_path', 'RoadNetwork.bfs_paths', 'AbstractLane.after_end', 'AbstractLane.distance',
            'ControlledVehicle.get_routes_at_intersection', 'ControlledVehicle.set_route_at_intersection',
            'RoadNetwork.position_heading_along_route'],
    'C23': LANE,
    'C24': ['RoadNetwork.__init__', 'RoadNetwork.add_lane', 'RoadNetwork.get_lane',
            'RoadNetwork.get_closest_lane_index', 'RoadNetwork.all_side_lanes', 'RoadNetwork.side_lanes',
            'RoadNetwork.is_same_road', 'RoadNetwork.is_leading_to_road', 'RoadNetwork.is_connected_road',
            'RoadNetwork.lanes_list', 'RoadNetwork.straight_road_network', 'AbstractLane.distance_with_heading',
            'AbstractLane.distance'],
    'C25': ['Road.neighbour_vehicles', 'Road.close_vehicles_to', 'AbstractLane.on_lane', 'Vehicle.lane_distance_to'],
    'C26': OBSERVER + ['KinematicObservation.__init__', 'KinematicObservation.space', 'KinematicObservation.observe',
            'Road.close_vehicles_to', 'Vehicle.to_dict', 'RoadObject.to_dict', 'Vehicle.destination',
            'Vehicle.destination_direction', 'Vehicle.velocity', 'RoadObject.velocity', 'Vehicle.direction',
            'RoadObject.direction', 'Vehicle.lane_distance_to'],
    'C27': ['KinematicObservation.normalize_obs', 'OccupancyGridObservation.normalize', 'utils:lmap',
            'RoadNetwork.all_side_lanes'],
    'C28': CONTROLLED + OBSERVER + ['MultiAgentAction.__init__', 'MultiAgentAction.space',
            'MultiAgentAction.vehicle_class', 'MultiAgentAction.act', 'MultiAgentObservation.__init__',
            'MultiAgentObservation.space', 'MultiAgentObservation.observe', 'MultiAgentWrapper.step',
            'IntersectionEnv.step', 'IntersectionEnv._agent_reward', 'IntersectionEnv._agent_is_terminal',
            'IntersectionEnv.has_arrived', 'AbstractEnv.define_spaces', 'action:action_factory',
            'observation:observation_factory', 'AbstractEnv.vehicle', 'AbstractEnv.vehicle='],
    'C29': ['OccupancyGridObservation.__init__', 'OccupancyGridObservation.space', 'OccupancyGridObservation.observe',
            'OccupancyGridObservation.normalize', 'Vehicle.to_dict'] + OBSERVER,
    'C30': ['finite_mdp:compute_ttc_grid', 'TimeToCollisionObservation.__init__', 'TimeToCollisionObservation.space',
            'TimeToCollisionObservation.observe', 'finite_mdp:clip_position', 'RoadNetwork.is_connected_road',
            'RoadNetwork.all_side_lanes', 'MDPVehicle.index_to_speed', 'Vehicle.lane_distance_to', 'utils:not_zero'],
    'C31': ['KinematicsGoalObservation.__init__', 'KinematicsGoalObservation.space', 'KinematicsGoalObservation.observe',
            'AttributesObservation.__init__', 'AttributesObservation.space', 'AttributesObservation.observe',
            'ParkingEnv._reward', 'ParkingEnv.compute_reward', 'ParkingEnv._is_success', 'ParkingEnv._is_terminal',
            'ParkingEnv.step', 'SummonEnv.compute_reward', 'ParkingEnv._create_vehicles', 'SummonEnv._create_vehicles',
            'Vehicle.to_dict', 'RoadObject.to_dict'],
    'C32': ['HighwayEnv._reward', 'MergeEnv._reward', 'TwoWayEnv._reward', 'RoundaboutEnv._reward',
            'IntersectionEnv._reward', 'IntersectionEnv._agent_reward', 'LaneKeepingEnv._reward', 'ParkingEnv._reward',
            'HighwayEnv._cost', 'TwoWayEnv._cost', 'IntersectionEnv._cost', 'utils:lmap', 'Vehicle.on_road',
            'MDPVehicle.get_speed_index', 'IntersectionEnv.has_arrived', 'RoadNetwork.all_side_lanes'],
    'C33': ['HighwayEnv._is_terminal', 'MergeEnv._is_terminal', 'TwoWayEnv._is_terminal', 'RoundaboutEnv._is_terminal',
            'IntersectionEnv._is_terminal', 'IntersectionEnv._agent_is_terminal', 'IntersectionEnv.has_arrived',
            'LaneKeepingEnv._is_terminal', 'ParkingEnv._is_terminal', 'ParkingEnv._is_success', 'Vehicle.on_road'],
    'C34': ['interval:intervals_product', 'interval:intervals_scaling', 'interval:intervals_diff',
            'interval:interval_negative_part', 'interval:integrator_interval', 'interval:vector_interval_section',
            'interval:interval_absolute_to_local', 'interval:interval_local_to_absolute', 'interval:is_metzler',
            'LPV.set_control', 'LPV.step', 'LPV.step_naive_predictor', 'LPV.step_interval_predictor', 'LPV.__init__',
            'LPV.update_coordinates_frame', 'LPV.change_coordinates', 'interval:polytope'],
    'C35': ['action:action_factory', 'observation:observation_factory', 'utils:class_from_path',
            'AbstractEnv.default_config', 'HighwayEnv.default_config', 'IntersectionEnv.default_config',
            'MultiAgentIntersectionEnv.default_config', 'RoundaboutEnv.default_config', 'TwoWayEnv.default_config',
            'ParkingEnv.default_config', 'SummonEnv.default_config', 'LaneKeepingEnv.default_config',
            'AbstractEnv.configure', 'AbstractEnv.__init__', 'LaneKeepingEnv.__init__',
            'ParkingEnvActionRepeat.__init__', 'SummonEnvActionRepeat.__init__',
            'TupleMultiAgentIntersectionEnv.__init__'],
    'C36': ['AbstractEnv.render', 'AbstractEnv.get_available_actions', 'IDMVehicle.acceleration', 'IDMVehicle.mobil',
            'ControlledVehicle.follow_road', 'ControlledVehicle.plan_route_to', 'AbstractEnv.vehicle',
            'AbstractEnv.vehicle=', 'ActionType.controlled_vehicle', 'ObservationType.observer_vehicle',
            'Vehicle.destination', 'Vehicle.destination_direction', 'Vehicle.lane_distance_to',
            'AbstractEnv.set_preferred_lane', 'AbstractEnv.set_route_at_intersection',
            'KinematicObservation.observe', 'KinematicObservation.space', 'GrayscaleObservation.observe',
            'OccupancyGridObservation.observe', 'AttributesObservation.observe', 'KinematicsGoalObservation.observe',
            'KinematicsGoalObservation.space', 'TimeToCollisionObservation.observe', 'EnvViewer.window_position'],
    'C37': ['AbstractEnv.to_finite_mdp', 'finite_mdp:finite_mdp', 'finite_mdp:transition_model',
            'finite_mdp:clip_position'],
    'C38': ROADS + ['RoadNetwork.straight_road_network'],
    'C39': TRAFFIC + ['Vehicle.create_random', 'Vehicle.make_on_lane', 'RoadObject.make_on_lane',
            'IDMVehicle.randomize_behavior', 'LinearVehicle.randomize_behavior'],
    'C40': ['LinearVehicle.__init__', 'LinearVehicle.act', 'LinearVehicle.acceleration',
            'LinearVehicle.acceleration_features', 'LinearVehicle.steering_control', 'LinearVehicle.steering_features',
            'LinearVehicle.collect_data', 'LinearVehicle.add_features', 'LinearVehicle.lateral_structure',
            'LinearVehicle.randomize_behavior', 'Vehicle.lane_distance_to'],
    'C41': ['BicycleVehicle.__init__', 'BicycleVehicle.state', 'BicycleVehicle.derivative', 'BicycleVehicle.step',
            'BicycleVehicle.clip_actions', 'BicycleVehicle.lateral_lpv_structure', 'BicycleVehicle.lateral_lpv_dynamics',
            'BicycleVehicle.full_lateral_lpv_structure', 'BicycleVehicle.full_lateral_lpv_dynamics',
            'BicycleVehicle.derivative_linear'],
    'C42': ['MDPVehicle.predict_trajectory', 'ControlledVehicle.predict_trajectory_constant_speed',
            'RoadNetwork.position_heading_along_route', 'EnvViewer.set_agent_action_sequence'],
    'C43': ['LaneKeepingEnv.step', 'LaneKeepingEnv.state', 'LaneKeepingEnv.derivative', 'LaneKeepingEnv.reference_state',
            'LaneKeepingEnv.store_data', 'LaneKeepingEnv._reward'],
    'C45': ['EnvViewer.__init__', 'EnvViewer.display', 'EnvViewer.window_position', 'WorldSurface.__init__',
            'WorldSurface.pix', 'WorldSurface.pos2pix', 'WorldSurface.vec2pix', 'WorldSurface.is_visible',
            'WorldSurface.move_display_window_to', 'WorldSurface.handle_event', 'LaneGraphics.display',
            'LaneGraphics.striped_line', 'LaneGraphics.continuous_curve', 'LaneGraphics.continuous_line',
            'LaneGraphics.draw_stripes', 'RoadGraphics.display', 'RoadGraphics.display_traffic',
            'RoadGraphics.display_road_objects', 'RoadObjectGraphics.get_color', 'RoadObjectGraphics.display',
            'VehicleGraphics.get_color', 'VehicleGraphics.display', 'VehicleGraphics.display_trajectory',
            'VehicleGraphics.display_history'],
    'C46': ['VehicleInterval.__init__', 'IntervalVehicle.__init__', 'IntervalVehicle.create_from',
            'IntervalVehicle.step', 'IntervalVehicle.store_trajectories', 'IntervalVehicle.get_front_interval',
            'IntervalVehicle.get_followed_lanes', 'IntervalVehicle.observer_step',
            'IntervalVehicle.partial_observer_step', 'IntervalVehicle.predictor_init', 'IntervalVehicle.predictor_step',
            'IntervalVehicle.longitudinal_matrix_polytope', 'IntervalVehicle.lateral_matrix_polytope',
            'IntervalVehicle.parameter_box_to_polytope', 'IntervalVehicle.check_collision'],
    'C47': ['RegressionVehicle.longitudinal_matrix_polytope', 'RegressionVehicle.lateral_matrix_polytope',
            'RegressionVehicle.polytope_from_estimation', 'MultipleModelVehicle.__init__', 'MultipleModelVehicle.act',
            'MultipleModelVehicle.collect_data', 'MultipleModelVehicle.update_possible_routes',
            'MultipleModelVehicle.assume_model_is_valid', 'LinearVehicle.add_features', 'utils:confidence_ellipsoid',
            'utils:confidence_polytope', 'utils:is_valid_observation', 'utils:is_consistent_dataset'],
    'C44': ['GrayscaleObservation.__init__', 'GrayscaleObservation.space', 'GrayscaleObservation.observe'],
}

# documented parameter values ('Class::' stands for every constant of the class and its descendants)
for _pid, _classes in {
        'C11': ['DiscreteMetaAction'], 'C12': ['MDPVehicle'], 'C14': ['ContinuousAction', 'ParkingEnv'],
        'C15': ['Vehicle'], 'C16': ['Vehicle', 'BicycleVehicle'], 'C17': ['Vehicle', 'RoadObject'],
        'C18': ['ControlledVehicle'], 'C19': ['IDMVehicle'], 'C20': ['IDMVehicle'], 'C21': ['RegulatedRoad'],
        'C23': ['AbstractLane', 'LineType'], 'C26': ['KinematicObservation', 'AbstractEnv'],
        'C29': ['OccupancyGridObservation'], 'C31': ['ParkingEnv', 'SummonEnv'],
        'C32': ['HighwayEnv', 'MergeEnv', 'TwoWayEnv', 'RoundaboutEnv', 'IntersectionEnv', 'ParkingEnv', 'SummonEnv'],
        'C39': ['Vehicle'], 'C40': ['LinearVehicle', 'AggressiveVehicle', 'DefensiveVehicle'],
        'C41': ['BicycleVehicle'],
        'C45': ['WorldSurface', 'LaneGraphics', 'RoadObjectGraphics', 'VehicleGraphics', 'LineType']}.items():
    PAIRS[_pid] = PAIRS[_pid] + [_c + '::' for _c in _classes]

# functions a property also rests on, beyond those that implement it
ALSO = {
    'C05': ['IDMVehicle.create_from', 'IDMVehicle.__init__', 'ControlledVehicle.create_from', 'AbstractEnv.configure',
            'AbstractEnv.__init__', 'StraightLane.__init__', 'CircularLane.__init__', 'SineLane.__init__',
            'ContinuousAction.__init__', 'MultipleModelVehicle.assume_model_is_valid'],
    'C06': ['HighwayEnv._cost', 'TwoWayEnv._cost', 'IntersectionEnv._cost', 'AbstractEnv.vehicle',
            'MultiAgentWrapper.step'],
    'C07': ['AbstractEnv._simulate', 'Vehicle.step', 'IDMVehicle.step', 'BicycleVehicle.step', 'IntervalVehicle.step',
            'Vehicle.act', 'ControlledVehicle.act', 'MDPVehicle.act', 'IDMVehicle.act', 'LinearVehicle.act',
            'MultipleModelVehicle.act'],
    'C08': TRAFFIC + ROADS + ['AbstractEnv.vehicle', 'AbstractEnv.vehicle='],
    'C09': RESETS + ['IntersectionEnv.step', 'AbstractEnv.reset', 'Road.step', 'Road.act'],
    'C11': CONTROLLED + ['EnvViewer.handle_events', 'AbstractEnv.vehicle'],
    'C12': ['ControlledVehicle.create_from', 'DiscreteMetaAction.act', 'ControlledVehicle.speed_control'],
    'C13': ['StraightLane.__init__', 'CircularLane.__init__', 'SineLane.__init__', 'RoadNetwork.next_lane',
            'RoadNetwork.side_lanes', 'ControlledVehicle.__init__'],
    'C16': ['Vehicle.check_collision', 'IntervalVehicle.check_collision', 'Vehicle.__init__', 'IDMVehicle.act'],
    'C17': ['IntervalVehicle.check_collision', 'RoadObject.__init__'],
    'C18': ['RoadNetwork.get_lane', 'MDPVehicle.act', 'AbstractLane.after_end'],
    'C19': ['Road.neighbour_vehicles', 'RoadObject.velocity', 'RoadObject.direction', 'ControlledVehicle.__init__'],
    'C20': ['ControlledVehicle.follow_road', 'RoadNetwork.get_lane', 'ControlledVehicle.plan_route_to'],
    'C21': ['StraightLane.__init__', 'CircularLane.__init__', 'SineLane.__init__', 'Road.step'],
    'C22': ['ControlledVehicle.act', 'IDMVehicle.act', 'ControlledVehicle.__init__', 'ControlledVehicle.create_from'],
    'C27': ['KinematicObservation.__init__', 'KinematicObservation.observe', 'OccupancyGridObservation.__init__',
            'OccupancyGridObservation.observe'],
    'C31': ['AbstractEnv.step', 'AbstractEnv.vehicle'],
    'C32': ['AbstractEnv.step', 'AbstractEnv.vehicle', 'AbstractLane.on_lane'],
    'C33': ['AbstractEnv.step', 'AbstractEnv.reset', 'AbstractEnv._simulate', 'AbstractLane.on_lane'],
    'C36': ['ControlledVehicle.__init__', 'IDMVehicle.__init__', 'MDPVehicle.__init__', 'IDMVehicle.create_from',
            'ControlledVehicle.create_from', 'RoadNetwork.get_lane', 'RoadNetwork.next_lane',
            'RoadNetwork.shortest_path', 'RoadNetwork.is_connected_road', 'Road.neighbour_vehicles', 'IDMVehicle.act',
            'Vehicle.make_on_lane', 'Vehicle.create_random', 'RoadObject.make_on_lane', 'ControlledVehicle.act',
            'LinearVehicle.acceleration_features', 'LinearVehicle.__init__', 'IntervalVehicle.get_front_interval',
            'AbstractEnv.close', 'AbstractEnv._automatic_rendering', 'AbstractEnv.reset', 'AbstractEnv.configure',
            'RoadNetwork.position_heading_along_route', 'Road.close_vehicles_to', 'IDMVehicle.change_lane_policy',
            'TimeToCollisionObservation.space', 'AttributesObservation.space', 'GrayscaleObservation.space'],
    'C37': ['finite_mdp:compute_ttc_grid', 'MDPVehicle.get_speed_index'],
    'C38': ['StraightLane.__init__', 'CircularLane.__init__', 'SineLane.__init__', 'RoadNetwork.add_lane',
            'Road.__init__', 'RegulatedRoad.__init__', 'RoadObject.__init__'],
    'C39': RESETS + ['ContinuousAction.vehicle_class', 'DiscreteMetaAction.vehicle_class',
                     'MultiAgentAction.vehicle_class', 'utils:class_from_path', 'Vehicle.__init__',
                     'AbstractEnv.vehicle='],
    'C42': ['MDPVehicle.act', 'ControlledVehicle.act', 'Vehicle.step'],
    'C43': ['LaneKeepingEnv._reset', 'LaneKeepingEnv._make_vehicles', 'LPV.set_control', 'LPV.step',
            'LaneKeepingEnv.__init__'],
    'C44': ['EnvViewer.get_image', 'EnvViewer.__init__'],
    'C45': ['RoadObjectGraphics.blit_rotate', 'VehicleGraphics.blit_rotate'],
    'C46': ['LinearVehicle.longitudinal_structure', 'LinearVehicle.lateral_structure'],
    'C47': ['LinearVehicle.longitudinal_structure', 'LinearVehicle.lateral_structure'],
}
for _c, _qs in ALSO.items():
    PAIRS[_c] = PAIRS[_c] + [q for q in _qs if q not in PAIRS[_c]]

QUERIES = {'C01': [queries.rng_rule], 'C02': [queries.shared_rule], 'C03': [queries.copies_rule],
           'C04': [queries.pure_rule], 'C05': [queries.owned_rule], 'C08': [queries.reset_rule], 'C09': [queries.iteration_rule],
           'C15': [queries.float_rule], 'C34': [queries.float_rule], 'C46': [queries.float_rule],
           'C16': [queries.crashed_rule], 'C35': [queries.config_rule, queries.register_rule]}
TECHNIQUE = {
    'C01': 'points-to analysis of the generators behind every random draw on the reset/step/render call graph, unordered-iteration and clock/entropy sources',
    'C02': 'points-to effect analysis: writes to class attributes, module state, default arguments and objects reachable from two environments',
    'C03': 'points-to effect analysis of planning copies: no write reaches an object of the original',
    'C04': 'interprocedural write-effect analysis of the observing entry points',
    'C05': 'points-to ownership analysis: writes to objects held by two owners'}


class Finding(object):
    def __init__(self, key, rule, where, text):
        self.key, self.rule, self.where, self.text = key, rule, where, text


def load_known(path):
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith('finding: '):
                p, k = l[len('finding: '):].split(' ', 2)[:2]
                out.append((p.split('=')[1], k))
    return out


class Run(object):
    def __init__(self, prog, pid, tier, seed):
        self.p, self.pid, self.tier, self.seed = prog, pid, tier, seed
        self.findings, self.holds, self.undecided = [], [], []
        self.broken = None
        self.extra = {}
        self.pairs = None
        self._facts = None

    def facts(self):
        if self._facts is None:
            if self.pairs is None:
                self.pairs = Pairs(self.p)
            self._facts = queries.Facts(self.p, self.pairs.types.fresh())
        return self._facts

    def go(self):
        todo = PAIRS.get(self.pid, [])
        missing = 0
        if todo:
            self.pairs = Pairs(self.p, budget=200 if self.tier == 'thorough' else None)
            t0 = time.time()
            limit = 3000 if self.tier == 'thorough' else 500
            for q in todo:
                if time.time() - t0 > limit:
                    self.undecided.append('%s: time limit of the run' % q)
                    continue
                for r in self.pairs.check(q):
                    if r.status == 'ok':
                        self.holds.append('%s (%d observables)' % (r.name, r.stats.get('outputs', 0)))
                    elif r.status == 'diff':
                        self.findings.append(Finding(r.name, 'code computes the documented function of its inputs',
                                                     r.where, r.detail))
                    else:
                        missing += r.status == 'missing'
                        self.undecided.append('%s: %s' % (r.name, r.detail[:300]))
        for name in QUERIES.get(self.pid, []):
            fn = name if callable(name) else globals()[name]
            fn(self)
        if todo and missing == len(todo) and not QUERIES.get(self.pid):
            self.broken = 'all anchors are missing: %s' % todo

    # -------------------------------------------------------------- for query rules
    def ok(self, what):
        self.holds.append(what)

    def bad(self, key, rule, where, text):
        if any(f.key == key and f.where == where for f in self.findings):
            return
        self.findings.append(Finding(key, rule, where, text))

    def skip(self, what):
        self.undecided.append(what)

    def coverage(self):
        n = len(self.holds) + len(self.findings) + len(self.undecided)
        c = dict(explanation='static: every function below was evaluated symbolically over all its inputs by global '
                             'value numbering of the current source (gated values, field versions for effects, '
                             'call-graph resolution of receivers) and its return value, attribute updates, effects and '
                             'exceptions compared with the reference definition; query rules are listed by name',
                 obligations=n, holding=len(self.holds), violated=len(self.findings),
                 undecided_count=len(self.undecided), hold_list=sorted(self.holds), undecided=sorted(self.undecided),
                 findings=[dict(key=f.key, where=f.where, rule=f.rule, text=f.text[:400]) for f in self.findings],
                 source=dict(modules=len(self.p.modules), lines=self.p.nlines, sha256=self.p.digest.hexdigest()))
        if self.pairs:
            c['syntax_nodes_evaluated'] = self.pairs.nodes
            c['functions_inlined'] = len(self.pairs.inlined)
            c['overrides_without_definition'] = sorted(self.pairs.excused)
        c.update(self.extra)
        return c
