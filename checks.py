"""What each check builds, runs and demands to have observed."""
PACKAGES = ['lib', 'rotationlib', 'kalman_filter', 'imu_integration', 'extraction', 'localization', 'ekf_localizer',
            'mapping', 'map_loader', 'map_tf_generator', 'path_generator']

LIB = ['lib/src/**/*.cpp']
ROT = ['rotationlib/src/**/*.cpp']
EXT = LIB + ['extraction/src/**/*.cpp']

CHECKS = {}


def add(pid, harness, repo, cases, require, rule='', **stage):
    """Adds one stage (a harness in one mode) to the check of a property."""
    st = dict({'harness': harness, 'mode': pid, 'repo': repo, 'cases': cases}, **stage)
    c = CHECKS.setdefault(pid, {'stages': [], 'require': {}, 'rule': ''})
    c['stages'].append(st)
    c['require'].update(require)
    if rule:
        c['rule'] = (c['rule'] + ' ' + rule).strip()


NODE = ('The extraction node (app/feature_extraction.cpp with its real main) is driven through a stand-in message bus. A case is one to '
        'several sweeps (synthetic scenes, degenerate rings, point orders, message layouts) and one parameter setting, drawn from the seed. ')

add('C01', 'ext_node.cpp', EXT, (4000, 200000),
    {'sweeps': 500, 'edges': 1000, 'surfaces': 1000, 'rings_complete': 300, 'rings_too_short': 20, 'sweeps_wide': 3, 'sweeps_dense': 20, 'long_runs': 5},
    NODE + 'The monitor decodes the three clouds published per sweep and compares them as multisets with the input. '
    'Non-trivial: at least one feature or coloured point was published; distinct by input and parameters.')
add('C02', 'ext_node.cpp', EXT, (6000, 200000), {'rings_checked': 3000, 'suppressed': 50000, 'surfaces': 10000, 'edges': 10000, 'sweeps_wide': 3, 'sweeps_dense': 15},
    NODE + 'The monitor recomputes the classes of every ring with an independent implementation of the rule and compares rings whose decisions '
    'all have a margin against rounding. Non-trivial: a compared ring held a feature.')
add('C02', 'ext_unit.cpp', EXT, (100000, 2000000), {'selections': 10000, 'exact_threshold_hits': 1000, 'large_selections': 30},
    'Second stage: the labelling functions on curvatures that are exact in binary, thresholds hit exactly, random links between points.')
add('C03', 'ext_node.cpp', EXT, (6000, 200000), {'rings_checked': 3000, 'occluded': 10000, 'kept': 10000, 'sweeps_wide': 3, 'sweeps_dense': 15},
    NODE + 'The monitor recomputes which points the three rejection rules reject. Non-trivial: a compared ring held a rejected point.')
add('C03', 'ext_unit.cpp', EXT, (100000, 2000000),
    {'rejections': 10000, 'exact_threshold_hits': 1000, 'jumps_left': 1000, 'jumps_right': 1000, 'parallel': 1000, 'out_of_range': 1000, 'large_rings': 30},
    'Second stage: the rejection functions on distances that are exact in binary, thresholds hit exactly.')
add('C04', 'ext_node.cpp', EXT, (5000, 200000), {'sweeps_permuted': 2000, 'sweeps_wide': 2, 'sweeps_dense': 15},
    NODE + 'Each sweep is sent again in another point order and the published clouds are compared as multisets.')
add('C04', 'ext_unit.cpp', EXT, (10000, 400000), {'orders_checked': 100000, 'rings_sorted': 5000},
    'Second stage: grouping, ordering and removal of sparse rings on random, axis-aligned, duplicate, zero and extreme points; '
    'the comparison of two points against exact double products. Non-trivial: more than one point.')
add('C05', 'ext_unit.cpp', EXT, (16000, 1000000),
    {'tilings': 20000, 'tilings_refused': 1000, 'convolutions': 1000, 'convolutions_refused': 50, 'ranges': 1000, 'large_tilings': 100, 'large_signals': 20, 'very_large_signals': 10, 'many_blocks': 10},
    'A case is either a sweep over all ring sizes for one padding and block count, or one signal and weights (integers, compared exactly, or reals) '
    'with random lengths around the limits; every case is non-trivial, distinct by its input.')
add('C06', 'ext_unit.cpp', EXT, (300000, 8000000),
    {'fill_left': 1000, 'fill_right': 1000, 'fill_around': 1000, 'fill_refused': 1000, 'neighbour_tests': 1000, 'large_containers': 200},
    'A case is one label container (1 to 40 labels, now and then up to 5000), random links between consecutive points and one fill request, inside or beyond the container, '
    'or a pair of points for the neighbour test; distinct by links, labels and request.')
add('C07', 'ext_node.cpp', EXT, (6000, 200000),
    {'empty_sweeps': 100, 'hostile_sweeps': 500, 'mixed_sweeps': 1000, 'not_dense_refused': 100, 'ringless_refused': 100},
    NODE + 'Hostile sweeps (empty, one point, equal, zero, extreme points, unknown layouts) are mixed with good ones under address and undefined-behaviour '
    'sanitizers with uninitialised memory filled with a pattern; each good ring must be published as if sent alone.')

LIBUNIT = LIB + ROT + ['localization/src/posevec.cpp', 'extraction/src/iterator.cpp']
add('C08', 'lib_unit.cpp', LIBUNIT, (40000, 400000), {'median_even': 1000, 'median_odd': 1000, 'median_refused': 50, 'stddevs': 1000, 'span_writes': 1000, 'shuffles_seen': 1000, 'long_vectors': 30},
    'A case is one vector (0 to 200 values, now and then up to 100000: duplicates, sorted, extreme or offset values), labels, flags, index lists and view bounds drawn from the seed; '
    'every case is non-trivial, distinct by the values.')
add('C09', 'lib_unit.cpp', LIBUNIT, (24000, 400000), {'clouds_transformed': 1000, 'clouds_converted': 1000, 'poses_converted': 1000, 'negative_w': 300, 'large_clouds': 10, 'clouds_with_holes': 1000},
    'A case is one pose (also half turns and negative w), asymmetric covariance, stamp, frame and cloud; every case is non-trivial, distinct by pose, stamp and frame.')
add('C10', 'lib_unit.cpp', LIBUNIT, (200000, 4000000), {'rotations': 1000, 'tiny_rotations': 1000},
    'A case is a pair of quaternions (unit or not), vectors, Euler angles (also at +-90 and +-180 degrees) and a rotation vector of any magnitude; '
    'every case is non-trivial, distinct by the numbers.')

KF = ['kalman_filter/src/*.cpp']
BATCH = ('The filter runs a random history next to a batch solution that keeps every state as a linear function of independent noises and conditions on all '
         'measurements at once in long double. A case is one history with random dimensions and matrices; non-trivial: it holds a prediction and an update. ')
add('C11', 'kf_unit.cpp', KF, (3000, 60000),
    {'histories_compared': 2000, 'predictions': 3000, 'updates': 3000, 'delayed_updates': 1000, 'delays_rejected': 50, 'gains_rejected': 100, 'long_histories': 10}, BATCH)
add('C12', 'kf_unit.cpp', KF, (4000, 100000),
    {'histories_compared': 3000, 'predictions': 5000, 'updates': 5000, 'reinitialised': 500, 'gains_rejected': 300, 'long_histories': 20}, BATCH)

EKF = LIB + ROT + KF + ['ekf_localizer/src/*.cpp', '!ekf_localizer/src/ekf_localizer_node.cpp']
add('C13', 'ekf_unit.cpp', EKF, (6000, 1000000),
    {'models': 3000, 'intervals': 5000, 'backward_refused': 1000, 'gates': 3000, 'gate_closed': 3000},
    'A case is one state, time step, covariance and noise setting, one sequence of clock values (equal, forward, backward, far) and one gate decision '
    'with limits just below and above the distance; every case is non-trivial, distinct by state, clock values and measurement.')
add('C14', 'queue_unit.cpp', [], (20000, 3000000), {'pops': 50000, 'used_up': 10000, 'clears': 1000, 'long_histories': 20},
    'A case is one random history of push, pop, size and clear with one count (also 0 and negative) against a list of messages and remaining uses; '
    'non-trivial: a message was pushed; distinct by the history.')
add('C15', 'ekf_unit.cpp', EKF, (4000, 200000),
    {'ticks_compared': 5000, 'applied': 5000, 'applied_delayed': 500, 'too_old': 500, 'gated': 300, 'not_finite': 300, 'wrapped_yaw': 100, 'ticks_all_rejected': 200, 'long_histories': 3},
    'A case is one random filter, history length, counts, gates and some ticks with pose and twist messages (current, delayed, stale, future, zero stamps, '
    'non-finite values), against a dense filter over the stacked states. Non-trivial: a measurement was applied; distinct by settings and stamps.')
add('C16', 'ekf_node.cpp', EKF, (2500, 100000),
    {'ticks_compared': 8000, 'ticks_before_initialisation': 1000, 'ticks_backward': 300, 'reinitialised': 1000, 'initial_unresolved': 1000,
     'applied': 5000, 'rejected': 5000, 'wrapped_yaw': 200, 'orientations_compared': 5000, 'ticks_finite': 10000, 'drives': 5},
    'The EKF node is driven from its real main through the stand-in message bus. A case is one parameter setting and one history of initial poses (resolvable or not, '
    'hostile), pose and twist messages, clock jumps and ticks, against the dense reference filter. Non-trivial: a published odometry was compared; distinct by settings and history.')

REG = LIB + ROT + ['localization/src/*.cpp']
add('C17', 'reg_unit.cpp', REG, (4000, 400000),
    {'alignment_residuals': 1000, 'edge_residuals': 1000, 'surface_residuals': 1000, 'jacobians': 3000, 'voxels_merged': 100, 'combined': 200, 'edges_small_map': 50, 'combined_large': 5, 'alignment_zeros': 50},
    'A case is one map (lines, patches, clutter), scan and pose, with the alignment, edge, surface or combined problem; residuals against fits through brute-force '
    'neighbours (skipped when neighbours are equidistant or the fit is ambiguous), Jacobians against central differences. Non-trivial: a residual was compared; distinct by map and pose.', hflags=['-DONLY=17'])
add('C18', 'reg_unit.cpp', REG, (20000, 1000000), {'steps': 1000, 'degenerate': 1000, 'scales': 1000, 'scales_zero': 50, 'huber': 5000, 'large_systems': 30},
    'A case is one set of residuals, Jacobians and weights (also degenerate ones, zero and equal errors) of random size and order, against the weighted normal equations in long double; '
    'every case is non-trivial, distinct by its numbers.', hflags=['-DONLY=18'])
add('C19', 'reg_unit.cpp', REG, (20000, 400000),
    {'exit_empty': 50, 'exit_error': 50, 'exit_scale': 50, 'exit_limit': 50, 'exit_converged': 50, 'limit_zero': 20, 'steps_followed': 1000, 'starts_at_truth': 50, 'unchanged_errors': 500},
    'A case runs the optimizer on a problem that records every evaluation (real and scripted residuals, any iteration limit); the monitor follows each step and the exit. '
    'Non-trivial: at least one evaluation; distinct by the problem.', hflags=['-DONLY=19'])
add('C20', 'reg_unit.cpp', REG, (4000, 100000),
    {'alignments': 300, 'alignments_large_rotation': 100, 'alignments_outliers': 300, 'outliers_pulling': 100, 'scenes_exact': 30, 'scenes_noise': 30, 'scenes_outliers': 30, 'scenes_moved': 100},
    'A case is an alignment with exact correspondences, one with up to a fifth gross outliers, or a scene of patches and lines with its scan (exact, noisy, with points that are not in the map), '
    'registered twice and again in a moved map frame; the monitor compares with the true pose. Every case is non-trivial, distinct by sizes and offsets.', hflags=['-DONLY=20'])
add('C21', 'reg_unit.cpp', REG, (12000, 600000), {'queries': 10000, 'small_maps': 1000, 'empty_maps': 100, 'ties': 500, 'clouds': 500, 'large_maps': 10, 'close_queries': 1000, 'many_neighbours': 500},
    'A case is one map (dimension 1 to 6, 0 to 400 points, now and then up to 80000, duplicates, ties, collinear, offset), k and leaf size with some queries, against brute force. '
    'Non-trivial: the map is not empty; distinct by size and scale of the map.', hflags=['-DONLY=21'])

add('C22', 'store_unit.cpp', [], (6000, 400000),
    {'inserts': 20000, 'lookups': 10000, 'trims_removing': 1000, 'trims_to_nothing': 200, 'ties': 500, 'replaced': 1000, 'histories_overlapping': 5000, 'poses': 100, 'stress_calls': 10000, 'many_held': 5},
    'A case is one sequential history of insert, lookup, trim and size against a sorted list, twelve concurrent histories (2 to 4 threads, up to 20 calls, copies of the objects '
    'delayed at random) each searched for a sequential order that explains all results, or a stress run. Non-trivial: an entry was inserted, or calls overlapped; distinct by the calls and their overlaps.')
add('C22', 'store_unit.cpp', [], (2000, 100000), {}, 'Second stage: the same under ThreadSanitizer.', flavor='tsan', libs=['-lpthread'])
add('C23', 'scans_unit.cpp', LIB + ROT + ['localization/src/*.cpp'], (20000, 1000000),
    {'points': 100000, 'maps': 10000, 'windows_too_large': 1000, 'empty_scans': 500, 'no_returns': 100, 'registrations': 5000, 'odometry_runs': 1000, 'odometry_with_map': 100, 'small_motions': 5000, 'long_histories': 15, 'large_scans': 20, 'far_runs': 500},
    'A case is one sequence of up to 15 scans (also empty, with missing returns) and poses with a window size, against the list of transformed scans, or an odometry run whose '
    'registrations and stored scans are recorded. Non-trivial: a scan was added; distinct by number, window and size.')
add('C24', 'loc_node.cpp', REG, (1600, 40000),
    {'registered': 1000, 'recovered': 300, 'empty_scans': 200, 'scans_without_prior': 50, 'late_topics': 100, 'missing_maps': 5, 'priors': 2000, 'long_runs': 10, 'dense_maps': 10, 'other_frames': 500},
    'The localization node is driven from its real main through the stand-in message bus. A case is one scene with maps on disk and one history of priors (odometry, poses, any stamp order, equal '
    'stamps) and scans (also empty, with any frame names, one topic late); each result is compared with a fresh node given only the closest prior and that scan, with the true pose, and for empty scans with the prior. '
    'Non-trivial: a scan was registered; distinct by the results.')
add('C25', 'map_node.cpp', LIB + ROT, (6000, 400000),
    {'first_scans': 2000, 'moved': 1000, 'turned': 1000, 'too_close': 2000, 'empty_scans': 2000, 'unpaired': 500, 'stamps_differ': 500, 'bursts': 100, 'empty_maps': 300, 'maps': 5000, 'slow_drives': 300, 'large_scans': 10, 'long_drives': 50},
    'The mapping node is driven from its real main through the stand-in message bus, or its builder is called directly. A case is one history of scans (also empty) and poses (moves and turns just below and above '
    'the thresholds, missing partners, unequal stamps, poses long after their scans); the saved file is compared with the union of the accepted scans. Non-trivial: the map is not empty; distinct by the history.')

add('C26', 'path_node.cpp', [], (20000, 1000000), {'paths': 50000, 'mains': 2000, 'without_covariance': 20000, 'with_covariance': 20000, 'long_paths': 300, 'very_long_paths': 5},
    'A case is one history of poses (repeated, with equal, backward or unset stamps, changing frames, hostile values) sent to the path generator, driven from its real main or through either of its classes; '
    'each published path is compared with the list of sent poses. Non-trivial: a pose was sent; distinct by the poses.')
add('C27', 'mapio_node.cpp', LIB + ROT, (6000, 300000),
    {'maps_loaded': 2000, 'maps_binary': 500, 'maps_ascii': 300, 'maps_pcl_compressed': 300, 'refused': 50, 'points_loaded': 50000, 'organised': 100, 'means': 2000, 'nothing_finite': 100, 'maps_with_holes': 300, 'large_maps': 20, 'chained': 300, 'files_with_holes': 200},
    'A case is one PCD file (binary, ascii or compressed; any fields and order; holes; empty) given to the map loader and compared byte for byte, or some maps (padding, rows, holes, large, no finite point) given to the '
    'transform generator and compared with the mean in long double. Non-trivial: the map has a finite point or the file a point; distinct by layout and values.')

add('C28', 'convert_node.py', [], (6000, 300000),
    {'clouds': 8000, 'points': 100000, 'big_endian': 3000, 'little_endian': 3000, 'origin_dropped': 10000, 'empty_outputs': 500, 'fields_out_of_order': 2000, 'organised': 500, 'large_clouds': 100, 'mains': 2000},
    'A case sends one to four clouds (either byte order; x, y, z, intensity, ring among any other fields, in any order, with gaps and tails; zero, negative zero, infinite and NaN values; empty to 5000 points) to the converter, '
    'driven from its real main() or its class on stand-ins for rclpy; each published cloud is compared bit for bit. Non-trivial: a point was kept; distinct by layout and bytes.')

SYS = dict(prepare='launch_dump.py', **{'with': ['sys_extraction.cpp', 'sys_localization.cpp', 'sys_mapping.cpp', 'sys_ekf.cpp', 'sys_loader.cpp']})
SYSREPO = LIB + ROT + KF + ['extraction/src/**/*.cpp', 'localization/src/*.cpp', 'ekf_localizer/src/*.cpp', '!ekf_localizer/src/ekf_localizer_node.cpp']
LAUNCHED = ('The launch files are executed on stand-ins for launch and launch_ros, and every node they name is started from its real main with the names and parameters they give, '
            'on one stand-in bus that matches topics, types and QoS. ')
add('C29', 'system.cpp', SYSREPO, (400, 4000), {'links': 1000, 'arguments': 1000, 'parameters': 2000, 'executables': 1000, 'configurations_localization': 100, 'configurations_mapping': 100},
    LAUNCHED + 'A case is one configuration with default or random launch arguments; the monitor follows every required connection, argument and parameter. Every case is non-trivial; '
    'distinct by configuration and arguments.', **SYS)
add('C30', 'system.cpp', SYSREPO, (40, 600), {'drives': 20, 'drives_with_gap': 8, 'poses': 200, 'odometries': 1000, 'map_points': 10000},
    LAUNCHED + 'A case is one random yard with walls and pillars and a ray-cast spinning lidar: the mapping system is driven round it with known poses, then the localization system is driven on that map '
    'with sweeps (exact or noisy, late or not, now and then none for a while), biased twists and an initial pose that is off; map, poses and odometry are compared with the simulated truth. Every case is non-trivial; distinct by the yard.',
    flavor='fast', **SYS)
