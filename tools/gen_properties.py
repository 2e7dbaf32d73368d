#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept so that the statements can be edited in one readable place."""
import json, os

E = 'extraction/include/lidar_feature_extraction/'
ES = 'extraction/src/'
L = 'lib/include/lidar_feature_library/'
LS = 'lib/src/'
LO = 'localization/include/lidar_feature_localization/'
LOS = 'localization/src/'
K = 'ekf_localizer/include/ekf_localizer/'
KS = 'ekf_localizer/src/'

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    if len(title) > 80: print('TOO LONG', len(title), title)
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': list(observe),
            'hook_needed': hook,
        }})


p('C01', 'Published feature clouds hold only real input points, once, correctly stamped',
  'For every accepted sweep the extraction node publishes exactly one edge cloud, one surface cloud and one coloured cloud, '
  'each stamped with the sweep\'s stamp and the base-link frame. Every point of them has exactly the coordinates of an input point, '
  'no input point is published more often than it occurred, and no input point is both an edge and a surface point. The coloured cloud '
  'holds every point of each ring that could be processed exactly once and no other point, coloured by its class.',
  ['inputs', 'configurations'], 'all dense sweeps with a ring field (any number and size of rings, any order of points, any geometry) and all parameter settings',
  'The tests call the label helpers on hand-written arrays of at most ten points; the node itself has no test at all.',
  ['extraction/app/feature_extraction.cpp', E + 'label.hpp', E + 'mapped_points.hpp', E + 'color_points.hpp', ES + 'color_points.cpp',
   L + 'ros_msg.hpp', L + 'convert_point_cloud_type.hpp', L + 'algorithm.hpp'],
  [('index-based views of one immutable input cloud', E + 'mapped_points.hpp'),
   ('one label per point; points are selected by label', 'extraction/app/feature_extraction.cpp')],
  observe=['messages on scan_edge, scan_surface, colored_scan for each message on points_raw'])

p('C02', 'Edge and surface points are exactly those the curvature rule selects',
  'Within each block of a ring, edge points are chosen greedily from the highest curvature down among points at or above the edge threshold, '
  'and each choice removes the connected points within the padding distance from further selection; surface points are then chosen the same way '
  'from the lowest curvature up among the remaining points at or below the surface threshold. '
  'Curvature is the squared difference between the ranges of the window neighbours and the point, so it does not change when points of other rings change.',
  ['inputs', 'configurations'], 'all rings (geometry, length, gaps) and all thresholds, paddings and block counts',
  'Tests exercise two hand-written arrays of eight values per label class; nothing compares a whole ring, with gaps and several blocks, with the rule.',
  ['extraction/app/feature_extraction.cpp', E + 'label.hpp', E + 'algorithm.hpp', E + 'fill.hpp', E + 'neighbor.hpp', ES + 'math.cpp', ES + 'curvature.cpp',
   ES + 'convolution.cpp', ES + 'index_range.cpp', E + 'range.hpp', L + 'span.hpp'],
  [('argsort of curvature + greedy labelling', E + 'label.hpp'), ('neighbour suppression', E + 'fill.hpp')],
  observe=['scan_edge, scan_surface and colored_scan per sweep; labels from the labelling functions'])

p('C03', 'Occluded, out-of-range and parallel-beam points are never features',
  'No published edge or surface point lies on the far side of a range jump larger than the distance threshold between neighbouring beams (within the padding, on the connected side), '
  'outside the [min, max] range interval, or on a surface nearly parallel to the beam (both adjacent relative range differences above the ratio). '
  'Points that none of these three tests reject keep the class they had.',
  ['inputs', 'configurations'], 'all rings and all range, distance and ratio settings',
  'Each rejection has one or two hand-written examples; interactions of the three passes, ring ends, both scan directions and padding are not covered.',
  ['extraction/app/feature_extraction.cpp', E + 'occlusion.hpp', E + 'out_of_range.hpp', E + 'parallel_beam.hpp', E + 'range.hpp', E + 'fill.hpp', E + 'neighbor.hpp', ES + 'math.cpp'],
  [('three rejection passes after labelling', 'extraction/app/feature_extraction.cpp')],
  observe=['scan_edge, scan_surface, colours in colored_scan; labels from the rejection functions'])

p('C04', 'Points are grouped by ring and ordered by azimuth, whatever their input order',
  'Grouping partitions the points of a sweep by their ring number, and each group is ordered by azimuth exactly as the arctangent would order it '
  '(a strict weak order for all points, including those on the axes and at the origin). Rings with fewer points than the minimum are removed and no other. '
  'Permuting the points of a sweep therefore does not change the set of extracted feature points.',
  ['inputs'], 'all finite point sets, including duplicates, axis-aligned and zero points, and all permutations of a sweep',
  'The comparator is tested on one circle of eight directions; std::sort on a comparator that is not a strict weak order is undefined behaviour that only particular inputs expose.',
  [E + 'ring.hpp', ES + 'ring.cpp', E + 'iterator.hpp', ES + 'iterator.cpp', E + 'cloud_iterator.hpp', 'extraction/app/feature_extraction.cpp'],
  [('polar-angle comparator', E + 'ring.hpp'), ('grouping by ring id', E + 'ring.hpp')],
  observe=['index lists per ring; feature clouds of permuted sweeps'])

p('C05', 'Blocks tile the ring and curvature is the windowed second difference',
  'For every length, padding and block count that is accepted, the blocks are contiguous, non-overlapping, non-empty, balanced to within one element and cover exactly the padded interior of the ring; anything else is rejected with an exception. '
  'The convolution equals the direct sum of products at every interior position and zero within the padding of either end, and curvature is the square of the convolution with unit weights and minus the number of neighbours at the centre. '
  'Sub-ranges of distances are those of the requested points.',
  ['inputs', 'configurations'], 'all lengths, paddings, block counts, weights and values',
  'Tests use two or three lengths; block boundaries come from floating-point interpolation, whose rounding depends on the numbers.',
  [ES + 'index_range.cpp', E + 'index_range.hpp', ES + 'convolution.cpp', ES + 'curvature.cpp', E + 'range.hpp', E + 'math.hpp', ES + 'math.cpp', E + 'algorithm.hpp', L + 'span.hpp', E + 'mapped_points.hpp'],
  [('linear interpolation of block boundaries', ES + 'index_range.cpp'), ('inner product over a sliding window', ES + 'convolution.cpp')],
  observe=['return values and exceptions of the block, convolution, curvature, argsort, range and view functions'])

p('C06', 'Neighbour suppression fills only connected points within the padding',
  'Filling to the left or right labels the starting point and then each consecutive point up to the given bound, stopping right before the first point that is not a neighbour of the one before it; it labels nothing else and leaves every other label unchanged. '
  'Filling around a point does this in both directions up to the padding, clipped at the ends of the container. '
  'Requests beyond the container are rejected with an exception before any label is changed.',
  ['inputs'], 'all containers, start points, bounds, paddings and neighbour relations',
  'Tests pick about a dozen index/gap combinations; off-by-one errors at container ends, gaps next to the start and empty spans need others.',
  [E + 'fill.hpp', E + 'neighbor.hpp', L + 'span.hpp', E + 'range_message.hpp'],
  [('bounds check then walk while neighbours', E + 'fill.hpp')],
  observe=['label containers before and after'])

p('C07', 'Extraction survives any sweep and one bad ring does not affect the others',
  'No well-formed sweep with finite coordinates, however small, sparse, degenerate or oddly laid out, makes the extraction node crash, hang, read or write out of bounds or compute with undefined behaviour. '
  'A ring that cannot be processed is skipped while all other rings are processed as if it were absent, and later sweeps are unaffected. '
  'A sweep that is not dense or has no ring field is reported, produces no output and stops the node.',
  ['inputs', 'histories'], 'all sequences of sweeps with any field layout, ring sizes (0, 1, up to large), duplicate and zero points, and all parameter settings',
  'No test drives the node; undefined behaviour is invisible to value assertions.',
  ['extraction/app/feature_extraction.cpp', E + 'label.hpp', E + 'ring.hpp', E + 'occlusion.hpp', E + 'parallel_beam.hpp', E + 'neighbor.hpp', E + 'algorithm.hpp', ES + 'ring.cpp', ES + 'convolution.cpp', ES + 'index_range.cpp', ES + 'color_points.cpp', E + 'color_points.hpp'],
  [('exceptions per ring are caught and logged', 'extraction/app/feature_extraction.cpp'), ('guards against non-dense and ring-less clouds', 'extraction/app/feature_extraction.cpp')],
  observe=['sanitizer reports, process exit, published messages, shutdown state'])

p('C08', 'Statistics and index helpers return what their definitions say for every input',
  'The median is the middle order statistic (or the mean of the two middle ones) and an empty input is rejected; the sample standard deviation, three-value sort, index lookup, index selection, flag filtering, row gathering and stacking agree with their definitions. '
  'The randomized index list is always a permutation of 0..n-1. Views over a container read and write exactly the viewed elements and reject every index outside.',
  ['inputs'], 'all vectors (sizes, duplicates, magnitudes), index lists and views',
  'Tests fix a handful of short vectors; in-place selection algorithms go wrong for particular sizes and orders only.',
  [LS + 'stats.cpp', LS + 'algorithm.cpp', LS + 'random.cpp', LS + 'eigen.cpp', L + 'algorithm.hpp', L + 'span.hpp', L + 'eigen.hpp', L + 'random.hpp', L + 'numeric.hpp', LO + 'filter.hpp', E + 'algorithm.hpp'],
  [('nth_element selection', LS + 'stats.cpp'), ('checked views', L + 'span.hpp')],
  observe=['return values against independent definitions'])

p('C09', 'Poses, covariances, points and clouds keep their meaning across conversions',
  'Converting a pose, point, vector, quaternion, twist, transform or 6x6 covariance to its message form and back returns the same value, with stamp and frame names carried over unchanged and covariances in row-major order. '
  'Transforming a cloud or a point applies the rigid transform to every point and changes neither count nor order nor the other channels. '
  'Converting a cloud to a message and back, or to another point type, keeps every shared channel of every point.',
  ['inputs'], 'all finite poses, covariances (also asymmetric), clouds and frame names',
  'Tests use a single symmetric example per function; a swapped index or a transposed block needs asymmetric data to show.',
  [LS + 'ros_msg.cpp', L + 'ros_msg.hpp', LS + 'eigen.cpp', LS + 'pcl_utils.cpp', L + 'pcl_utils.hpp', L + 'convert_point_cloud_type.hpp', L + 'point_type.hpp', L + 'downsample.hpp', LOS + 'posevec.cpp', LO + 'pointcloud_to_matrix.hpp', LO + 'point_to_vector.hpp'],
  [('field-by-field conversion', LS + 'ros_msg.cpp'), ('row-major covariance layout', LS + 'eigen.cpp')],
  observe=['messages, matrices and clouds before and after'])

p('C10', 'Rotation algebra is consistent: products, Euler angles and derivatives',
  'The left and right multiplication matrices reproduce the quaternion product, the hat matrix reproduces the cross product, the wxyz vector conversion is a round trip, and roll-pitch-yaw produces the rotation Rz*Ry*Rx as a unit quaternion. '
  'The derivative of the rotated point with respect to the quaternion equals the numerical derivative. '
  'The exponential of a rotation vector is the unit quaternion of that rotation for every magnitude, including tiny ones.',
  ['inputs'], 'all quaternions (unit and not), vectors and angles',
  'Tests check one or two values per function; sign errors in single matrix entries can cancel for particular values.',
  ['rotationlib/src/hat.cpp', 'rotationlib/src/quaternion.cpp', 'rotationlib/src/jacobian/quaternion.cpp', LOS + 'posevec.cpp', LOS + 'optimizer.cpp', 'rotationlib/include/rotationlib/quaternion.hpp'],
  [('closed-form matrices', 'rotationlib/src/quaternion.cpp'), ('closed-form derivative', 'rotationlib/src/jacobian/quaternion.cpp')],
  observe=['return values against quaternion arithmetic and finite differences'])

p('C11', 'The time-delay Kalman filter equals the exact filter over the stacked states',
  'After any sequence of predictions and (possibly delayed) updates, the newest state, its covariance and every delayed state equal those of an exact Kalman filter over the stacked history of states; the covariance stays symmetric and positive semi-definite. '
  'A measurement whose delay reaches the history length, or whose gain is not finite, is rejected with an exception and leaves the filter unchanged.',
  ['histories', 'inputs'], 'all sequences of predict and update, delays, dimensions, transition and noise matrices',
  'Tests do one prediction and one update on fixed 2- and 3-dimensional examples; index errors in the block shift appear only with several steps, larger delays or other dimensions.',
  ['kalman_filter/src/time_delay_kalman_filter.cpp', 'kalman_filter/include/kalman_filter/time_delay_kalman_filter.hpp', 'kalman_filter/include/kalman_filter/kalman_filter.hpp'],
  [('block shift of state and covariance', 'kalman_filter/src/time_delay_kalman_filter.cpp')],
  state=[('x_', 'stack of the last n states, newest first', 'kalman_filter/include/kalman_filter/time_delay_kalman_filter.hpp'), ('P_', 'covariance of the stack', 'kalman_filter/include/kalman_filter/time_delay_kalman_filter.hpp')],
  observe=['getLatestX, getLatestP, getX after every step'])

p('C12', 'The linear Kalman filter equals weighted least squares on the whole history',
  'After any sequence of predictions (with the stored or given matrices) and measurement updates, the state and covariance equal the minimum-variance linear estimate computed from the complete history. '
  'Updates with a non-finite gain are rejected with an exception and change nothing; re-initialisation discards everything before it.',
  ['histories', 'inputs'], 'all sequences of init, predict and update with any valid dimensions and matrices',
  'Tests check the helper formulas once each; the filter class is never constructed in a test.',
  ['kalman_filter/src/kalman_filter.cpp', 'kalman_filter/include/kalman_filter/kalman_filter.hpp', 'kalman_filter/include/kalman_filter/matrix_size.hpp'],
  [('predict/update equations', 'kalman_filter/include/kalman_filter/kalman_filter.hpp')],
  state=[('x_, P_', 'state estimate and covariance', 'kalman_filter/include/kalman_filter/kalman_filter.hpp')],
  observe=['state elements after every step'])

p('C13', 'Vehicle motion model, Jacobian, process noise and time step are consistent',
  'The predicted state is the planar constant-velocity motion along the bias-corrected heading with the yaw kept in (-pi, pi]; the linearisation equals the derivative of that prediction; process noise acts only on yaw, yaw bias, velocity and yaw rate in that order. '
  'The time step is the time since the previous prediction (the nominal period the first time, never more than 10 s), and a backward clock jump is reported and changes nothing. '
  'Covariances are copied to the pose and twist messages and the gate compares the squared Mahalanobis distance with the squared limit.',
  ['inputs', 'histories'], 'all states, time steps, clock sequences, covariances and gate limits',
  'Tests check one state each, mostly with zero velocity or zero bias; a wrong sign or column there survives.',
  [KS + 'state_transition.cpp', KS + 'update_interval.cpp', K + 'update_interval.hpp', KS + 'covariance.cpp', KS + 'mahalanobis.cpp', K + 'delay.hpp', K + 'normalize_yaw.hpp', KS + 'string.cpp', K + 'state_index.hpp'],
  [('closed-form Jacobian', KS + 'state_transition.cpp'), ('last prediction time', KS + 'update_interval.cpp')],
  state=[('last_time_', 'time of the previous prediction', K + 'update_interval.hpp')],
  observe=['return values and exceptions'])

p('C14', 'Each queued measurement is used exactly the configured number of times, in order',
  'Each message pushed into the measurement queue is handed out exactly max(1, configured count) times and never again, messages are handed out round-robin in arrival order, and the size always equals the number of messages still to be handed out. '
  'Clearing removes everything; nothing is lost or duplicated under any interleaving of pushes, pops and clears.',
  ['histories'], 'all sequences of push, pop, size and clear and all counts',
  'Tests run two short scripted sequences.',
  [K + 'aged_message_queue.hpp'],
  [('two parallel queues of messages and ages', K + 'aged_message_queue.hpp')],
  state=[('msgs_/ages_', 'pending messages and how often each was used', K + 'aged_message_queue.hpp')],
  observe=['return values of pop and size'])

p('C15', 'Pose and twist measurements update the filter once per tick or not at all',
  'In one tick every pending pose and twist measurement is applied exactly once to the state it belongs to in time (delay divided by the time step, rounded), with its covariance scaled by the configured number of repetitions and with the yaw difference taken across the +-pi wrap. '
  'A measurement whose position, heading or velocity is not finite, with a delay beyond the history or a Mahalanobis distance beyond the gate leaves the filter exactly unchanged, and stale or future stamps never crash it.',
  ['inputs', 'histories', 'configurations'], 'all queues of measurements, stamps (zero, stale, future), covariances, yaw angles and settings',
  'No test here builds the measurement classes; upstream tests only cover their matrix helpers.',
  [KS + 'pose_measurement.cpp', KS + 'twist_measurement.cpp', K + 'pose_measurement.hpp', K + 'twist_measurement.hpp', KS + 'check.cpp', K + 'delay.hpp', KS + 'mahalanobis.cpp', K + 'aged_message_queue.hpp'],
  [('checks before each update', KS + 'pose_measurement.cpp'), ('delay step', K + 'delay.hpp')],
  state=[('messages_', 'measurements still to be applied', K + 'pose_measurement.hpp')],
  observe=['filter state and covariance after each tick'])

p('C16', 'The EKF node publishes the filtered odometry and nothing before initialisation',
  'Before an initial pose whose frame can be resolved arrives, nothing is published and no measurement is lost to a crash; afterwards each timer tick with a forward-moving clock publishes one odometry and one transform, stamped with the current time and the configured frames, that equal a reference filter fed with the same messages. '
  'Published values are finite and the orientation is a unit quaternion for every finite input that does not overflow, including across the +-pi yaw wrap. A new initial pose restarts the filter from that pose.',
  ['histories', 'inputs', 'configurations'], 'all interleavings of initial poses, pose and twist messages (valid, NaN, stale), clock jumps and ticks',
  'The node tests need a running ROS 2 graph and real sleeps, are not run here and only check one constant pose.',
  [KS + 'ekf_localizer.cpp', K + 'ekf_localizer.hpp', KS + 'tf.cpp', K + 'tf.hpp', KS + 'covariance.cpp', KS + 'check.cpp', K + 'warning.hpp', KS + 'string.cpp'],
  [('timer callback: predict, update, publish', KS + 'ekf_localizer.cpp')],
  state=[('ekf_', 'filter, absent until initialised', K + 'ekf_localizer.hpp')],
  observe=['ekf_odom messages and transforms per tick'])

p('C17', 'Registration residuals are geometric distances, Jacobians their derivatives',
  'The alignment residual is the transformed point minus its target; the edge residual is orthogonal to the line through the neighbours\' mean along their principal direction, with twice the distance from it as its length; the surface residual is the signed distance to the least-squares plane w.x = -1 through the neighbours (planes away from the map origin), and the surface scan is thinned to one point per unit voxel. '
  'Each Jacobian equals the numerical derivative of its residual with respect to the translation and to the quaternion. '
  'The combined problem stacks the edge terms and the surface terms, one per scan point used, in order.',
  ['inputs'], 'all poses, scans, maps and neighbour sets',
  'Tests check single analytic values at one pose; a sign or factor error that vanishes there is invisible.',
  [LOS + 'alignment.cpp', LOS + 'edge.cpp', LO + 'edge.hpp', LO + 'surface.hpp', LOS + 'jacobian.cpp', LO + 'loam_optimization_problem.hpp', LO + 'math.hpp', L + 'downsample.hpp'],
  [('closed-form residuals and Jacobians', LOS + 'edge.cpp')],
  observe=['residual and Jacobian lists of each problem'])

p('C18', 'Robust weights and the weighted Gauss-Newton step match their definitions',
  'Errors are squared residual norms, their scale is the normalised median absolute deviation, and each weight is the derivative of the Huber cost: one below the cut and decreasing with the square root above it, continuous, in (0, 1]. '
  'The update is the solution of the weighted normal equations on the rotation-translation tangent space, so it is independent of the order of the measurements and zero for a zero residual. '
  'If the unweighted system is degenerate the update is exactly zero.',
  ['inputs'], 'all residual and Jacobian lists, weights, scales and cut-offs',
  'Tests use a few fixed vectors; degenerate and mixed-dimension systems, outliers and scaling are not sampled.',
  [LOS + 'optimizer.cpp', LOS + 'robust.cpp', LOS + 'degenerate.cpp', LO + 'optimizer.hpp', LO + 'robust.hpp', LS + 'stats.cpp', LO + 'math.hpp'],
  [('normal equations', LOS + 'optimizer.cpp'), ('Huber derivative', LOS + 'robust.cpp')],
  observe=['weights, scale and update vectors'])

p('C19', 'The optimizer always terminates with an honest result and a valid rigid pose',
  'The optimizer evaluates the problem at most the configured number of times and always returns a rigid pose with a unit rotation. '
  'It reports failure exactly when there was nothing to optimise (returning the initial pose) or the iteration limit was reached; otherwise it reports success, having converged or stopped at the first increase of error or scale. '
  'Each step taken is the weighted Gauss-Newton step at the pose just evaluated, and the returned pose is that pose moved by the step, or the pose itself when it stopped on an increase. '
  'The reported iteration, error and scale are those of the last evaluation.',
  ['inputs', 'histories'], 'all problems (also non-convex, inconsistent, rank-deficient, empty), start poses and iteration limits',
  'Tests run a few well-behaved problems to convergence; the early exits and limits are reached by one case or none.',
  [LO + 'optimizer.hpp', LO + 'optimization_result.hpp', LOS + 'optimizer.cpp', LOS + 'posevec.cpp'],
  [('bounded loop with four exits', LO + 'optimizer.hpp')],
  observe=['sequence of problem evaluations and the returned result'])

p('C20', 'Registration recovers the true pose from a nearby start, despite outliers',
  'For point-to-point alignment with noise-free correspondences the optimizer recovers the true pose, and with up to a fifth of gross outliers it still ends within a small fraction of the cloud\'s size. '
  'For scans taken in a structured scene (lines, and planes away from the map origin) localization against the edge and surface maps moves a moderately perturbed start pose to the true pose, and the result is repeatable and equivariant to a rigid change of the map frame.',
  ['inputs'], 'all scenes with enough structure, perturbations within the basin of convergence and outlier subsets',
  'Tests use one scene with a tiny perturbation.',
  [LO + 'localizer.hpp', LO + 'optimizer.hpp', LO + 'loam_optimization_problem.hpp', LO + 'edge.hpp', LO + 'surface.hpp', LOS + 'optimizer.cpp', LOS + 'alignment.cpp', LOS + 'robust.cpp', LOS + 'kdtree.cpp'],
  [('iteratively reweighted Gauss-Newton', LO + 'optimizer.hpp')],
  observe=['pose before and after, success flag'])

p('C21', 'Nearest-neighbour search returns exactly the k nearest map points',
  'For every map and query the search returns the k nearest rows of the map by Euclidean distance, nearest first, together with their squared distances, each row at most as often as it occurs in the map. '
  'If the map has fewer than k points all of them are returned and nothing else. The result does not depend on leaf size or map order, except among equidistant points.',
  ['inputs'], 'all maps (duplicates, collinear, any size and dimension), queries, k and leaf sizes',
  'One test queries a few points of a small map.',
  [LOS + 'kdtree.cpp', LO + 'kdtree.hpp', LO + 'pointcloud_to_matrix.hpp', LS + 'eigen.cpp'],
  [('nanoflann index over the stored map', LOS + 'kdtree.cpp')],
  observe=['returned rows and distances against brute force'])

p('C22', 'The stamped store returns the entry closest in time and is safe for threads',
  'A lookup returns the stored entry whose stamp is closest to the query (the later one on a tie), with the object last stored under that stamp; insertion replaces an entry with the same stamp, and the size is the number of distinct stamps held. '
  'Trimming keeps every entry whose stamp is not after the given time, discards every later one, and is safe whatever is stored. '
  'Under concurrent use every result is one that some sequential order of the calls would give, without data races.',
  ['histories', 'schedules'], 'all sequences and interleavings of insert, lookup, trim and size',
  'Tests are single-threaded and use four fixed stamps.',
  [LO + 'stamp_sorted_objects.hpp'],
  [('one mutex around a sorted map', LO + 'stamp_sorted_objects.hpp')],
  state=[('objects_', 'entries sorted by stamp', LO + 'stamp_sorted_objects.hpp')],
  observe=['call/return history of every thread'])

p('C23', 'Local maps are the last scans in order, in the map frame; odometry chains them',
  'Asking for the n most recent scans returns exactly the points of the last n scans (all of them if fewer), oldest first, each transformed by the pose it was added with; asking for all returns every scan. '
  'Adding a scan neither changes earlier scans nor the caller\'s cloud. '
  'Odometry stores the first scan at the identity, then estimates each scan against the recent map starting from the previous pose and stores it at the estimated pose.',
  ['histories', 'inputs'], 'all sequences of scans (also empty), poses and window sizes',
  'Tests add two or three one-point scans.',
  [LO + 'recent_scans.hpp', LO + 'point_cloud_map.hpp', LO + 'odometry.hpp', L + 'pcl_utils.hpp', LO + 'map_io.hpp'],
  [('list of transformed scans', LO + 'recent_scans.hpp')],
  state=[('scans_', 'transformed scans in arrival order', LO + 'recent_scans.hpp')],
  observe=['returned clouds; calls made on the updater and map'])

p('C24', 'Localization starts from the prior closest in time and publishes the result',
  'For each pair of edge and surface clouds with equal stamps the node, if it has received any prior pose, registers them starting from the stored prior closest in time and publishes exactly one pose and one transform with the scan\'s stamp, the map frame and the base-link frame, both equal to the registration result, with the fixed diagonal covariance. '
  'Without a prior it publishes nothing. Priors may come as odometry or poses, in any stamp order.',
  ['histories', 'inputs'], 'all interleavings of priors and scan pairs, in any stamp order',
  'The node has no test at all.',
  [LO + 'subscriber.hpp', LO + 'localizer.hpp', LO + 'stamp_sorted_objects.hpp', LS + 'ros_msg.cpp', 'localization/app/localization.cpp'],
  [('prior store keyed by stamp', LO + 'subscriber.hpp')],
  state=[('prior_poses_', 'priors by stamp', LO + 'subscriber.hpp')],
  observe=['estimated_pose messages, transforms, start pose given to the registration'])

p('C25', 'The built map is the union of the accepted scans in the map frame',
  'The map is exactly the concatenation, in arrival order, of the accepted scans transformed by their poses (finite, with a unit quaternion): the first non-empty scan is accepted, and after it a non-empty scan exactly when its pose differs from the last accepted one by at least 1 m or by a rotation at or above the threshold; empty scans change nothing. '
  'Only scans and poses with equal stamps are combined. Saving writes a file that loads back to the same points and writes nothing when the map is empty.',
  ['histories', 'inputs'], 'all sequences of scans and poses, including slow drifts, pure rotations and empty scans',
  'Tests check the pose-difference predicate and one transform; no test feeds a sequence.',
  ['mapping/include/lidar_feature_mapping/map.hpp', 'mapping/src/mapping.cpp', L + 'pcl_utils.hpp'],
  [('pose difference to the last accepted scan', 'mapping/include/lidar_feature_mapping/map.hpp')],
  state=[('map_, prev_transform_', 'accumulated points and pose of the last accepted scan', 'mapping/include/lidar_feature_mapping/map.hpp')],
  observe=['map contents after each message, files written'])

p('C26', 'The path holds every received pose, in order, with the newest header',
  'After each received pose, with or without covariance, one path is published that holds all poses received so far in arrival order, each with its own header and unchanged values, and whose own header is that of the newest pose. '
  'The path is latched for late subscribers and the subscription queues every pose.',
  ['histories'], 'all sequences of pose messages',
  'The test needs a ROS graph, sends one pose and is not run here.',
  ['path_generator/include/path_generator/path_generator.hpp', 'path_generator/src/node.cpp'],
  [('append then publish', 'path_generator/include/path_generator/path_generator.hpp')],
  state=[('path_', 'poses so far', 'path_generator/include/path_generator/path_generator.hpp')],
  observe=['path messages after each pose'])

p('C27', 'The loaded map equals the file and its viewer frame is at the centroid',
  'The map loader publishes once, latched, exactly the points and fields of the given file in the map frame, not marked as dense if a coordinate is not finite, and refuses to start without a file name. '
  'For every map with a finite point the transform generator broadcasts the identity rotation and the arithmetic mean of the finite points between the configured frames; for any other map it broadcasts nothing.',
  ['inputs', 'configurations'], 'all map files, fields, sizes and frame names',
  'Neither node has a test.',
  ['map_loader/src/map_loader.cpp', 'map_tf_generator/src/map_tf_generator_node.cpp'],
  [('publish on construction', 'map_loader/src/map_loader.cpp'), ('sum and divide', 'map_tf_generator/src/map_tf_generator_node.cpp')],
  observe=['published map, static transform'])

p('C28', 'Point-type conversion keeps every non-zero point, bit for bit',
  'For every input cloud with float32 x, y, z, an intensity and a ring, in either byte order, without padding between rows and with any other fields that do not overlap, the converter publishes one cloud with the same header that holds exactly the points that are not at the origin, in order, with bit-identical x, y and z and the same intensity and ring. '
  'The output is little-endian in the fixed 32-byte layout the extraction node reads, and sizes, steps and fields are consistent with the data.',
  ['inputs'], 'all clouds with the required fields: layouts, byte orders, extra fields, sizes including empty',
  'Tests cover the byte helpers with one layout; the node callback is not tested.',
  ['point_type_converter/point_type_converter/convert.py'],
  [('struct unpack, filter, pack', 'point_type_converter/point_type_converter/convert.py')],
  observe=['published cloud for each input cloud'])

p('C29', 'Launched systems are wired: every link, argument and parameter takes effect',
  'For the default and all other values of the launch arguments, the localization and the mapping launch files start only executables that their packages build, every node parameter they set is one the node declares, with the type it declares, and is the value the node uses, and no topic carries two types. '
  'Converted clouds reach the extraction and raw clouds only the converter; edge and surface clouds reach the localization, or the edge clouds the mapping; estimated poses reach the Kalman filter and its odometry the localization, with QoS settings that are compatible at each link. '
  'The topics named by the arguments (sensor points, poses, initial pose, twist, estimated pose, odometry, maps on show) are those the nodes use, and the maps on show are the ones given to the localization, kept for late subscribers.',
  ['configurations'], 'both launch files with all values of their arguments',
  'No test starts a launch file or two nodes together; the launch package has only style tests, which do not run here.',
  ['lidar_feature_launch/launch/localization.launch.py', 'lidar_feature_launch/launch/mapping.launch.py', 'lidar_feature_launch/config/lidar_feature_extraction.param.yaml',
   'extraction/app/feature_extraction.cpp', 'localization/app/localization.cpp', LO + 'subscriber.hpp', 'mapping/src/mapping.cpp', KS + 'ekf_localizer.cpp', 'map_loader/src/map_loader.cpp',
   'point_type_converter/point_type_converter/convert.py'],
  [('topic remappings and parameters', 'lidar_feature_launch/launch/localization.launch.py'), ('parameter file', 'lidar_feature_launch/config/lidar_feature_extraction.param.yaml')],
  observe=['topics, types and QoS of every publisher and subscription of the started nodes; parameter values in use'])

p('C30', 'The whole chain follows the vehicle: map on the world, poses near the truth',
  'When the launched mapping system is driven through surroundings with sufficient structure with known poses, every point of the saved edge map lies on a surface of the surroundings, up to sensor noise. '
  'When the launched localization system is then driven there, from an initial pose that is off by at most 0.2 m and 0.04 rad, with sweeps and slightly biased twists, each sweep gives one estimated pose with its stamp within 0.2 m and 0.03 rad of the true pose (after the first), and each filter tick gives one odometry within 0.5 m and 0.08 rad of the true pose (after 0.4 s).',
  ['histories', 'inputs', 'configurations'], 'all surroundings with walls, floor and pillars, all slow smooth drives, sweeps exact or with noise up to 1 cm, delivered up to 60 ms late or missing for up to a second, both launch files with all arguments',
  'No test runs two components together; each unit test fixes a handful of numbers.',
  ['lidar_feature_launch/launch/localization.launch.py', 'lidar_feature_launch/launch/mapping.launch.py', 'extraction/app/feature_extraction.cpp', 'localization/app/localization.cpp', LO + 'subscriber.hpp',
   LO + 'localizer.hpp', 'mapping/src/mapping.cpp', 'mapping/include/lidar_feature_mapping/map.hpp', KS + 'ekf_localizer.cpp', KS + 'ekf_localizer_node.cpp'],
  [('extraction of features', 'extraction/app/feature_extraction.cpp'), ('registration against the map', LO + 'localizer.hpp'), ('fusion of poses and twists', KS + 'ekf_localizer.cpp')],
  observe=['edge map file, estimated poses and odometry of the running systems, against the simulated truth'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
