"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json
import os

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
CORE, ROT, UTIL, OBJ = ('src/nvector/core.py', 'src/nvector/rotation.py', 'src/nvector/util.py',
                        'src/nvector/objects.py')
P = []


def prop(id_, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id_, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


I, C, H, S = 'inputs', 'configurations', 'histories', 'schedules'

prop('C01', 'Latitude/longitude and n-vector conversions are exact inverses everywhere',
     'The n-vector of any latitude/longitude is the outward unit normal of the ellipsoid there, to '
     'double precision, under the axes of the frame in use. Converting back gives the same position '
     'for every latitude and longitude, poles, antimeridian and multiples of full turns included, '
     'with latitude in [-90, 90] and longitude in [-180, 180] degrees. The depth is carried '
     'through unchanged.',
     [I, C], 'all latitudes, longitudes (any number of turns), depths, all rotations used as axes; '
     'scalar and vector input',
     'The tests convert a handful of mid-latitude positions; nothing settles the poles, the '
     'antimeridian, tiny angles, angles beyond a full turn or other axes.',
     [CORE, ROT, OBJ],
     [('lat_lon2n_E', CORE), ('n_E2lat_lon (arctan2 forms)', ROT),
      ('GeoPoint.to_nvector / Nvector.to_geo_point', OBJ)],
     ['lat_lon2n_E', 'n_E2lat_lon', 'GeoPoint', 'Nvector'])

prop('C02', 'ECEF position and n-vector/depth conversions are exact on every ellipsoid',
     'The Cartesian position of an n-vector at a depth is the point at that distance inside '
     '(negative: outside) the ellipsoid surface along the outward normal, for the given semi-major '
     'axis, flattening and axes. Converting a Cartesian position back yields the unit normal and depth '
     'that reproduce that position to double precision, from the deep interior (further from the centre than '
     'the squared eccentricity times the semi-major axis, 43 km for the Earth) to beyond satellite distance, at the '
     'poles, on the equator and for spheres.',
     [I, C], 'all directions, depths from about 99 % of the radius down to far out in space, '
     'ellipsoids with flattening in [0, 0.1], any size, all axes',
     'Tests check two or three points near the surface of WGS-84; the inverse is a closed-form root of '
     'a quartic whose branches and cancellation depend on latitude, height and flattening.',
     [CORE, OBJ],
     [('n_EB_E2p_EB_E', CORE), ('p_EB_E2n_EB_E / _equation23 / _compute_k', CORE),
      ('Nvector.to_ecef_vector, ECEFvector.to_nvector / to_geo_point', OBJ)],
     ['n_EB_E2p_EB_E', 'p_EB_E2n_EB_E', 'ECEFvector.to_nvector'])

prop('C03', 'Delta vectors between positions and position + delta are exact inverses',
     'The delta vector from A to B decomposed in E is the Cartesian position of B minus that of A, '
     'with each depth applied to its own position. Adding that delta to A gives B again, position and '
     'depth, and deltas are antisymmetric and add up along a chain A to B to C. Addition, subtraction '
     'and negation of ECEF vectors and n-vector objects, and scaling of the latter, obey vector arithmetic '
     '(depths included) and keep the frame.',
     [I, C], 'all pairs and triples of positions, depths, ellipsoids and axes',
     'Worked examples 1 and 2 exercise a single pair each; swapped depths or a dropped ellipsoid '
     'parameter are invisible when both depths or all parameters have their default.',
     [CORE, OBJ],
     [('n_EA_E_and_n_EB_E2p_AB_E', CORE), ('n_EA_E_and_p_AB_E2n_EB_E', CORE),
      ('delta_E, ECEFvector.__add__/__sub__/__neg__', OBJ)],
     ['delta_E', 'n_EA_E_and_p_AB_E2n_EB_E'])

prop('C04', 'Local frames N, L and B are proper rotations with the documented axes',
     'At every position the rotation matrix of a local frame is orthonormal with determinant +1 and '
     'its z axis points down for N and L; N has x towards north and y towards east, L is N turned by '
     'the wander azimuth about z (clockwise seen from above for a positive angle), and B is N followed by yaw, pitch and roll about z, y, x. At the poles '
     'the matrices are still proper rotations with the correct down axis and the documented choice of '
     'x and y axes. The n-vector is recovered exactly from such matrices. N and L have their origin directly '
     'beneath the position, at the surface, and B has it at the position.',
     [I, C], 'all positions including poles, all wander azimuths and body attitudes, all axes; '
     'single matrices and stacks',
     'Tests look at two or three matrices; orthonormality close to the poles and for every attitude is '
     'a statement over a continuum.',
     [ROT, OBJ],
     [('n_E2R_EN', ROT), ('n_E_and_wa2R_EL', ROT), ('R_EL2n_E, R_EN2n_E', ROT),
      ('FrameN/FrameL/FrameB.R_EN', OBJ)],
     ['n_E2R_EN', 'n_E_and_wa2R_EL', 'FrameN.R_EN', 'FrameL.R_EN', 'FrameB.R_EN'])

prop('C05', 'Decomposing vectors in local frames is lossless and geometrically right',
     'Re-expressing an ECEF vector in a local frame N, L or B gives its components along the axes of '
     'that frame, keeps its length, and going back to E restores it. The delta from A to B in N or L '
     'is measured in the local frame of A, and its azimuth, elevation and length follow '
     'from its components (azimuth clockwise from x towards y, elevation arcsin(z/length)). The '
     'azimuth from A to B computed directly from the two surface positions equals the azimuth of that '
     'delta.',
     [I, C], 'all positions, depths, vectors, frames (N, L with any wander azimuth, B with any attitude), '
     'ellipsoids and axes',
     'Examples cover one vector per frame type; a transposed rotation or the local frame of the '
     'wrong point only shows for general attitudes.',
     [OBJ, CORE],
     [('ECEFvector.change_frame, Pvector.to_ecef_vector', OBJ), ('delta_N, delta_L, delta_to', OBJ),
      ('Pvector.azimuth/elevation/length', OBJ), ('n_EA_E_and_n_EB_E2azimuth', CORE)],
     ['ECEFvector.change_frame', 'delta_N', 'delta_L', 'n_EA_E_and_n_EB_E2azimuth'])

prop('C06', 'Euler angle and rotation matrix conversions compose and invert for all angles',
     'The matrix of x-y-z (z-y-x) angles is the product of the three elementary rotations in that '
     'order, for any angles. Extracting angles from any rotation matrix gives angles in the principal '
     'range (middle angle in [-90, 90] degrees) that rebuild the same matrix, gimbal lock and its '
     'neighbourhood included, and for angles inside the principal range the angles themselves come '
     'back. Stacks of matrices are converted matrix by matrix.',
     [I], 'all angle triples, all rotation matrices including middle angle of exactly or almost '
     '+-90 degrees; scalars and vectors',
     'One unit test rotates by three angles; gimbal lock and the sign/quadrant logic need the whole '
     'angle space.',
     [ROT], [('xyz2R, zyx2R', ROT), ('R2xyz, R2zyx', ROT)],
     ['xyz2R', 'zyx2R', 'R2xyz', 'R2zyx'])

prop('C07', 'Great-circle, Euclidean and track distances are accurate at every separation',
     'The great-circle distance is radius times the angle between the two n-vectors and the '
     'Euclidean distance is radius times their chord, to full precision from coincident through '
     'nearly antipodal and exactly antipodal positions. Distances are symmetric, non-negative and zero for '
     'identical positions. The track distance of a path uses the requested method and the given radius, by default '
     'the mean of the two distances from the centre of the Earth.',
     [I, C], 'all pairs of positions, separations from 0 to half a turn, all radii (scalar and per '
     'position), all methods',
     'The tests use separations of some degrees; losing precision for tiny or antipodal separations '
     '(arccos/arcsin forms) does not show there.',
     [CORE, OBJ],
     [('great_circle_distance, euclidean_distance', CORE),
      ('GeoPath.track_distance, _get_average_radius', OBJ)],
     ['great_circle_distance', 'euclidean_distance', 'GeoPath.track_distance'])

prop('C08', 'Destination from position, distance and azimuth is the exact spherical solution',
     'Travelling an angular distance along the great circle that leaves A at a given azimuth '
     '(clockwise from north) arrives at the unit n-vector given by the spherical direct problem, for '
     'every position, distance (zero, negative, more than a turn) and azimuth. The distance from A to '
     'the result is the distance travelled, its initial direction is the azimuth asked for, and '
     'travelling back restores A. At the poles the azimuth is measured from the documented fallback '
     'axes.',
     [I, C], 'all positions including poles, distances, azimuths and axes; scalars and vectors',
     'Worked example 8 is one position, one distance and one azimuth.',
     [CORE], [('n_EA_E_distance_and_azimuth2n_EB_E', CORE)],
     ['n_EA_E_distance_and_azimuth2n_EB_E'])

prop('C09', 'Great-circle displacement and distance/azimuth follow the spherical solution',
     'Displacing a point with the great-circle method keeps its depth and moves it by distance '
     'divided by its distance from the centre of the Earth along the given azimuth. The great-circle '
     'distance between two points is the angle between their normals times the mean of their '
     'distances from the centre. The reported azimuth at A is the direction of the straight line to B in '
     'the local frame of A, and the azimuth at B is the heading of the path on arrival (along or opposite to '
     'the straight line back to A), folded to [-180, 180) degrees.',
     [I, C], 'all points, depths, distances of either sign and beyond half a turn, azimuths, '
     'ellipsoids and axes, degrees or radians',
     'Tests use one displacement in default axes; long and negative distances, other axes and depths '
     'take different paths.',
     [OBJ],
     [('GeoPoint.displace(method=greatcircle)', OBJ),
      ('GeoPoint.distance_and_azimuth(method=greatcircle)', OBJ)],
     ['GeoPoint.displace', 'GeoPoint.distance_and_azimuth'])

prop('C10', 'Geodesics on the ellipsoid solve the direct and inverse problem for every input',
     'Ellipsoidal displacement and distance/azimuths agree with the geodesic on the ellipsoid whose '
     'semi-major axis is reduced by the depth (the mean depth of the two points for the inverse), with the '
     'flattening of the frame. Displacing A by the distance and azimuth reported to B arrives at B '
     'with the reported azimuth, and the depth is kept. Longitudes are folded to [-180, 180] degrees '
     'unless unrolling is requested, in which case they follow the geodesic continuously.',
     [I, C], 'all pairs of points incl. nearly antipodal, meridional, equatorial and coincident, '
     'distances of several turns, depths, ellipsoids, degrees and radians, scalars and vectors',
     'Tests compare one or two geodesics; unit handling, depth averaging, unrolling and broadcasting '
     'are combinations that are not sampled.',
     [OBJ],
     [('FrameE.direct/inverse', OBJ), ('GeoPoint.displace, distance_and_azimuth', OBJ),
      ('GeoPath.track_distance(ellipsoid)', OBJ)],
     ['FrameE.direct', 'FrameE.inverse', 'GeoPoint.displace', 'GeoPoint.distance_and_azimuth'])

prop('C11', 'Path intersection lies on both great circles, nearest to the first path start',
     'For two paths on different great circles the intersection is a unit vector lying on both '
     'great circles, and of the two antipodal candidates it is the one in the same hemisphere as the '
     'start of the first path. Intersecting a path with itself, its reverse or a path of zero length gives NaN '
     'and a warning, and well-defined intersections never do. The depth of the intersection is the mean of the depths of the four '
     'end points.',
     [I], 'all pairs of paths, short, long, crossing at any angle; single and vectorized',
     'The tests cross two pairs of paths; the choice of candidate and the degenerate case depend on '
     'the geometry.',
     [CORE, OBJ], [('intersect', CORE), ('GeoPath.intersect', OBJ)],
     ['intersect', 'GeoPath.intersect'])

prop('C12', 'Cross-track distance is the exact signed distance to the great circle',
     'The cross-track distance is radius times the angle between the position and the great circle '
     'through the path, positive to the right of the direction of travel, zero on the circle, accurate '
     'for positions on, near, far from and at 90 degrees from the circle; with the Euclidean method it '
     'is radius times the sine of that angle. A position counts as on the great circle exactly when '
     'the magnitude of this distance is within the tolerance. Reversing the path changes only the '
     'sign, and a path object uses the mean distance of its end points from the centre of the Earth '
     'unless a radius is given.',
     [I, C], 'all paths and positions, radii, tolerances, both methods',
     'Tests sample a few positions at moderate distance; signs per quadrant and accuracy at the '
     'extremes are not covered.',
     [CORE, OBJ],
     [('cross_track_distance, great_circle_normal, on_great_circle', CORE),
      ('GeoPath.cross_track_distance, on_great_circle', OBJ)],
     ['cross_track_distance', 'on_great_circle', 'GeoPath.cross_track_distance'])

prop('C13', 'A point is reported on a path exactly when it lies between the end points',
     'A position on the great circle (or geodesic, for the ellipsoid method) of the path and between '
     'its end points, end points included, at the mean depth of the path, is on the path. A '
     'position off the circle or geodesic by more than the tolerance (a length; for the ellipsoid method also the '
     'relative tolerance times the distance from the start), beyond either end point, on the far side of '
     'the Earth, or at another depth is not. This holds for any direction and for any length of less than half a turn.',
     [I, C], 'all paths (also across poles and the antimeridian, due north/south/east/west), all '
     'positions along, beyond, beside, above and opposite to them',
     'Tests check a few interpolated points; the answer is a region predicate over position x path.',
     [CORE, OBJ],
     [('on_great_circle_path', CORE), ('GeoPath.on_path, _on_ellipsoid_path', OBJ)],
     ['on_great_circle_path', 'GeoPath.on_path'])

prop('C14', 'Closest point on great circle or path is the true minimiser',
     'The closest point on a great circle lies on that circle, is a unit vector, and no other point of '
     'the circle is closer. The closest point on a path is that point when it lies between the end '
     'points and otherwise the nearer end point. Points on a circle get the mean depth of the path; end '
     'points keep their own.',
     [I, C], 'all paths and positions, including positions on the circle, at its poles and on the far side',
     'Tests check a handful of points; minimality is universally quantified over the points of the '
     'circle.',
     [CORE, OBJ],
     [('closest_point_on_great_circle', CORE), ('GeoPath.closest_point_on_path', OBJ)],
     ['closest_point_on_great_circle', 'GeoPath.closest_point_on_great_circle',
      'GeoPath.closest_point_on_path'])

prop('C15', 'Mean horizontal position is the normalised vector mean',
     'The mean of any number of positions (that do not cancel) is the unit vector along the sum of their n-vectors, '
     'independent of their order, so it commutes with rotating all positions and does not depend on '
     'poles or the antimeridian. The depth of the mean is the mean depth, and the mean of equal positions is that position.',
     [I], 'all collections of 1 to hundreds of positions, depths scalar or per position',
     'The tests average three positions once.',
     [CORE, OBJ], [('mean_horizontal_position', CORE), ('Nvector.mean', OBJ)],
     ['mean_horizontal_position', 'Nvector.mean'])

prop('C16', 'Path interpolation follows the chord between the end points',
     'Interpolating a path at fraction t gives the unit vector along (1-t) times the start plus t '
     'times the end n-vector, so it starts at A for 0, ends at B for 1, stays on the great circle between and is '
     'the midpoint for 0.5 (NaN between exactly opposite ends, where there is none). The depth is interpolated linearly, and the frame is kept.',
     [I], 'all paths, fractions inside and outside [0, 1], scalar and vector fractions',
     'Tests interpolate two paths at two or three fractions.',
     [CORE, OBJ], [('interpolate', CORE), ('GeoPath.interpolate', OBJ)],
     ['interpolate', 'GeoPath.interpolate'])

prop('C17', 'Interpolation of position series passes through its nodes and smooths as asked',
     'Interpolating a time series of n-vectors gives unit vectors that reproduce the data at the sample times '
     'for every kind, follow the requested kind of interpolation of the components between them and '
     'are NaN outside the time range. With a smoothing window, the components '
     'are first filtered by a Savitzky-Golay filter of the given (odd, or next odd) window, order and '
     'edge mode. Depths are treated as a fourth component in the same way.',
     [I, C], 'all time series (uneven steps, any length), times, kinds, windows, orders, modes',
     'One test interpolates one track; kinds, windows and modes multiply.',
     [CORE, OBJ], [('interp_nvectors, _interp_vectors', CORE), ('Nvector.interpolate', OBJ)],
     ['interp_nvectors', 'Nvector.interpolate'])

prop('C18', 'Vectorized calls equal the column-by-column calls',
     'Every operation applied to n positions gives in column i what it gives for position i alone, '
     'with single positions, depths, angles, radii and distances broadcast against the others. '
     'Changing one column never changes another, whatever the number of columns. Scalar '
     'input gives scalar output and vector input gives vector output.',
     [I, C], 'all public operations, functional and object oriented, all column counts (1, 2, 3, 4, '
     '...), all ways to broadcast',
     'Tests use one or two column counts per function; 3 positions hitting 3x3 matrices, '
     'n x n outer products and reductions over the wrong axis need other shapes.',
     [CORE, ROT, UTIL, OBJ],
     [('axis=0 reductions and einsum ellipsis', CORE), ('mdot, unit', UTIL),
      ('scalar flags and broadcast_arrays', OBJ)],
     ['all public functions and methods'])

prop('C19', 'Results do not depend on the choice of axes or of the zero meridian',
     'For every operation, expressing the same physical positions in a frame with other axes gives '
     'the same physical result: geographic quantities are identical and Cartesian ones are rotated '
     'by the change of axes. Turning all positions by the same longitude turns the results with it.',
     [I, C], 'all public operations taking axes or a frame; axes "e", "E" and arbitrary rotations; '
     'all longitude shifts',
     'Nearly all tests use the default axes; an operation that forgets to pass its axes '
     'on is right there.',
     [CORE, ROT, OBJ],
     [('R_Ee argument', CORE), ('E_rotation, FrameE(axes)', ROT), ('frame.R_Ee', OBJ)],
     ['all operations with R_Ee or a frame'])

prop('C20', 'All representations and both APIs give the same answers',
     'A position gives the same result whether it is passed as latitude/longitude point, '
     'n-vector or ECEF vector, and converting between these in any order loses nothing, frame and depth included. '
     'The object-oriented operations give what the functional ones give for the same '
     'quantities.',
     [I, H], 'all positions, all sequences of conversions, all operations accepting a point',
     'Tests mostly use one representation per operation.',
     [OBJ, CORE],
     [('to_nvector/to_geo_point/to_ecef_vector', OBJ), ('delta_to, delta_E/N/L', OBJ)],
     ['GeoPoint', 'Nvector', 'ECEFvector', 'GeoPath'])

prop('C21', 'Operations are pure: no argument, object or global state is modified',
     'No operation changes its arguments, the objects it is called on (except the in-place '
     'normalisation an n-vector object offers by contract), the numpy error state, the warning filters or '
     'the tables of the library. The result of a call does not depend on calls made before it or '
     'concurrently in other threads. Modifying a returned array changes the result of no later call.',
     [I, H, S], 'all operations, all call sequences, concurrent threads, all memory layouts incl. '
     'read-only arrays',
     'Tests never look at inputs after a call, and run single-threaded in one order.',
     [CORE, ROT, UTIL, OBJ],
     [('copies instead of views', ROT), ('unit allocates its result', UTIL)],
     ['all public functions and methods'],
     [('E_ROTATION_MATRIX', 'shared rotation matrices', ROT), ('ELLIPSOID', 'shared table', UTIL)])

prop('C22', 'Positions in different frames are never silently mixed',
     'Adding, subtracting, differencing or measuring distance and azimuth between positions whose '
     'reference frames differ in semi-major axis, flattening or axes raises ValueError, and so does '
     'decomposing a vector in a local frame of another reference frame. Positions in equal frames, '
     'also when the frame objects are distinct, are accepted.',
     [C], 'all pairs of frames that differ in any one parameter, all frame-checked operations and '
     'representations',
     'Tests contain one mismatch for one operation.',
     [OBJ], [('_check_frames', OBJ), ('FrameE equality', OBJ)],
     ['GeoPoint.distance_and_azimuth', 'delta_E', 'ECEFvector.__add__', 'Nvector.__add__'])

prop('C23', 'Equality of positions and frames is sound, tolerant and never raises',
     'Positions and frames of one kind are equal exactly when their coordinates agree up to '
     'rounding (latitude and longitude modulo full turns) and their frames are equal; any coordinate, depth, '
     'frame parameter or attitude that differs by clearly more than rounding makes them unequal. The '
     'relation is reflexive, symmetric and independent of object identity, and != is '
     'its negation. Comparison with anything else gives unequal and never raises.',
     [I], 'all pairs of GeoPoint, Nvector, ECEFvector, Pvector, FrameE, FrameN, FrameL, FrameB and '
     'foreign objects',
     'Tests compare a few objects; wraps of 2 pi, tolerances and incompatible lengths are not '
     'covered.',
     [OBJ, UTIL], [('_Common.__eq__/__ne__, _is_equal_to', OBJ), ('allclose', UTIL)],
     ['==', '!='])

prop('C24', 'Ellipsoids and frames have the parameters that were asked for',
     'Looking up an ellipsoid by number, or by any of its names in any case and spacing, gives its '
     'defining semi-major axis and flattening, and an unknown name raises KeyError. A frame uses the '
     'ellipsoid named, replaced by the semi-major axis and flattening that are given explicitly, alone or '
     'together, and the axes asked for. Points made through a frame belong to that frame.',
     [C], 'all registry entries, spellings, combinations of name, a, f and axes',
     'Tests look up one or two ellipsoids and compare with the table itself.',
     [UTIL, OBJ, ROT], [('ELLIPSOID, ELLIPSOID_IX, get_ellipsoid', UTIL), ('FrameE.__init__', OBJ),
                        ('E_rotation', ROT)],
     ['get_ellipsoid', 'FrameE'])

prop('C25', 'Numeric utilities satisfy their mathematical contracts',
     'Normalisation gives unit vectors in the direction of the argument and the documented vector for zero; matrix products of stacks '
     'are the products matrix by matrix; the n-th root raised to n is the argument for non-negative '
     'numbers; degree/radian conversions are inverses. Closeness tests are elementwise, symmetric, '
     'true exactly when the difference is within the larger of the absolute and relative tolerance, '
     'and treat infinities and NaN as numpy does.',
     [I], 'all vectors whose length neither overflows nor underflows when squared, stacks of matrices, numbers, tolerances',
     'Doctests show one value each.',
     [UTIL], [('unit, mdot, nthroot, deg, rad, isclose, allclose', UTIL)],
     ['unit', 'mdot', 'nthroot', 'deg', 'rad', 'isclose', 'allclose'])

prop('C26', 'Only the direction of an n-vector matters, and wrong lengths are reported',
     'Conversions that take an n-vector (to latitude/longitude, to a Cartesian position, to local '
     'frames N and L) give the same result when the n-vector is scaled by a positive number. If the length of the '
     'first one deviates from 1 by more than 0.1 they warn, and if no length deviates by more than that they do not. Great-circle normal and intersection do not depend on the length of their arguments either.',
     [I], 'all n-vectors, lengths from tiny to huge, all converting operations',
     'A single unnormalised vector is tested.',
     [CORE, ROT, UTIL], [('_check_length_deviation', UTIL), ('unit', UTIL)],
     ['n_E2lat_lon', 'n_EB_E2p_EB_E', 'n_E2R_EN'])

prop('C27', 'No singularities: valid positions never give NaN, infinity or an exception',
     'For every finite position, at the poles, on the antimeridian, with coincident '
     'or antipodal pairs where the quantity is defined, every operation returns finite values of the '
     'right magnitude and emits no floating-point warning. Undefined results '
     '(no great circle, outside the time range) are NaN in exactly the affected columns.',
     [I], 'all operations on exact and almost exact special positions (floating-point neighbours of '
     'the poles, equator, antimeridian, coincident and antipodal pairs)',
     'Tests use generic positions; singular ones are a measure-zero set.',
     [CORE, ROT, OBJ], [('pole fallbacks', ROT), ('arctan2 formulations', CORE),
                        ('norm_zero_vector', UTIL)],
     ['all public functions and methods'])

prop('C28', 'Degrees and radians give the same results',
     'Every operation with a degrees switch gives with degrees=True the result it gives with '
     'degrees=False for the same physical angles, with all and only the angles converted: inputs, outputs and '
     'attributes, never distances or depths. Attributes in degrees equal those in radians times '
     '180/pi.',
     [I, C], 'all operations with a degrees switch, all angles, methods and options',
     'Tests fix one unit per call.',
     [OBJ, UTIL], [('degrees keyword', OBJ), ('deg, rad', UTIL)],
     ['GeoPoint', 'GeoPoint.displace', 'GeoPoint.distance_and_azimuth', 'FrameE.direct/inverse',
      'FrameB', 'Pvector'])

prop('C29', 'The ellipsoid in use is honoured, and results scale with the unit of length',
     'Measuring everything in another unit of length (semi-major axis, depths, distances, vectors, '
     'radii) scales every length in the results by the same factor and leaves angles, directions and '
     'predicates unchanged. The semi-major axis and flattening of the frame, not the defaults, '
     'determine every result.',
     [I, C], 'all operations with an ellipsoid or frame, scale factors over many orders of magnitude',
     'Nearly all tests use metres and WGS-84, so a constant with a hidden unit or an ignored '
     'parameter does not show.',
     [CORE, OBJ], [('a, f arguments', CORE), ('frame.a, frame.f', OBJ)],
     ['all operations with a, f or a frame'])

prop('C30', 'Omitted arguments mean their documented defaults; old names still work',
     'Leaving out any optional argument of a function, method or constructor, and passing it by keyword or '
     'by position, gives the same result as passing its documented default: WGS-84 ellipsoid, the '
     'documented axes, 6371009 m sphere radius, method, degrees or radians, zero depth, tolerances. '
     'Superseded names and keywords give the same result as what replaces them and announce it '
     'with a DeprecationWarning that names the replacement.',
     [I, C], 'all public operations and constructors, all subsets of their optional arguments, generic positions',
     'Tests mostly pass the arguments that matter to them; a changed default or a forwarding that drops an argument '
     'changes results only for the combination left out.',
     [CORE, ROT, UTIL, OBJ], [('default arguments', CORE), ('deprecated aliases', OBJ), ('_deprecation warnings', OBJ)],
     ['all public functions, methods and constructors'])

prop('C31', 'Results depend on the numbers passed in, not on how they are stored',
     'Arrays that hold the same numbers give the same results whatever their memory layout (strided, reversed, '
     'transposed, read-only, byte-swapped), double or extended precision or integer type. Lists and tuples of angles, distances and '
     'depths count as arrays; Python numbers, numpy scalars and zero-dimensional arrays count as the same '
     'scalar or switch. Calculations with integers are done in floating point and never truncate.',
     [I, C], 'all operations, all memory layouts, dtypes of at least double precision, 32 and 64 bit signed integers, kinds of scalars',
     'Tests pass freshly made contiguous float arrays or literals.',
     [CORE, ROT, UTIL, OBJ], [('np.asarray / array handling at entry', CORE), ('_atleast_3d, array_to_list_dict', UTIL)],
     ['all public functions and methods'])

prop('C32', 'Operations keep nothing alive and have no effects outside memory',
     'Once a client drops its positions, frames, arrays and results nothing in the library keeps them alive, and '
     'memory in use does not grow with the number of calls. Geodesic operations open no files, start no '
     'threads or processes, use no network and change no process-wide settings.',
     [H, I], 'long histories of all operations',
     'A unit test makes one call; growth and hidden references only show over a history.',
     [CORE, ROT, UTIL, OBJ], [('no module-level caches', CORE), ('frames and positions hold each other one way', OBJ)],
     ['all public functions and methods'])

prop('C33', 'Copies and pickles of positions and frames are equal, independent, alike',
     'A copy, deep copy or pickle (alone or inside containers) of a position, delta vector, path or frame is equal to the '
     'original (for a path: its ends), gives the same results in every operation, combines with the original without frame mismatch, '
     'and deep copies and pickles are independent of later changes to the original.',
     [I, H], 'all kinds of objects, ellipsoids, axes, scalar and vector, all copy methods and pickle protocols',
     'No test copies or pickles anything.',
     [OBJ], [('__eq__ / _is_equal_to', OBJ), ('frame attributes a, f, R_Ee, R_EN', OBJ), ('instance dictionaries', OBJ)],
     ['copy.copy', 'copy.deepcopy', 'pickle', '=='])

prop('C34', 'Incompatible numbers of positions are refused, never recycled',
     'Combining arrays of positions, angles, distances or depths whose numbers of columns are different and all above '
     'one raises ValueError: nothing is recycled, truncated or silently ignored, and the objects '
     'remain usable.',
     [I], 'all operations with several vector arguments, all pairs of different lengths above one',
     'No test mixes lengths; zip or resize semantics would go unnoticed.',
     [CORE, ROT, UTIL, OBJ], [('numpy broadcasting', CORE), ('_check_frames / broadcasting of depth', OBJ)],
     ['all functions and methods with several array arguments'])

prop('C35', 'Objects answer from their current contents',
     'After new coordinates, depths, a frame, end points, an attitude, axes or ellipsoid parameters are assigned to an object, '
     'or written into its arrays, every answer it gives is that of a new object with these contents: nothing that was '
     'computed earlier, for it or for an object that refers to it, is reused.',
     [H, I], 'all kinds of objects and public attributes, any history of questions and changes',
     'Tests make an object, ask once and drop it; a remembered answer shows only when the contents change in between.',
     [OBJ], [('properties latitude_deg, R_EN, length, azimuth', OBJ), ('conversion methods', OBJ)],
     ['GeoPoint', 'Nvector', 'ECEFvector', 'Pvector', 'GeoPath', 'FrameE', 'FrameN', 'FrameL', 'FrameB'])

prop('C36', 'Printed objects show every coordinate in full and can be read back',
     'The printed form (repr and str) of a position, delta vector or frame names its class and gives all public '
     'attributes as plain numbers and lists with all their digits: evaluated, it yields bit for bit the same numbers, and the '
     'object made from them is equal. The form does not depend on numpy print options or on the number of columns, and '
     'printing changes nothing.',
     [I, C], 'all kinds of objects, magnitudes, numbers of columns, print options; scalar and vector, integers, NaN, signed '
     'zeros',
     'The tests print a few positions with round numbers; loss of digits or columns shows for others only.',
     [OBJ, UTIL], [('_Common.__repr__', OBJ), ('array_to_list_dict', UTIL)],
     ['GeoPoint', 'Nvector', 'ECEFvector', 'Pvector', 'FrameE', 'FrameN', 'FrameL', 'FrameB'])

prop('C37', 'Failed or interrupted calls leave everything as it was',
     'When a call fails or is interrupted anywhere (an interrupt, lack of memory, an error in a nested call, an '
     'argument that makes no sense, warnings or floating point errors turned into exceptions), the '
     'objects, arguments, tables and global settings are as before, an interrupt reaches the caller, and all later answers of the '
     'same objects are those of objects that never saw the failure. An interrupted normalisation in place is done or not done.',
     [I, H, 'crash_points'], 'all operations and objects, failures before or after any call the library makes, arguments of any kind',
     'Tests only look at calls that succeed, or at the exception itself; state left behind by a call that failed half-way is '
     'never looked at.',
     [CORE, ROT, UTIL, OBJ], [('methods of positions, paths and frames', OBJ), ('Nvector.unit', OBJ)],
     ['all functions and methods'])

prop('C38', 'Chains of operations agree for all ways of carrying them out',
     'A sequence of object operations that feed on earlier results (displacements, distances and azimuths, interpolation, '
     'intersections, closest points, delta vectors, local frames, sums, geodesic problems) gives the same positions, lengths, '
     'angles and vectors whether carried out for all columns at once or one by one, in either documented choice of axes, in degrees '
     'or radians, with positions in any representation, on the same objects, copies, or objects newly made from their contents, '
     'and whatever else is asked in between.',
     [I, C, H], 'random programs of operations on random positions, ellipsoids, numbers of columns; results that '
     'depend on rounding errors excepted',
     'Tests call operations one at a time on literal inputs; what a result carries into the next operation (shape, scalar flag, '
     'frame, depth, sharing) is not exercised.',
     [CORE, ROT, UTIL, OBJ], [('results of all methods as arguments of others', OBJ)],
     ['all methods of positions, paths, delta vectors and frames'])

prop('C39', 'Answers do not depend on the circumstances of the process',
     'The library can be imported, and gives the same answers, refusals, warnings and printed forms, whatever the circumstances '
     'of the process: interpreter options (-O, -OO, -bb, -I, warnings as errors, ...), hash seed, locale, environment, working '
     'directory, settings of numpy (errors, printing, random state) and warnings, the order in which its modules are imported, and '
     'the place it is called from (thread, coroutine, generator, signal handler, finalizer, deep in the stack, traced, forked). '
     'Importing it prints nothing, makes no files and changes no settings.',
     [C, S], 'all combinations of circumstances this sandbox can provide x the whole catalogue of public calls, refusals, copies '
     'and printed forms',
     'The tests run in one process with one set of options, settings and callers, with docstrings and assertions present.',
     [CORE, ROT, UTIL, OBJ, 'src/nvector/_common.py', 'src/nvector/_examples.py', 'src/nvector/__init__.py'],
     [('module level code', OBJ), ('docstrings put together at import', 'src/nvector/_common.py'), ('checks of arguments', OBJ)],
     ['import nvector', 'all public functions and methods'])

prop('C40', 'Work and memory grow in proportion to the number of positions',
     'The memory an operation takes, the calls it makes and the steps it is interpreted in grow at most in proportion to the number '
     'of positions, angles, distances, attitudes or times it is given (for series: nodes and times together), never with the number '
     'of pairs of them, whether all arguments are many or some are single and broadcast.  They do not depend on how large the '
     'numbers are: many turns of an angle, or distances many times around the Earth, take no longer than small ones.',
     [C, S], 'all operations x numbers of positions x broadcasting x magnitudes of angles and distances',
     'The tests use a handful of positions and small numbers: a quadratic amount of memory, or a loop over turns, passes unnoticed.',
     [CORE, ROT, UTIL, OBJ], [('all operations on arrays', CORE), ('loops over positions around geographiclib', OBJ)],
     ['all public functions and methods'])

prop('C41', 'Classes derived from the library answer like the classes of the library',
     'Objects of classes that clients derive from GeoPoint, Nvector, ECEFvector, Pvector, GeoPath, FrameE, FrameN, FrameL and '
     'FrameB (with other constructors, more attributes, coordinates computed when asked for, or methods that call the original '
     'ones) can be used wherever those of the library can, alone or mixed with them, and give the same answers, refusals, equality '
     'in both directions and copies; they are printed with the name of their class, and results belong to the reference frame of '
     'the client, of its class. The same holds for numbers, arrays and names of classes derived from float, int, ndarray and str.',
     [I, C], 'all classes x ways to derive x questions x mixtures of derived and plain objects',
     'No test derives a class.',
     [OBJ, CORE, UTIL], [('comparison, products and factories', OBJ), ('names of ellipsoids and axes', UTIL)],
     ['all public classes and functions'])

with open(OUT, 'w') as fid:
    for p in P:
        fid.write(json.dumps(p) + '\n')
print(len(P), 'properties')
