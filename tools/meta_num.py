TD = 'The tests compute one or a few positions and compare them to stored digits.'
prop('C16', 'World-frame dead reckoning moves by v t and a t^2 / 2',
     'The world-frame algorithms give position + velocity t, plus acceleration t^2 / 2 where the algorithm has an '
     'acceleration (static: no movement). Algorithms that do not rotate keep the orientation. Two consecutive steps, '
     'carrying the velocity along, give the position of one step of their total length. Algorithms that differ only '
     'in what they ignore agree when that is zero.',
     'all positions, velocities, accelerations, orientations, angular velocities and time steps',
     'The tests compute one time step of one state per algorithm.', [DR], [('drm_*w, drm_static', DR)],
     observe=['drm_static, drm_fpw, drm_rpw, drm_rvw, drm_fvw'], kind='reals')
prop('C17', 'Body-frame dead reckoning moves along the body axes',
     'The body-frame algorithms move by v t (plus a t^2 / 2) turned from body to world axes by the rotation for yaw '
     'psi about z, then pitch theta about y, then roll phi about x; get_rotation_matrix is that rotation, orthonormal '
     'and right-handed; get_angular_velocity_matrix is the cross-product matrix. The distance moved does not depend on '
     'the orientation, and at zero orientation body and world algorithms agree.',
     'all states and all orientations', 'The tests use a few special orientations.', [DR],
     [('get_rotation_matrix', DR), ('drm_*b', DR)],
     observe=['get_rotation_matrix, get_angular_velocity_matrix, drm_fpb, drm_rpb, drm_rvb, drm_fvb'], kind='reals')
prop('C18', 'Orientation extrapolation follows the body angular velocity',
     'Away from gimbal lock the rotating algorithms change the Euler angles by the rates of the body angular velocity '
     'times t (so that the attitude matrix turns as R [w]x); at gimbal lock the result stays defined and no angle '
     'changes faster than the body turns. All rotating algorithms turn the entity alike, whatever its position and '
     'velocity.', 'all orientations, angular velocities and time steps',
     'The tests check a few angles, none near gimbal lock with a general angular velocity.', [DR],
     [('drm_r*', DR)], observe=['drm_rpw, drm_rvw, drm_rpb, drm_rvb'], kind='reals')
prop('C19', 'Dead reckoning is a pure function of its arguments',
     'A zero time step changes neither position nor orientation. The algorithms leave their arguments as they were, '
     'give the same result when called again, also after steps from other states, and results share no storage with '
     'arguments or other results. Lists, tuples, arrays and whole numbers are equally good arguments.',
     'all states, as list, tuple and array; one other step before, sharing any argument, all but one, or one or two numbers of a vector',
     'The tests never look at an argument after the call.', [DR], [('drm_*', DR)], observe=['drm_*'], kind='reals')
prop('C20', 'Geodetic positions map onto the WGS84 ellipsoid and its normals',
     'lla2ecef puts zero altitude on the WGS84 ellipsoid at the point whose normal has the given latitude and longitude, '
     'and altitude along that outward normal. lla2gcc without origin is lla2ecef, with an origin the difference from '
     'it. deg2rad and rad2deg are inverse; euclideanDistance is the Pythagorean distance; surface gravity g0 lies '
     'between 9.78 and 9.833 and is alike in both hemispheres.',
     'all latitudes, longitudes and altitudes', TD, [RC], [('GPS.lla2ecef', RC), ('WGS84', RC)],
     observe=['lla2ecef, lla2gcc, deg2rad, rad2deg, euclideanDistance, WGS84.g0'], kind='reals')
prop('C21', 'ECEF and local north-east-down coordinates are inverse rigid motions',
     'ecef2ned gives the components of point minus origin along north, east and down at the latitude and longitude of '
     'the origin, ned2ecef undoes it and the other way round, distances are kept, and the frame of ecefvec2nedvec is '
     'orthonormal and right-handed.', 'all points and all origins at least 6e6 m from the centre, the poles included',
     TD, [RC], [('GPS.ecef2ned, GPS.ned2ecef', RC), ('GPS.ecefvec2nedvec', RC)],
     observe=['ecef2ned, ned2ecef, ecefvec2nedvec'], kind='reals')
prop('C22', 'Range, azimuth and elevation are spherical coordinates of the local position',
     'ned2pae gives the distance, the azimuth from north towards east and the elevation above the horizon in degrees, '
     'so that north, east and down can be computed back; ecef2pae is ned2pae of ecef2ned and its range is the '
     'straight-line distance. The zero vector does not fail.', 'all local positions, all points and origins', TD, [RC],
     [('GPS.ned2pae, GPS.ecef2pae', RC)], observe=['ned2pae, ecef2pae'], kind='reals')
prop('C23', 'Conversion between local and ECEF orientation keeps the attitude',
     'llarpy2ecef and ecef2llarpy give the position of lla2ecef and ecef2lla, and Euler angles of the same body axes: '
     'psi, theta, phi relative to ECEF and yaw, pitch, roll relative to north-east-down describe one attitude. '
     'rotate_3x3 is the right-handed rotation about the given unit axis.',
     'all positions and orientations; attitudes with the nose along the target frame\'s vertical only on slices',
     TD, [RC], [('GPS.llarpy2ecef, GPS.ecef2llarpy', RC), ('GPS.rotate_3x3', RC)],
     observe=['llarpy2ecef, ecef2llarpy, rotate_3x3'], kind='reals')
prop('C24', 'UTM zone, band, easting, northing and scale are right',
     'lla2utm names the zone that holds the longitude (longitude 180 in zone 60, Norway and Svalbard exceptions '
     'included) and the 8 degree latitude band (X from 72 to 84), and gives easting, northing and scale of Snyder\'s '
     'transverse Mercator formulas with scale 0.9996 and easting 500 km on the central meridian: mirror-symmetric about '
     'it, northing 0 on the equator. Altitude is passed through. Southern northings have no false northing.',
     'latitudes -80 to 84, longitudes -180 to 180',
     'The tests convert a few places; zone edges, the irregular zones and band edges are not among them.', [RC],
     [('GPS.lla2utm, GPS.utmLetterDesignator', RC)], observe=['lla2utm'], kind='reals')
prop('C27', 'ECEF positions convert to the geodetic position, alike in all hemispheres',
     'ecef2lla gives the exact longitude in (-180, 180], latitude 0 and height over the equator in the equatorial '
     'plane, latitude +-90 and height over the pole on the axis, and refuses the centre of the earth. Mirror images '
     'have mirrored latitudes and equal altitudes. On the ellipsoid its first round (tolerance 2) already gives the '
     'latitude of the normal, and an altitude within 150 m of zero. The default tolerance is 1e-9.',
     'all points at least 6e6 m from the centre with coordinates up to 5e7 m; rounds of the iteration up to a bound',
     TD, [RC], [('GPS.ecef2lla', RC)], observe=['ecef2lla'], kind='reals')
prop('C30', 'Coordinate conversions are pure functions of their arguments',
     'Every conversion of RangeCoordinates gives the same result whatever was converted before it, for any place that '
     'shares some but not all of its coordinates or origin included. It leaves its arguments as they were, and its '
     'results share no storage with arguments or later results.',
     'all arguments; one other call before, sharing any one number, all but one, or any whole argument',
     'Each test converts one place in a fresh state; a remembered matrix or origin shows only on the second.', [RC],
     [('GPS methods', RC), ('WGS84', RC)], over=('inputs', 'histories'), observe=['all GPS methods'], kind='reals')
