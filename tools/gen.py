"""Writes properties.jsonl and MANIFEST.json (run by hand after editing this file)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/pymap3d/"
I, H, SC, CF = "inputs", "histories", "schedules", "configurations"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[S + f for f in files],
                  mech=[dict(name=n, where=S + w) for n, w in mech], technique=technique, note=note,
                  observe=observe or ["arguments, results and exceptions of the public functions"]))


prop("C01", "Geodetic and ECEF coordinates of a point describe the same point",
     "Converting geodetic latitude, longitude and altitude to ECEF gives the Cartesian coordinates of exactly that point on the chosen ellipsoid, and converting "
     "any ECEF position outside the central region of the ellipsoid back gives a latitude in [-90, 90], a longitude in [-180, 180] and an altitude that denote the "
     "position that went in. Both hold to rounding (nanometres near the surface) for every latitude and longitude including "
     "poles, equator, antimeridian and signed zeros, for altitudes from well below the surface to hundreds of radii above, in degrees or radians, for floats and arrays alike.",
     [I, CF], "every position x every ellipsoid x degrees/radians x scalars/arrays/without NumPy",
     "The tests convert a dozen points on WGS-84 and compare with stored numbers at 1e-6 relative; poles, interior points, mixed shapes, other ellipsoids and the "
     "branches of the inverse (inside/outside, u small, equator) are sampled once or not at all.",
     ["ecef.py", "ellipsoid.py"],
     [("geodetic2ecef", "ecef.py:geodetic2ecef"), ("ecef2geodetic (You 2000), its refinement and its guarded special cases", "ecef.py:ecef2geodetic"),
      ("points inside the ellipsoid", "ecef.py:_inside_numpy/_inside_scalar")],
     "online oracle (extended-precision closed form) over generated and corner inputs, four configurations per event",
     "Every observed result is compared with an independent extended-precision evaluation; assurance is over the observed inputs only (about 4e5 per quick run). "
     "Trusts numpy.longdouble trigonometry.")

prop("C02", "ENU, NED, NWU and SEZ frames are one orthonormal frame, at every observer",
     "For every observer the local frames have the axes their names say (geodetic up; east, north, down, west, south), so that points and free vectors convert between geodetic, ECEF "
     "and each local frame by exactly that rotation and translation, and the exported rotation matrices contain exactly those axes. Converting there and back "
     "returns the input, vectors keep their length, and free-vector functions never involve the observer's position, on any ellipsoid, in either angle unit and at poles and antimeridian.",
     [I, CF], "every observer, target and vector x ellipsoid x angle unit x frame",
     "Tests check one observer and one target per frame; most signs and axis orders are visible only off that sample, and matrices/vectors only at one attitude.",
     ["enu.py", "ned.py", "nwu.py", "sez.py", "ecef.py", "frames.py"],
     [("rotation rows", "frames.py:_ecef2enu_rotation and siblings"), ("uvw2enu/enu2uvw", "ecef.py:uvw2enu"), ("geodetic2enu", "enu.py:geodetic2enu"), ("ecef2nedv", "ned.py:ecef2nedv")],
     "online oracle: frame axes written out in extended precision, per event", "Observed inputs only; every public frame function and matrix is exercised.")

prop("C03", "Azimuth, elevation and range denote the same displacement as the frames",
     "Azimuth (clockwise from north, in [0, 360)), elevation (above the horizon, in [-90, 90]) and slant range (never negative) of a target denote the same displacement as its Cartesian "
     "coordinates in the local frame of the observer, for every function that goes to or from azimuth, elevation and range through geodetic, ECEF, inertial, ENU, NED, NWU or SEZ coordinates. "
     "Results mapped back give the displacement that went in; displacements below a millimetre may be taken as zero.",
     [I, CF], "every displacement and observer x ellipsoid x angle unit",
     "One or two displacements are tested; quadrants, zenith, nadir, zero range, exact axes and wrap at 360 are not.",
     ["aer.py", "enu.py", "ned.py", "nwu.py", "sez.py"],
     [("enu2aer and its trimming", "enu.py:enu2aer"), ("aer2enu", "enu.py:aer2enu"), ("ecef2aer, geodetic2aer, aer2geodetic", "aer.py")],
     "online oracle: displacement recomposed in extended precision, range checks", "Observed inputs only.")

prop("C04", "Down-range, cross-range and above coordinates follow the heading",
     "For every heading, down-range is the horizontal component along that azimuth, cross-range the horizontal component to the left of it (90 degrees counter-clockwise) and above the local up "
     "component, in every conversion to or from ENU, NED, AER, ECEF and geodetic coordinates. The transformation preserves lengths and inverts exactly, for every observer, ellipsoid and angle unit.",
     [I, CF], "every displacement, heading and observer x ellipsoid x angle unit",
     "Tests use one heading and one position; sign and quadrant of the rotation, and use of ellipsoid/unit inside the composed conversions, go unsampled.",
     ["dca.py"], [("enu2dca/dca2enu", "dca.py:enu2dca"), ("compositions", "dca.py:geodetic2dca, ecef2dca, aer2dca and inverses")],
     "online oracle: DCA axes in extended precision", "Observed inputs only.")

prop("C05", "Body-frame conversions apply the yaw-pitch-roll rotation of the named frame",
     "Body axes are reached from north-east-down by yaw, then pitch, then roll, and every body conversion (matrices, vectors and points, from and to NED, ENU, SEZ, NWU, ECEF and geodetic coordinates) applies "
     "exactly this rotation together with the local frame it names, for every attitude including gimbal lock and several turns. Each inverse undoes its forward conversion, rotation matrices are orthonormal "
     "with determinant +1, free vectors are rotated without translation, and ellipsoid and angle unit given are honoured throughout.",
     [I, CF], "every attitude, vector, point and observer x frame x ellipsoid x angle unit",
     "Tests look at a few attitudes with single non-zero angles; wrong composition order or a transposed factor agrees with them.",
     ["body.py", "frames.py"], [("rotation products", "frames.py:_ned2body_rotation and siblings"), ("public wrappers", "body.py")],
     "online oracle: direction cosine matrix in extended precision", "Observed inputs only.")

prop("C06", "Conversions leave arguments, process state and later answers untouched",
     "No public call changes its arguments (arrays, lists, ellipsoids), keeps its results, returns one of its argument arrays or a view of it, or alters process state such as warning filters, NumPy error handling, locale, environment, "
     "time zone, random generators, decimal context or logging. The answer to a call depends on its arguments only: it is bit for bit the same whatever was called before, whatever failed before, after caches are filled or "
     "cleared, with read-only arguments, after earlier results were overwritten by the caller, and in another process.",
     [I, H, CF], "every function x argument kinds x histories of other calls, failures and cache clearing",
     "Unit tests call each function once with fresh arguments and never look at them afterwards; interference needs a history.",
     ["ecef.py", "ellipsoid.py", "karney.py", "enu.py", "vincenty.py", "lox.py", "rsphere.py"],
     [("cached ellipsoids and geodesics", "ellipsoid.py:get_cached_geodesic"), ("in-place masking on copies only", "enu.py:enu2aer, los.py:lookAtSpheroid")],
     "online monitor of arguments and 26 kinds of process state around every call; offline comparison of recorded histories across orders and processes",
     "State that none of the 26 probes sees is outside; histories are random samples.",
     ["arguments before/after each call", "process state before/after each call", "event logs of several processes"])

prop("C07", "Arrays are converted element by element, with shapes kept and scalars broadcast",
     "Every function that takes arrays returns, in each element, what the same function returns for that element's scalars, in the shape the arguments broadcast to, whatever the dimension, memory layout, "
     "dtype (integers included), writability or mixture of scalars and arrays. One element that is NaN, undefined or special (a pole, zero distance, identical points) never affects another element.",
     [I, CF], "every function x shapes, layouts, dtypes and mixtures x special elements among ordinary ones",
     "Array tests use one short vector with ordinary values; masks that act on the whole array, or mis-broadcast mixtures, need a special element beside ordinary ones.",
     ["ecef.py", "enu.py", "vincenty.py", "lox.py", "latitude.py", "los.py", "eci.py", "karney.py"],
     [("masked assignments", "ecef.py:_lat_alt_numpy"), ("where(...) selections", "vincenty.py:vdist"), ("broadcasting", "karney.py:geodesic_inverse")],
     "differential monitor: every array event against recorded scalar events of the same function",
     "Tolerances are a few ulp of each function's conditioning; functions that do not take arrays are listed in the table.")

prop("C08", "Degrees and radians ask the same question",
     "For every function with a choice of angle unit, giving the arguments in radians with degrees switched off describes the same problem as giving them in degrees, and yields the same point, vector, distance or angle, with angular results in the unit asked for. "
     "Leaving the choice out means degrees, for all functions, and the unit applies to every angle among arguments and results without exception.",
     [I, CF], "every function x inputs x angle unit",
     "Tests run the radian path of few functions, and often only forward; a forgotten unit in one inner call shows only there.",
     ["aer.py", "enu.py", "ned.py", "nwu.py", "sez.py", "dca.py", "body.py", "ecef.py", "vincenty.py", "lox.py", "latitude.py", "nvector.py", "spherical.py", "haversine.py", "rcurve.py", "rsphere.py", "los.py", "karney.py", "utils.py"],
     [("deg forwarded to every inner conversion", "aer.py, dca.py, body.py, nwu.py, sez.py")],
     "differential monitor between paired executions (degrees, radians)", "Observed inputs only; every public function with the argument is in the table.")

prop("C09", "The ellipsoid given is the ellipsoid used throughout a conversion",
     "Every function that takes an ellipsoid uses it in all of its steps: scaling the ellipsoid and all lengths by a common factor scales lengths in the result by it and leaves angles alone. "
     "Omitting it, passing None, or passing WGS-84 by name or by its axes are the same, and so are positional and keyword passing and ellipsoids with equal axes made in different ways.",
     [I, CF], "every function x inputs x ellipsoid and way of passing it",
     "Tests almost always use the default ellipsoid; an inner call that forgets the argument falls back to it silently.",
     ["aer.py", "enu.py", "ned.py", "nwu.py", "sez.py", "dca.py", "body.py", "ecef.py", "vincenty.py", "lox.py", "latitude.py", "nvector.py", "spherical.py", "rcurve.py", "rsphere.py", "los.py", "karney.py", "ellipsoid.py"],
     [("ell forwarded to every inner conversion", "aer.py, dca.py, body.py"), ("default", "ellipsoid.py:resolve_ellipsoid")],
     "metamorphic monitor: paired executions on similar ellipsoids", "Observed inputs only; scaling by powers of two makes the relation exact up to documented absolute thresholds.")

prop("C10", "The same answers with NumPy, without NumPy and without Astropy",
     "Every conversion available without NumPy gives the same answers there as with it, and everything outside sky and inertial coordinates, sidereal time and its wrappers is independent of whether Astropy is installed. "
     "Where Astropy is used when present, its absence or the explicit choice of the built-in model gives one and the same built-in result.",
     [I, CF], "every function x inputs x installation (standard library, NumPy, NumPy+Astropy)",
     "The suite runs in one installation at a time and compares only with stored values; there are two implementations of many steps.",
     ["mathfun.py", "__init__.py", "_dummy.py", "ecef.py", "vincenty.py", "eci.py", "frames.py", "azelradec.py", "sidereal.py"],
     [("math fallback", "mathfun.py"), ("scalar and array branches", "ecef.py:ecef2geodetic"), ("force_non_astropy", "eci.py, azelradec.py, sidereal.py")],
     "differential monitor between processes running different installations", "The installation without NumPy is a real interpreter without it (/opt/venv-stdlib).")

prop("C11", "Auxiliary latitudes follow their definitions, both ways",
     "Geocentric, parametric, conformal, isometric, rectifying and authalic latitude of every geodetic latitude have the values their definitions (position angle, reduced angle, conformality, meridian distance, "
     "area) give on the chosen ellipsoid, and the inverse conversions return the geodetic latitude whose auxiliary latitude was given. This holds from pole to pole including both poles, equator and signed zeros, is odd and monotonic, and also for spheres and "
     "ellipsoids up to a flattening of a tenth within the truncation error of the package's series.",
     [I, CF], "every latitude x kind x direction x ellipsoid x altitude (geocentric) x angle unit",
     "Tests store three latitudes on WGS-84; coefficients of the higher series terms and handling at poles cannot be seen at their tolerance.",
     ["latitude.py"], [("series and closed forms", "latitude.py"), ("pole handling", "latitude.py:COS_EPS/ geodetic2isometric")],
     "online oracle: definitions by closed form or Gauss quadrature in extended precision", "Series truncation is bounded with explicit powers of the third flattening.")

prop("C12", "Radii of curvature and auxiliary spheres have their defining values",
     "Radii of the parallel, of the meridian, of the prime vertical and of the geocentric position have their textbook values at every latitude on every ellipsoid. Spheres of equal volume, surface, meridian length, Euler's formula, "
     "curvature, triaxial and biaxial mean have the radius defined by that property for the ellipsoid, latitudes and azimuth given.",
     [I, CF], "every latitude x ellipsoid x method x angle unit",
     "A few stored numbers on the default ellipsoid; dependence on ellipsoid, method and azimuth is not tested.",
     ["rcurve.py", "rsphere.py"], [("rcurve", "rcurve.py"), ("rsphere", "rsphere.py")],
     "online oracle: textbook expressions and quadrature in extended precision", "Observed inputs only.")

prop("C13", "Vincenty distance, reckoning and tracks follow the geodesic of the ellipsoid",
     "Distance and azimuth between two points, and the point reached from a start, azimuth and distance, are those of the ellipsoidal geodesic (to a millimetre on the Earth, apart from nearly antipodal pairs, where the "
     "result must stay finite and consistent), with azimuths in [0, 360) and zero distance for identical points. Reckoning along the result of the inverse returns to the second point, and track points lie on the geodesic, evenly spaced, and include both end points.",
     [I, CF], "every pair of points, azimuth and distance x ellipsoid x angle unit x scalars/arrays",
     "Tests check about ten pairs; azimuth quadrants, meridians, equator, poles, antimeridian and coincident points in arrays are special cases of the iteration.",
     ["vincenty.py"], [("inverse iteration", "vincenty.py:vdist"), ("direct iteration", "vincenty.py:vreckon"), ("tracks", "vincenty.py:track2")],
     "online oracle: PROJ geodesics (Karney), independent of the package", "Trusts pyproj.Geod; nearly antipodal pairs are judged for consistency only.")

prop("C14", "Karney geodesics are exact everywhere, antipodes included",
     "Inverse, direct and line problems solved by the Karney functions agree with the true ellipsoidal geodesic to nanometre-scale accuracy for every pair of points, including coincident, nearly and exactly antipodal, equatorial, polar and meridional ones, and for "
     "every azimuth and distance up to several circumferences. Direct inverts inverse, and line points are evenly spaced along the shortest path from the first to the second point.",
     [I, CF], "every pair, azimuth, distance and number of points x ellipsoid x angle unit",
     "Tests check some twenty pairs against pyproj at coarse tolerance; the special branches for antipodes, meridians and equator each need their own inputs.",
     ["karney.py"], [("inverse with Newton/bisection", "karney.py:_Geodesic._Inverse"), ("series", "karney.py:_A1m1f, _C1f, _C2f"), ("antipodal start", "karney.py:_Astroid")],
     "online oracle: PROJ geodesics", "Trusts pyproj.Geod (GeographicLib C).")

prop("C15", "Perimeter and orientation of geodesic polygons, and the area that is returned",
     "The perimeter returned for a polygon is the sum of the geodesic lengths of its edges including the closing one, and does not depend on which vertex comes first or on the container (list, tuple, array) or orientation. "
     "The area changes sign with the orientation and is otherwise unaffected by the starting vertex, by adding whole turns to longitudes, or by the antimeridian.",
     [I, CF], "every polygon x starting vertex, orientation, container x ellipsoid x angle unit",
     "One or two polygons on WGS-84 are tested.",
     ["karney.py"], [("geodesic_area", "karney.py:geodesic_area")],
     "online oracle: PROJ polygon perimeter, metamorphic relations; recorded known finding for the area value",
     "The area itself is a known finding (the package returns the folded sum of azimuth turns); deviations from that recorded behaviour are violations.")

prop("C16", "Rhumb lines, meridian arcs, departures and means follow their definitions",
     "Rhumb-line distance, azimuth and destination are those of the loxodrome on the ellipsoid, meridian arcs and departures those of the ellipse and its parallels, and direct and inverse undo each other, crossing the shorter way over the "
     "antimeridian. Results are continuous through east-west courses, azimuths lie in [0, 360), and the geographic mean is the direction of the summed unit position vectors.",
     [I, CF], "every pair, azimuth and distance x ellipsoid x angle unit",
     "Tests check a few pairs at low tolerance; nearly east-west courses and dateline crossings amplify errors only there.",
     ["lox.py", "latitude.py"], [("inverse", "lox.py:loxodrome_inverse"), ("direct and its east-west special case", "lox.py:loxodrome_direct"), ("meanm", "lox.py:meanm")],
     "online oracle: meridian arc by quadrature, Mercator differential in extended precision", "Start exactly at a pole is not judged.")

prop("C17", "n-vectors denote the positions and spherical constructions they name",
     "n-vectors of geodetic and ECEF positions are the unit normals of the ellipsoid there and convert back to the same position. Distance, interpolation, mean, cross-track distance and intersection of n-vectors are those of great circles on the sphere, with the documented sign, "
     "unit length of results, end points reproduced at fractions 0 and 1, symmetry in the arguments, and full accuracy for close and nearly antipodal points.",
     [I, CF], "every position, pair and quadruple of directions, fraction and radius x ellipsoid x angle unit",
     "Tests evaluate one equatorial or meridional example each.",
     ["nvector.py"], [("conversions", "nvector.py:nvector2geodetic, ecef2nvector"), ("sphere", "nvector.py:nvector_interpolate, nvector_cross_track_distance, nvector_intersection")],
     "online oracle: vector algebra in extended precision", "Antipodal interpolation, zero means and coincident great circles are undefined and not judged.")

prop("C18", "Geodetic and geocentric spherical coordinates denote the same point",
     "Geodetic latitude, longitude and altitude and spherical (geocentric) latitude, longitude and radius produced from each other denote the same point in space on every ellipsoid. This holds at poles, on the equator, at the antimeridian, inside the surface and far away, in both "
     "angle units, for scalars and arrays.",
     [I, CF], "every position x ellipsoid x angle unit", "Eight stored points on one ellipsoid.",
     ["spherical.py"], [("geodetic2spherical, spherical2geodetic", "spherical.py")],
     "online oracle: ECEF positions in extended precision", "Observed inputs only.")

prop("C19", "Inertial and Earth-fixed positions differ by the Earth's rotation at that time",
     "Converting between inertial and Earth-fixed coordinates applies a pure rotation that agrees with precession, nutation, sidereal time and polar motion at that instant, with UT1-UTC and pole offsets honoured by every function that accepts them, and the two directions are inverse to each other. "
     "Times given naive or aware in any zone denote the same instants, and functions composed with geodetic or azimuth-elevation-range coordinates use the same rotation.",
     [I, CF], "every position and time x Earth orientation parameters x installation",
     "Tests use two instants and one position each and coarse tolerances.",
     ["eci.py", "earth_orientation.py", "aer.py", "ecef.py"],
     [("rotation matrix", "earth_orientation.py:eci_to_ecef_matrix"), ("leap seconds", "earth_orientation.py:leap_seconds"), ("wrappers", "ecef.py:eci2geodetic, aer.py:eci2aer")],
     "online oracle: SOFA (erfa) rotation matrices", "Built-in model: 0.13 arcsec against IAU 1976/1980; Astropy path against GCRS-ITRS with IERS-A off.")

prop("C20", "Inertial and Earth-fixed velocities are the time derivatives of the positions",
     "Converting states between inertial and Earth-fixed frames rotates position as the position conversion does and transforms velocity so that it is the time derivative of the converted position, including the Earth-rotation term with the right sign. "
     "Forward and inverse undo each other, for every time, for single states and arrays, and with or without Astropy.",
     [I, CF], "every state and time x Earth orientation parameters x installation",
     "One state at one time is tested.",
     ["eci.py", "earth_orientation.py"], [("rate matrix", "earth_orientation.py:eci_to_ecef_matrix_rate"), ("state transform", "eci.py:_apply_state_rotation")],
     "online oracle: SOFA rotation and its derivative", "Observed states only.")

prop("C21", "Calendar times, Julian dates and sidereal time follow astronomical convention",
     "The Julian date of every calendar time is the proleptic-Gregorian one, sidereal time at a longitude is Greenwich sidereal time of the same instant plus that longitude, and both treat naive times as UTC and convert aware times from their zone. "
     "Text, datetime64 and lists or arrays of times convert to the same instants element by element.",
     [I, CF], "every calendar time, zone, spelling, container and longitude x installation",
     "Tests use one or two dates; leap years, century rules, month ends, zones and negative longitudes are unsampled.",
     ["sidereal.py", "timeconv.py", "earth_orientation.py"], [("juliandate", "sidereal.py:juliandate"), ("greenwichsrt", "sidereal.py:greenwichsrt"), ("str2dt", "timeconv.py:str2dt")],
     "online oracle: exact rational calendar arithmetic, published polynomials, SOFA", "Julian dates are judged to the 40 microsecond quantum of a float.")

prop("C22", "Horizontal and equatorial sky coordinates denote the same direction",
     "Azimuth/elevation and right ascension/declination converted into each other at an observer and time denote the same direction in the sky, the two conversions undo each other, and right ascension and azimuth are in [0, 360). "
     "Angular separation of two directions is the true angle between them, at every scale from minute to antipodal, symmetric, and independent of whole turns; the haversine is (1-cos)/2.",
     [I, CF], "every direction, observer and time, every pair of directions x installation x angle unit",
     "One direction at one time is tested.",
     ["azelradec.py", "vallado.py", "haversine.py"], [("spherical triangle", "vallado.py:azel2radec"), ("separation", "haversine.py:anglesep")],
     "online oracle: SOFA sidereal time and apparent places, vectors in extended precision", "anglesep_meeus is judged with its own documented loss near 180 degrees.")

prop("C23", "Line of sight meets the ellipsoid where it is first reached, or not at all",
     "Looking from a point at or above the ellipsoid along an azimuth and tilt from nadir, the returned point lies on that ray and on the surface, is the first intersection, and the slant range is its distance. Where the line of sight misses the ellipsoid all results are NaN, and elements of an array do "
     "not affect each other. A negative observer altitude is refused.",
     [I, CF], "every observer, azimuth and tilt x ellipsoid x angle unit",
     "Tests use one observer and two tilts on the default ellipsoid.",
     ["los.py"], [("ray-ellipsoid intersection", "los.py:lookAtSpheroid")],
     "online oracle: ray-ellipsoid intersection in extended precision", "Directions within rounding of the horizon are not judged.")

prop("C24", "Named ellipsoids, derived quantities and caches are right after any history",
     "Every ellipsoid name gives the published axes (name in any spelling the catalogue allows), with flattening, third flattening and eccentricity consistent with the axes, and equal ellipsoids are interchangeable. "
     "Whatever ellipsoids were used before, and however caches were filled or cleared, geodesics are computed on the ellipsoid given and never on another that shares one of its numbers.",
     [I, H], "every name; every pair of axes; histories of ellipsoids and cache clearing",
     "Tests look at each name through one conversion and never use two similar ellipsoids after each other.",
     ["ellipsoid.py", "karney.py"], [("catalogue", "ellipsoid.py:Ellipsoid.from_name"), ("cache keys", "ellipsoid.py:ellipsoid_cache_key, get_cached_geodesic")],
     "online monitor with an independent catalogue; random cache histories judged by PROJ at every step", "The catalogue's reference values were compiled independently of the code; one known finding (Io in kilometres).")

prop("C25", "Calls from several threads give what the same calls give alone",
     "Any public functions called concurrently from several threads, with equal or different ellipsoids, angle units and array shapes, with caches being filled and cleared meanwhile, return exactly what the same calls return alone, and never raise because of each other. "
     "They leave process-wide state such as warning filters and NumPy error handling as it was.",
     [SC, I, CF], "every interleaving of concurrent calls, first uses and cache clearing",
     "The tests are single-threaded.",
     ["ellipsoid.py", "karney.py", "ecef.py", "eci.py"], [("caches", "ellipsoid.py"), ("no shared mutable state", "karney.py:_get_geodesic")],
     "schedule-perturbing stress: seeded yields between lines (sys.monitoring), bit-exact comparison with serial runs",
     "Interleavings at line granularity under the GIL; distinct orders of control transfer are counted in the evidence.",
     ["results per thread", "order of control transfers", "process state"])

prop("C26", "The command line prints what the library returns",
     "Each command of the command-line program reads its arguments (numbers, comma-separated lists, times, ellipsoid, degrees or radians and other options) as the library function's arguments and prints that function's result, as text or JSON and with the number of digits asked for. "
     "Mistakes end with a non-zero status, a message on standard error, and nothing on standard output.",
     [I, CF], "every command x options x spellings of arguments x output form x installation",
     "There is no test of the command line beyond one or two smoke calls.",
     ["__main__.py"], [("registration of commands", "__main__.py:_register_commands"), ("values", "__main__.py:_coerce_value"), ("output", "__main__.py:_emit_result")],
     "online comparison of the program's standard output, in process and as a real process, with the library's result", "Text of nested results is not judged; its JSON is.")

prop("C27", "Bad input is refused or stays visible, and every call ends",
     "NaN in an argument gives NaN in every result that depends on it and never a plausible number, alone or in one element of an array. Arguments outside their documented domain (latitudes beyond the poles, negative distances, unknown options, too few points, antipodal track ends) raise ValueError whether alone or anywhere in an array, while the limits of "
     "the domain are accepted. Every call with floats of any size, infinite ones included, ends with a result of the usual form or with a ValueError or ArithmeticError.",
     [I, CF], "every function x argument position x special value x scalars/arrays/without NumPy",
     "Tests check one out-of-range value for a few functions, alone, with NumPy.",
     ["vincenty.py", "lox.py", "los.py", "latitude.py", "karney.py", "vallado.py", "body.py", "rsphere.py", "timeconv.py"],
     [("range checks", "vincenty.py:vdist, vreckon"), ("NaN masks", "los.py:lookAtSpheroid"), ("iteration limits", "vincenty.py:vdist, karney.py:_Inverse")],
     "online monitor of outcome kinds under injected NaN, infinite and out-of-domain values with a per-call watchdog", "A call is taken as not ending after 45 s.")

prop("C28", "Cartesian, polar and spherical helpers denote the same point",
     "Cartesian coordinates and their polar (two-dimensional) or spherical (azimuth, elevation, radius) coordinates convert into each other as defined, over the whole plane and space including axes, origin and signed zeros. "
     "Radii are never negative, elevations lie in [-pi/2, pi/2], azimuths in [-pi, pi], and conversions there and back return the point at every magnitude without loss.",
     [I, CF], "every point of plane and space x scalars/arrays/without NumPy", "One point per function is tested, if at all.",
     ["utils.py"], [("cart2pol, pol2cart, cart2sph, sph2cart", "utils.py")],
     "online oracle: definitions in extended precision", "Observed inputs only.")

prop("C29", "The built-in Earth-orientation model is made of the published models it names",
     "Precession (IAU 1976), mean obliquity, Greenwich mean sidereal time (IAU 1982), Earth rotation angle (IAU 2000), polar motion and the leap-second table of the built-in model have the values of those standards at every epoch, "
     "in whatever zone the time is given and on both sides of each leap second. The short nutation series stays within half an arc second of the IAU 1980 one and its terms are that series' leading terms; the combined matrix is a proper rotation "
     "made of these parts in their order, and its rate is its time derivative.",
     [I], "every epoch (centuries, Julian dates, times in any zone) x pole offsets",
     "Tests compare one or two epochs at arc-second level; wrong smaller coefficients, leap-second dates and zones show only elsewhere in time.",
     ["earth_orientation.py"], [("models", "earth_orientation.py:precession_matrix, nutation_short, greenwich_mean_sidereal_time, polar_motion_matrix"), ("leap seconds", "earth_orientation.py:leap_seconds")],
     "online oracle: SOFA (erfa) routines of the same standards, and a regression of the nutation residual on its own terms",
     "Trusts the SOFA library; nutation is judged by bounds and by its leading terms.")

prop("C30", "Every route through the coordinate systems leads to the same point",
     "However many conversions are chained, in whatever order, between geodetic, Earth-fixed, geocentric, n-vector, local (ENU, NED, NWU, SEZ), azimuth-elevation-range, down-range/cross-range, body and inertial coordinates, "
     "with observer, attitude, heading, ellipsoid and time held fixed and each result handed on as it comes, the coordinates denote the same position after every step (the same vector for free vectors) and keep the shape of the first ones. "
     "Two routes with the same ends therefore agree, whichever angle unit each step was done in.",
     [I, H, CF], "every route through the graph of conversions x points x observers x ellipsoids x times x angle units x scalars/arrays/without NumPy",
     "Tests convert there and back between neighbours with fixed numbers; they follow no longer route, and never hand the results of one function to another in another unit or installation.",
     ["ecef.py", "enu.py", "ned.py", "nwu.py", "sez.py", "aer.py", "dca.py", "body.py", "spherical.py", "nvector.py", "eci.py"],
     [("direct conversions written on their own besides those through ECEF and ENU", "aer.py, dca.py, body.py, ned.py, nwu.py, sez.py")],
     "random walks over the graph of conversions with an online monitor of the position denoted after every step", "Observed routes only; the published error of the closed-form inverse is allowed at each step that uses it.")

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks = [{"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough", "technique": "runtime monitoring: " + p["technique"],
               "level": "exploration", "level_note": p["note"], "evidence_file": f"evidence/{p['id']}.json"} for p in P]
    m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": NOT_APPLICABLE,
         "notes": "No hooks in /repo: the monitors wrap the public functions from outside when the package is imported."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
