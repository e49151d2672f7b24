"""Writes properties.jsonl (kept as a script so that the list is reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/openspace/" + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Calendar dates map to one continuous, linear day count",
     "Every Gregorian date and time maps to its modified Julian date: consecutive days are exactly one apart across month ends, leap days, century and 400-year rules and year ends, and hours, minutes and seconds add their exact fraction of a day. Julian dates, centuries past J2000, day shifts and the hour/minute/second and degree/minute/second conversions agree with that same linear scale.",
     ["inputs"], "all Gregorian dates 1583-2600 with any time of day; any epoch and any signed shift",
     "The tests convert two or three dates; leap rules, January/February handling and fractions of a day are universally quantified over the calendar.",
     ["time.py", "math/functions.py", "math/constants.py"],
     [("Epoch.from_gregorian", "time.py"), ("Epoch.plus_days / julian_value / julian_centuries_past_j2000", "time.py"), ("Conversions", "math/functions.py")],
     observe=["Epoch.value", "Epoch.julian_value()", "Conversions.*"])
prop("C02", "The Greenwich angle turns uniformly and continuously",
     "For every epoch the Greenwich angle is the mean sidereal angle of that instant, returned in [0, 2 pi); it advances at the sidereal rate over any interval, without a jump at UTC midnight, with the fixed offset between dynamic time and UTC applied.",
     ["inputs"], "every epoch from 1941 to 2105 and every interval of up to two days",
     "One test samples one epoch; the split into whole days and day fraction is only stressed around midnights in both time scales.",
     ["time.py"], [("Epoch.greenwich_hour_angle", "time.py")], observe=["Epoch.greenwich_hour_angle()"])
prop("C03", "Inertial and Earth-fixed frames convert consistently both ways",
     "At every epoch a position converts from the inertial frame through mean-of-date and true-of-date axes to the Earth-fixed frame with the published precession, nutation and apparent sidereal rotation, and to the rotating-free mean equatorial frame; converting back returns the original position to the model's truncation, and lengths and angles between positions are preserved.",
     ["inputs"], "every epoch 1941-2105 and every position from the Earth's surface to beyond the Moon",
     "The tests check one epoch; errors in secular terms, signs or transposes only show at other epochs or in the inverse direction.",
     ["bodies/celestial.py", "coordinates/positions.py"],
     [("Earth.precession/nutation/rotation/obliquity_of_ecliptic_at_epoch", "bodies/celestial.py"), ("PositionConvert.gcrf/itrf", "coordinates/positions.py")],
     observe=["PositionConvert.gcrf.*", "PositionConvert.itrf.*", "Earth.*"])
prop("C04", "Spherical, geodetic and topocentric coordinates invert exactly",
     "Converting any position to spherical coordinates (right ascension in [0, 2 pi), declination in [-pi/2, pi/2]) or to geodetic latitude, longitude and altitude on the reference ellipsoid and back returns the same position, in every octant, on the axes and at the poles. East-north-zenith axes are orthonormal, right handed and aligned with the geodetic coordinate lines at every site, and local coordinates of an object convert back to the same object.",
     ["inputs"], "all positions in all octants including axes and poles; geodetic altitudes from -5 km to 50000 km; all sites",
     "Tests use a couple of sites in one hemisphere; quadrant, pole, equator and hemisphere handling needs the whole sphere.",
     ["coordinates/positions.py", "bodies/terrestrial.py"],
     [("SphericalPosition", "coordinates/positions.py"), ("LLA <-> ITRF", "coordinates/positions.py"), ("ENZ.matrix", "coordinates/positions.py"), ("GroundSite.enz_position", "bodies/terrestrial.py")],
     observe=["SphericalPosition.*", "PositionConvert.lla/itrf/enz", "GroundSite"])
prop("C05", "Classical elements and Cartesian states describe the same orbit",
     "For every elliptical orbit the Cartesian state computed from classical elements is the two-body state of that orbit at that mean anomaly, and the elements computed from a Cartesian state are the elements of that orbit with every angle in its principal range. Converting either way and back reproduces the input, also for near-circular, equatorial, polar and retrograde orbits (there at the level of the Cartesian state).",
     ["inputs"], "all elliptical orbits: eccentricity 0 to 0.95, inclination 0 to 180 degrees, all node, perigee and anomaly quadrants",
     "The tests convert one or two orbits; quadrant resolution and degenerate orbits need the whole element space.",
     ["coordinates/elements.py", "math/functions.py"],
     [("ClassicalElements.from_ijk / to_ijk", "coordinates/elements.py"), ("EquationsOfMotion", "math/functions.py")],
     observe=["ClassicalElements.*"])
prop("C06", "Kepler's equation is solved for every anomaly and eccentricity",
     "For every mean anomaly and eccentricity the eccentric anomaly returned satisfies Kepler's equation, and the solver terminates; mean, eccentric and true anomaly convert consistently and are returned in [0, 2 pi).",
     ["inputs"], "mean anomaly in [-2 pi, 2 pi], eccentricity in [0, 0.99]",
     "Convergence of an unbounded iteration over the (M, e) plane cannot be sampled by a couple of tests.",
     ["math/functions.py"], [("EccentricAnomaly, TrueAnomaly, MeanAnomaly", "math/functions.py")], observe=["EquationsOfMotion.EA/NU/MA"])
prop("C07", "Orbital relations agree with each other and with two-body dynamics",
     "All published relations between semi-major axis, semi-minor axis, semi-parameter, eccentricity, flattening, period, mean motion, energy, areal velocity, radius, speed and orientation angles agree with one and the same ellipse for every orbit. The vis-viva speeds and the Hohmann transfer are those relations applied: burns are signed speed changes between the circular orbits and the connecting ellipse, for raising and lowering.",
     ["inputs"], "all ellipses and all radius pairs in either order",
     "Each formula is tested at one operating point; agreement between the formulas over all ellipses is not.",
     ["math/functions.py", "planning/maneuvers.py", "bodies/celestial.py"],
     [("EquationsOfMotion.*", "math/functions.py"), ("VisViva, Hohmann", "planning/maneuvers.py"), ("Earth.geo_radius", "bodies/celestial.py")],
     observe=["EquationsOfMotion.*", "VisViva.*", "Hohmann.*"])
prop("C08", "Vectors and matrices obey linear algebra",
     "Every vector and matrix operation equals its mathematical definition entry by entry for all inputs, for each of the 3x3, 3x6, 6x3 and 6x6 shapes: sums, products, transposes, columns, diagonals, determinant, adjugate and inverse, cross and dot products, angles (also for parallel and opposite vectors), and right-handed rotations about any axis.",
     ["inputs"], "all real vectors and matrices, generic (asymmetric, all entries distinct) and degenerate",
     "A wrong index in one entry of a 6x6 product survives tests with symmetric, diagonal or sparse matrices, which is all that the package's own use exercises.",
     ["math/linalg.py"], [("Vector3D, Vector6D, Matrix3D, Matrix3by6, Matrix6by3, Matrix6D", "math/linalg.py")], observe=["all operations of these classes"])
prop("C09", "Objects are values: operations never change their inputs or each other",
     "No operation except the documented mutators changes any object but the one it is called on: constructors and copies share nothing mutable with their arguments, pure queries and conversions leave every argument unchanged, and class-wide defaults are never altered by using instances. A copy equals its original and afterwards evolves independently.",
     ["histories"], "every sequence of constructing, copying, querying, mutating, propagating and filtering over a pool of live objects",
     "Aliasing only shows when two handles live on and one is mutated later; the tests use each object once.",
     ["math/linalg.py", "time.py", "coordinates/states.py", "coordinates/elements.py", "coordinates/positions.py", "propagators/inertial.py", "propagators/relative.py", "estimation/obs.py", "estimation/filtering.py", "bodies/artificial.py"],
     [("defensive copy() in constructors", "all classes"), ("functional style of vector operations", "math/linalg.py")],
     state=[("handle pool", "value of every live object", "harness")], observe=["public attributes of all live objects"])
prop("C10", "Sun and Moon are where the published series put them",
     "At every epoch the Sun and Moon positions equal the low-precision analytical series they are documented to implement, in equatorial coordinates, and directions from a spacecraft to them are relative to that spacecraft's position at its own epoch.",
     ["inputs"], "every epoch from 1941 to 2105",
     "The tests compare one epoch with a tolerance of thousands of kilometres; single periodic terms only show at other phases.",
     ["bodies/celestial.py", "coordinates/states.py"], [("Sun.get_position, Moon.get_position", "bodies/celestial.py"), ("GCRF.sun_vector/moon_vector", "coordinates/states.py")],
     observe=["Sun.get_position", "Moon.get_position", "GCRF.sun_vector()", "GCRF.moon_vector()"])
prop("C11", "Net acceleration is the sum of the modelled forces",
     "For every inertial state the derivative is its velocity and the sum of thrust, central gravity and - exactly when perturbations are enabled - Sun, Moon, radiation pressure and non-spherical gravity, each equal to its physical law at that state's epoch. The perturbation setting and the radiation-pressure coefficient of a spacecraft stay in effect through copies, steps and maneuvers.",
     ["inputs", "histories"], "all bound positions from 100 km altitude to beyond geostationary, all epochs, thrust vectors, coefficients and both settings; all sequences of copies, steps and maneuvers",
     "Tests look at end positions of one propagation, where a wrong small force is invisible.",
     ["coordinates/states.py", "propagators/inertial.py", "bodies/artificial.py"],
     [("GCRF.derivative and acceleration_from_*", "coordinates/states.py"), ("RK4.step keeps settings", "propagators/inertial.py")],
     observe=["GCRF.derivative()", "GCRF.acceleration_from_*()"])
prop("C12", "Non-spherical gravity is the gradient of the geopotential",
     "At every position the non-spherical acceleration is the gradient of the degree-and-order-four potential with the published coefficients, evaluated in the Earth-fixed frame of the state's epoch and returned in inertial axes.",
     ["inputs"], "all latitudes, longitudes, epochs and radii outside the Earth (poles excluded)",
     "One test state exercises one latitude and longitude; tesseral terms, signs and the radial, latitude and longitude partials need the whole sphere.",
     ["coordinates/states.py", "math/functions.py", "bodies/celestial.py"],
     [("GCRF.acceleration_from_gravity", "coordinates/states.py"), ("LegendrePolynomial", "math/functions.py"), ("Earth.C, Earth.S", "bodies/celestial.py")],
     observe=["GCRF.acceleration_from_gravity()"])
prop("C13", "One propagation step is the classical Runge-Kutta step",
     "One step of any signed size advances epoch, position and velocity exactly as the fourth-order Runge-Kutta formula applied to the equations of motion at the four stage epochs, with thrust following the decreasing mass when the engine burns and no thrust otherwise.",
     ["inputs"], "all states, epochs, signed step sizes, perturbations on and off, engine on and off",
     "End-point tests with loose tolerances accept any consistent integrator and wrong stage epochs.",
     ["propagators/inertial.py"], [("RK4.step", "propagators/inertial.py"), ("RK4.thrust_vector", "propagators/inertial.py")],
     observe=["RK4.state"])
prop("C14", "Propagating to an epoch lands there in bounded steps, in any history",
     "Propagating to any epoch - later, earlier or the current one - ends at that epoch having used equal steps no longer than 300 s, leaves the configured step size as it was, and does nothing when already there. Splitting a propagation or going back returns to the same trajectory within integration error.",
     ["histories", "inputs"], "all sequences of steps and propagations with arbitrary signed durations and configured step sizes",
     "Tests propagate forward once; backward, zero-length, repeated and interleaved propagations are histories.",
     ["propagators/inertial.py", "bodies/artificial.py"], [("RK4.step_to_epoch", "propagators/inertial.py")],
     state=[("RK4.step_size", "configured step", "propagators/inertial.py"), ("RK4.state.epoch", "clock", "propagators/inertial.py")],
     observe=["RK4.state", "RK4.step_size"])
prop("C15", "Relative-motion coordinates convert both ways without loss",
     "The Hill-frame coordinates of one spacecraft relative to another are the radial separation and the in-track and cross-track arcs with their rates, for any origin orbit; converting to them and back returns the original inertial state at the origin's epoch. An object at the origin has zero coordinates and the frame is orthonormal and right handed.",
     ["inputs"], "all origin orbits and all relative states up to large in-track separations (not 90 degrees out of plane)",
     "One test pair covers one geometry; quadrants, eccentric origins and rates need all of them.",
     ["coordinates/states.py", "bodies/artificial.py"], [("StateConvert.gcrf.to_hcw, StateConvert.hcw.to_gcrf, HCW.frame_matrix", "coordinates/states.py")],
     observe=["StateConvert.*", "Spacecraft.hill_position"])
prop("C16", "Relative propagation is the exact Hill flow",
     "Propagating a relative state by any signed time gives the exact solution of the Hill equations for the given semi-major axis; propagations compose and invert, and position, velocity and state vector stay consistent with each other after any number of steps.",
     ["inputs", "histories"], "all relative states, semi-major axes, signed durations and sequences of propagations",
     "A test at one time cannot see a wrong entry multiplying a zero component, or drift between stored forms of the state.",
     ["propagators/relative.py", "coordinates/states.py"], [("Hill.system_matrix, step, step_by_seconds", "propagators/relative.py"), ("HCW.from_state_vector", "coordinates/states.py")],
     observe=["Hill.state", "Hill.system_matrix"])
prop("C17", "The relative filter is the Kalman filter",
     "After every processed observation, at any spacing in time, the filter's estimate and covariance are those of the Kalman filter for Hill dynamics with the configured process noise and an observation covariance formed from the observation's range and angular errors; the covariance stays symmetric and positive, an observation never increases the position variances it measures, and time bookkeeping follows the observation epochs.",
     ["histories", "inputs"], "all sequences of observations with arbitrary geometry, errors and spacing",
     "Tests check convergence of one scenario; a wrong gain or covariance still converges.",
     ["estimation/filtering.py", "math/linalg.py"], [("RelativeKalman.process/predict/update", "estimation/filtering.py")],
     state=[("x00, p00, epoch", "posterior and its time", "estimation/filtering.py")], observe=["RelativeKalman.x00", "RelativeKalman.p00", "RelativeKalman.propagator.state"])
prop("C18", "An impulsive maneuver changes only the velocity",
     "An impulsive maneuver adds the burn, given in radial, in-track, cross-track axes of the current orbit, to the velocity; epoch, position, masses, step size, perturbation setting, steering mode and every other spacecraft are unchanged (a tracked target is only brought to its tracker's epoch). Opposite in-plane burns cancel.",
     ["inputs", "histories"], "all states, burns and histories of maneuvers and propagation",
     "No test applies more than one burn or inspects what must stay unchanged.",
     ["bodies/artificial.py", "coordinates/states.py"], [("Spacecraft.impulsive_maneuver", "bodies/artificial.py")], observe=["Spacecraft state, masses, propagator settings"])
prop("C19", "A finite burn delivers its velocity change and uses its propellant",
     "A finite burn lasts the time the rocket equation gives for the requested velocity change, thrusts along the requested radial, in-track, cross-track direction as it was at ignition with acceleration growing as mass falls, ends at ignition time plus that duration, and consumes exactly mass flow times duration of propellant; afterwards the engine is off. This holds for burns shorter and longer than one integration step, and for successive burns with the mass left by earlier ones.",
     ["inputs", "histories"], "all directions, sizes, engine and mass settings within the propellant budget, all sequences of burns",
     "Tests run one short burn; multi-step burns and repeated burns are histories.",
     ["bodies/artificial.py", "propagators/inertial.py"], [("Spacecraft.finite_maneuver", "bodies/artificial.py"), ("RK4.maneuver, thrust_vector", "propagators/inertial.py")],
     state=[("propellant_mass", "propellant left", "bodies/artificial.py")], observe=["Spacecraft state, propellant_mass, total_mass()"])
prop("C20", "Attitude and tracked target always follow the steering mode",
     "After every operation on a spacecraft its boresight points to the Earth, along the anti-Sun direction or to the tracked target according to the mode last commanded, its body axes are orthogonal and right handed, and in target mode the target has been brought to the tracking spacecraft's epoch. Retargeting takes effect immediately and spacecraft not involved are not moved.",
     ["histories"], "all interleavings of steering commands, propagation and maneuvers over several spacecraft, including chains and mutual tracking",
     "Mode-dependent state over interleaved operations of several spacecraft is a history property; tests set one mode once.",
     ["bodies/artificial.py"], [("Spacecraft.update_attitude, track_*", "bodies/artificial.py")],
     state=[("steering", "mode", "bodies/artificial.py"), ("tracked_target", "who is followed", "bodies/artificial.py"), ("body_x/y/z", "axes", "bodies/artificial.py")],
     observe=["Spacecraft.body_x/y/z", "Spacecraft.steering", "target.current_epoch()"])
prop("C21", "A slew starts on every change of pointing and lasts as its angle demands",
     "Commanding a different steering mode or target starts a slew that stops after the angle between old and new boresight times the slew rate scale; repeating the current command does not restart it. The slewing indication holds until the first update later than the stop time and then clears, and does not return without a new command.",
     ["histories"], "all sequences of commands, repeated commands, propagations and maneuvers",
     "Depends on the order of commands and clock updates; no test covers it.",
     ["bodies/artificial.py"], [("track_lvlh/track_sun/track_state, update_attitude", "bodies/artificial.py")],
     state=[("slewing, slew_stop", "slew timeline", "bodies/artificial.py")], observe=["Spacecraft.slewing", "Spacecraft.slew_stop"])
prop("C22", "A target is detected exactly when every optical limit is met",
     "Detection reports true exactly when the target is outside the Sun, Earth and Moon exclusion angles, no fainter than the limiting magnitude and inside the field of view around the current boresight of the wide camera; each limit can be configured and each alone suffices to prevent detection.",
     ["inputs", "configurations"], "all observer/target/Sun/Moon geometries, steering modes and limit settings",
     "Five conditions over continuous geometry; the tests exercise one or two combinations.",
     ["bodies/artificial.py", "hardware/constraints.py", "hardware/payloads.py"], [("Spacecraft.detect", "bodies/artificial.py"), ("OpticalConstraints", "hardware/constraints.py")],
     observe=["Spacecraft.detect", "sun_angle/moon_angle/earth_angle"])
prop("C23", "Brightness, range and camera figures follow the optical model",
     "The visual magnitude of a target is that of a diffuse sphere with the target's radius and albedo at its range and phase angle: fainter with distance and phase, brighter with size and reflectivity. Range, bearing angles, camera resolution, range uncertainty, tracking distance and characterisation distance follow the geometry of field of view and pixels for any camera.",
     ["inputs", "configurations"], "all geometries, target sizes and albedos, and camera parameters",
     "Tests use identical default spacecraft, so whose size or albedo is used is invisible.",
     ["bodies/artificial.py", "hardware/payloads.py", "hardware/constraints.py"], [("Spacecraft.visual_magnitude", "bodies/artificial.py"), ("Camera", "hardware/payloads.py")],
     observe=["Spacecraft.visual_magnitude", "Camera.*", "OpticalConstraints.*"])
prop("C24", "Simulated observations are unbiased with their stated errors",
     "A simulated camera observation reports the observer's state and epoch, the direction to the target disturbed by independent, zero-mean, normally distributed range and pointing errors of the stated sizes with uniform azimuth, and exactly those sizes as its errors; with zero errors it is the truth. Noise on any vector, whatever its direction, has the requested range and angular spread.",
     ["inputs", "histories"], "all geometries, cameras and error sizes; the distribution over repeated observations",
     "A distributional statement over random draws; no test looks at it.",
     ["math/linalg.py", "bodies/artificial.py", "estimation/obs.py"], [("Vector3D.with_noise / with_magnitude_noise / with_angular_noise", "math/linalg.py"), ("Spacecraft.observe_wfov/observe_nfov", "bodies/artificial.py")],
     observe=["SpaceObservation fields", "Vector3D.with_*noise"])
prop("C25", "Two positions and times recover the orbit through them",
     "For any two positions on an elliptical orbit separated by less than a third of a revolution, with their times, orbit determination returns the elements of that orbit at the first time, in every orientation and whether or not the arc crosses perigee, apogee or the node; it terminates.",
     ["inputs"], "all elliptical orbits (eccentricity up to 0.7) and arcs up to 120 degrees",
     "Convergence and quadrants over orbits and arcs; the tests use one orbit.",
     ["estimation/iod.py"], [("Gauss.coes_from_positions, solve_nu, w_of_omega", "estimation/iod.py")], observe=["Gauss.coes_from_positions"])
prop("C26", "Ground observations give true angles and range and lead back to the object",
     "For any site, spacecraft and epoch, azimuth (from north towards east, in [0, 2 pi)), elevation and range are those of the spacecraft in the site's east-north-zenith axes; the observation's inertial and equatorial positions are the spacecraft's position, and an observation built from angles and range is the same observation.",
     ["inputs"], "all sites on the globe, spacecraft positions and epochs",
     "The tests use one site in one quadrant.",
     ["bodies/terrestrial.py", "estimation/obs.py", "coordinates/positions.py"], [("GroundSite.angles_and_range", "bodies/terrestrial.py"), ("GroundObservation", "estimation/obs.py")],
     observe=["GroundObservation.*", "SpaceObservation.*"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps(p) + "\n")
