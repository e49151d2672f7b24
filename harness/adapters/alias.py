"""A pool of live objects driven by the histories of the specification; after
every operation each object is compared with its snapshot from before."""
import pkgutil
import importlib

import openspace
from core import Context
from openspace.bodies.artificial import Spacecraft
from openspace.bodies.celestial import Earth, Moon, Sun
from openspace.bodies.terrestrial import GroundSite
from openspace.coordinates.elements import ClassicalElements
from openspace.coordinates.positions import ENZ, LLA, PositionConvert, SphericalPosition
from openspace.coordinates.states import GCRF, HCW, IJK, ITRF, StateConvert
from openspace.estimation.filtering import RelativeKalman
from openspace.estimation.obs import GroundObservation, SpaceObservation
from openspace.hardware.payloads import Camera
from openspace.math.functions import EquationsOfMotion
from openspace.math.linalg import Matrix3by6, Matrix3D, Matrix6by3, Matrix6D, Vector3D, Vector6D
from openspace.propagators.inertial import RK4
from openspace.propagators.relative import Hill
from openspace.time import Epoch

for _m in pkgutil.walk_packages(openspace.__path__, "openspace."):
    importlib.import_module(_m.name)

V3 = ("x", "y", "z")
V6 = V3 + ("vx", "vy", "vz")
R3 = ("row1", "row2", "row3")
R6 = R3 + ("row4", "row5", "row6")
STATE = ("epoch", "position", "velocity", "vector")
LIMITS = ("sun_hard", "sun_soft", "moon", "earth", "vismag", "bore", "characterization")
# what a user can see of an object; a filter's propagator and a spacecraft's
# target are objects of their own
FIELDS = {
    "Vector3D": V3, "Vector6D": V6, "Matrix3D": R3, "Matrix3by6": R3, "Matrix6by3": R6, "Matrix6D": R6,
    "Epoch": ("value",), "LLA": ("latitude", "longitude", "altitude"),
    "SphericalPosition": ("radius", "right_ascension", "declination"),
    "ITRF": STATE, "HCW": STATE, "IJK": STATE, "GCRF": STATE + ("thrust", "srp_scalar", "use_perturbations"),
    "ClassicalElements": ("epoch", "semimajor_axis", "eccentricity", "inclination", "raan", "argument_of_perigee",
                          "mean_anomaly"),
    "RK4": ("state", "step_size", "m_dot", "m0", "thrust_direction", "isp"),
    "Hill": ("state", "sma", "n", "step_size"),
    "RelativeKalman": ("epoch", "x00", "x10", "p00", "p10", "q", "f", "k", "z", "range_error", "angular_error", "r"),
    "SpaceObservation": ("observer_state", "observed_direction", "range", "right_ascension", "declination", "range_error",
                         "angular_error"),
    "GroundObservation": ("observer_state", "observed_direction", "range", "azimuth", "elevation", "range_error",
                          "angular_error"),
    "GroundSite": ("itrf_position", "latitude", "longitude", "enz_matrix"),
    "OpticalConstraints": LIMITS, "Camera": ("pixels", "fov", "limits", "resolution_factor"),
    "Spacecraft": ("initial_state", "propagator", "albedo", "body_radius", "wfov", "nfov", "filter", "steering", "slewing",
                   "slew_stop", "slew_scalar", "pointing_accuracy", "m_dot", "isp", "dry_mass", "propellant_mass",
                   "body_x", "body_y", "body_z"),
}


def proj(o):
    if o is None or isinstance(o, (bool, int, float, str)):
        return o
    if isinstance(o, (list, tuple)):
        return tuple(proj(x) for x in o)
    for c in type(o).__mro__:
        if c.__name__ in FIELDS:
            return (c.__name__,) + tuple(proj(getattr(o, n, None)) for n in FIELDS[c.__name__])
    return "?"


def classes():
    out = []
    for m in pkgutil.walk_packages(openspace.__path__, "openspace."):
        mod = importlib.import_module(m.name)
        for n, c in sorted(vars(mod).items()):
            if isinstance(c, type) and c.__module__ == mod.__name__:
                out.append(c)
    return out


def plain(v):
    return not callable(v) and not isinstance(v, (staticmethod, classmethod, property, type))


def defaults():
    out = []
    for c in classes():
        for n, v in sorted(vars(c).items()):
            if not n.startswith("_") and plain(v):
                p = proj(v)
                if p != "?":
                    out.append((c.__name__, n, p))
    return out


START = defaults()


class Ctx(Context):
    stateful = True

    def __init__(self):
        super().__init__()
        self.pool = []
        self.count = 0


def pick(a, l):
    """one of a list, chosen by a number in [-1, 1]"""
    return l[min(int((a + 1) / 2 * len(l)), len(l) - 1)]


def v3(a, s=1.0):
    return Vector3D(s * a[0], s * a[1], s * a[2])


def axis(v):
    return Vector3D(v.x, v.y, v.z)


def craft(c, g, a):
    sc = Spacecraft(g)
    # never two spacecraft in the same place
    c.count += 1
    p, v = sc.propagator.state.position, sc.propagator.state.velocity
    n = 60 * c.count
    sc.propagator.state = moved(sc.propagator.state, Vector3D(p.x + n, p.y + n * a[0], p.z - n), v)
    return sc


def moved(g, p, v):
    o = GCRF(g.epoch, p, v)
    o.use_perturbations = g.use_perturbations
    o.srp_scalar = g.srp_scalar
    return o


def filtered(x):
    if not hasattr(x, "filter"):
        x.filter = RelativeKalman(x.current_epoch(), Hill(HCW(x.current_epoch(), Vector3D(1, 2, 3), Vector3D(0, 0, 0)), 24000.0))
    return x


def rot(a, p):
    return Vector3D.rotation_matrix(p, 3 * a)


def query(*fs):
    """evaluate one of several, chosen by the numbers of the case"""
    return lambda c, o, a: pick(a[5], fs)(*o)


def each(*fs):
    """evaluate all, no result"""
    def run(c, o, a):
        for f in fs:
            f(*o)
    return run


def scal(x, n, d):
    setattr(x, n, getattr(x, n) + d)


def poke_state(g, a):
    def pos():
        g.position.x += 1
        g.vector.x += 1

    def vel():
        g.velocity.y += 1e-3
        g.vector.vy += 1e-3

    def ep():
        g.epoch.value += 0.01

    fs = [pos, vel, ep]
    if isinstance(g, GCRF):
        def thr():
            g.thrust.z += 1e-7

        def per():
            g.use_perturbations = not g.use_perturbations
        fs += [thr, per]
    pick(a[0], fs)()


def poke_m(m, a):
    rows = [getattr(m, n) for n in R6 if hasattr(m, n)]
    r = pick(a[0], rows)
    scal(r, pick(a[1], V6 if hasattr(r, "vx") else V3), 0.25)


def poke_filter(k, a):
    fs = [lambda: scal(k.x00, "x", 0.1), lambda: scal(k.p00.row1, "x", 0.01), lambda: scal(k.q.row2, "y", 1e-17),
          lambda: scal(k.f.row3, "z", 0.1), lambda: scal(k.epoch, "value", 0.001)]
    pick(a[0], fs)()


def poke_craft(x, a):
    fs = [lambda: poke_state(x.propagator.state, a[1:]), lambda: poke_state(x.initial_state, a[1:]), lambda: scal(x.body_z, "x", 5.0),
          lambda: scal(x.body_x, "y", 5.0), lambda: scal(x.body_y, "z", 5.0), lambda: scal(x, "body_radius", 1e-3),
          lambda: scal(x.wfov.limits, pick(a[1], LIMITS), 1e-3), lambda: scal(x.nfov.limits, pick(a[1], LIMITS), 1e-3),
          lambda: scal(x.nfov, "fov", 1e-4), lambda: scal(x, "slew_scalar", 1e-6), lambda: scal(x, "dry_mass", 1.0),
          lambda: scal(x.propagator, "step_size", 1.0)]
    if hasattr(x, "filter"):
        fs += [lambda: poke_filter(x.filter, a[1:])] * 3
    if hasattr(x, "slew_stop"):
        fs += [lambda: scal(x.slew_stop, "value", 0.001)] * 2
    pick(a[0], fs)()


def poke_site(s, a):
    pick(a[0], [lambda: scal(s.itrf_position, "x", 1.0), lambda: scal(s.enz_matrix.row1, "x", 1e-6), lambda: scal(s, "latitude", 1e-6)])()


def poke_obs(o, a):
    pick(a[0], [lambda: poke_state(o.observer_state, a[1:]), lambda: scal(o.observed_direction, "x", 1.0), lambda: scal(o, "range_error", 1e-3)])()


def poke(c, o, a):
    x = o[0]
    if isinstance(x, (Vector3D, Vector6D)):
        n = pick(a[0], V6 if hasattr(x, "vx") else V3)
        v = getattr(x, n)
        setattr(x, n, v + (1.0 if abs(v) > 100 else 1e-3))
    elif isinstance(x, (Matrix3D, Matrix3by6, Matrix6by3, Matrix6D)):
        poke_m(x, a)
    elif isinstance(x, Epoch):
        x.value += 0.01
    elif isinstance(x, (GCRF, ITRF, HCW, IJK)):
        poke_state(x, a)
    elif isinstance(x, LLA):
        scal(x, pick(a[0], FIELDS["LLA"]), 1e-3)
    elif isinstance(x, SphericalPosition):
        scal(x, pick(a[0], FIELDS["SphericalPosition"]), 1e-3)
    elif isinstance(x, ClassicalElements):
        pick(a[0], [lambda: scal(x, "raan", 1e-3), lambda: scal(x.epoch, "value", 1e-3), lambda: scal(x, "semimajor_axis", 1.0)])()
    elif isinstance(x, RK4):
        pick(a[0], [lambda: poke_state(x.state, a[1:]), lambda: scal(x, "step_size", 1.0), lambda: scal(x.thrust_direction, "x", 1e-3)])()
    elif isinstance(x, Hill):
        pick(a[0], [lambda: poke_state(x.state, a[1:]), lambda: scal(x, "step_size", 1.0)])()
    elif isinstance(x, RelativeKalman):
        poke_filter(x, a)
    elif isinstance(x, (SpaceObservation, GroundObservation)):
        poke_obs(x, a)
    elif isinstance(x, GroundSite):
        poke_site(x, a)
    elif isinstance(x, Spacecraft):
        poke_craft(x, a)
    elif isinstance(x, Camera):
        pick(a[0], [lambda: scal(x.limits, pick(a[1], LIMITS), 1e-3), lambda: scal(x, "fov", 1e-4)])()
    else:
        raise RuntimeError("machinery: cannot poke " + type(x).__name__)


PC, SC, EOM = PositionConvert, StateConvert, EquationsOfMotion
cols3 = [lambda m: m.column_1(), lambda m: m.column_2(), lambda m: m.column_3()]
cols6 = cols3 + [lambda m: m.column_4(), lambda m: m.column_5(), lambda m: m.column_6(), lambda m: m.diagonal()]

ROWS = {
    "new.pos": lambda c, o, a: Vector3D(25000 + 5000 * a[0], 3000 * a[1], 3000 * a[2]),
    "new.vel": lambda c, o, a: Vector3D(0.3 * a[0], 3.75 + 0.4 * a[1], 0.3 * a[2]),
    "new.dir": lambda c, o, a: v3(a, 200.0),
    "new.burn": lambda c, o, a: Vector3D(0.004 * a[0], 0.004 * a[1], 0.003 + 0.001 * a[2]),
    "new.epoch": lambda c, o, a: Epoch(57000 + 0.2 * a[0]),
    "new.lla": lambda c, o, a: LLA(1.4 * a[0], 1 + 8 * a[1], a[2]),
    "new.v6": lambda c, o, a: Vector6D(80 * a[0], 80 * a[1], 80 * a[2], 0.05 * a[3], 0.05 * a[4], 0.05 * a[5]),
    "new.camera": lambda c, o, a: pick(a[0], [Camera.wfov, Camera.nfov, lambda: Camera(2048, 0.01)])(),
    "new.unit": lambda c, o, a: Vector3D(*pick(a[0], [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1.0, 0.0, 0.0), (0.6, 0.8, 0.0)])),
    "new.zero": lambda c, o, a: Vector3D(0, 0, 0), "new.zero6": lambda c, o, a: Vector6D(0, 0, 0, 0, 0, 0),
    "rotation.none": lambda c, o, a: rot(0, o[0]), "m3.zero": lambda c, o, a: Matrix3D(o[0], o[0], o[0]),
    "m6.zero": lambda c, o, a: Matrix6D(*(6 * [o[0]])),
    "rk4.stay": query(lambda r: r.step_to_epoch(r.state.epoch)), "craft.stay": query(lambda x: x.step_to_epoch(x.current_epoch())),
    "hill.by0": query(lambda h: h.step_by_seconds(0)),
    "copy": lambda c, o, a: o[0].copy(),
    "plus": lambda c, o, a: o[0].plus(o[1]), "minus": lambda c, o, a: o[0].minus(o[1]),
    "cross": lambda c, o, a: o[0].cross(o[1]), "scaled": lambda c, o, a: o[0].scaled(pick(a[1], [a[0], 1, 0, -1])),
    "normalized": lambda c, o, a: o[0].normalized(),
    "rotated": lambda c, o, a: o[0].rotation_about_axis(o[1], pick(a[1], [3 * a[0], 0])),
    "noisy": query(lambda v: v.with_noise(0.1, 1e-3), lambda v: v.with_noise(0, 0), lambda v: v.with_magnitude_noise(0.1),
                   lambda v: v.with_angular_noise(1e-3), lambda v: v.with_angular_noise(0)),
    "measure": each(lambda p, d: p.angle(d), lambda p, d: p.dot(d), lambda p, d: p.magnitude(), lambda p, d: str(p)),
    "v6.of": lambda c, o, a: Vector6D.from_position_and_velocity(*o),
    "v6.plus": lambda c, o, a: o[0].plus(o[1]), "v6.minus": lambda c, o, a: o[0].minus(o[1]),
    "v6.ask": each(lambda p, d: p.dot(d), lambda p, d: str(p)),
    "m3.new": lambda c, o, a: Matrix3D(*o), "rotation": lambda c, o, a: rot(a[0], o[0]),
    "m3.transpose": lambda c, o, a: o[0].transpose(),
    "rot.inverse": query(lambda m: m.inverse(), lambda m: m.transpose()),
    "m3.scaled": lambda c, o, a: o[0].scaled(pick(a[1], [a[0], 1, 0])), "m3.plus": lambda c, o, a: o[0].plus(o[1]),
    "m3.apply": lambda c, o, a: o[0].multiply_vector(o[1]), "m3.column": query(*(cols3 + [lambda m: m.diagonal()])),
    "m3.ask": each(lambda m: m.determinant(), lambda m: m.cofactor(), lambda m: m.adjugate()),
    "m6.new": lambda c, o, a: Matrix6D(o[0], o[1], o[2], o[0], o[1], o[2]), "m6.identity": lambda c, o, a: Matrix6D.identity(),
    "m6.transpose": lambda c, o, a: o[0].transpose(), "m6.times": lambda c, o, a: o[0].multiply_matrix(o[1]),
    "m6.plus": lambda c, o, a: o[0].plus(o[1]), "m6.minus": lambda c, o, a: o[0].minus(o[1]),
    "m6.apply": lambda c, o, a: o[0].multiply_vector(o[1]), "m6.column": query(*cols6),
    "m36.new": lambda c, o, a: Matrix3by6(*o), "m36.transpose": lambda c, o, a: o[0].transpose(),
    "m36.apply": lambda c, o, a: o[0].multiply_vector(o[1]), "m36.times": lambda c, o, a: o[0].multiply_matrix_6by3(o[1]),
    "m63.new": lambda c, o, a: Matrix6by3(o[0], o[1], o[2], o[0], o[1], o[2]), "m63.transpose": lambda c, o, a: o[0].transpose(),
    "m63.times3": lambda c, o, a: o[0].multiply(o[1]), "m63.times36": lambda c, o, a: o[0].multiply_matrix3by6(o[1]),
    "m63.apply": lambda c, o, a: o[0].multiply_vector(o[1]), "m3.times36": lambda c, o, a: o[0].multiply_matrix3by6(o[1]),
    "m6.times63": lambda c, o, a: o[0].multiply_matrix_6by3(o[1]),
    "plus_days": lambda c, o, a: o[0].plus_days(pick(a[1], [0.1 * a[0], 0])),
    "epoch.ask": each(lambda e: e.julian_value(), lambda e: e.julian_centuries_past_j2000(), lambda e: e.greenwich_hour_angle(),
                      Earth.obliquity_of_ecliptic_at_epoch),
    "earth": query(Earth.rotation, Earth.precession, Earth.nutation), "sunmoon": query(Sun.get_position, Moon.get_position),
    "lla.itrf": query(PC.lla.to_itrf), "itrf.lla": query(PC.itrf.to_lla), "enz.itrf": query(PC.enz.to_itrf),
    "gcrf.frames": query(PC.gcrf.to_itrf, PC.gcrf.to_tod, PC.gcrf.to_mod, PC.gcrf.to_ijk),
    "itrf.frames": query(PC.itrf.to_gcrf, PC.itrf.to_tod, PC.itrf.to_mod, PC.itrf.to_ijk),
    "spherical": query(SphericalPosition.from_cartesian), "cartesian": query(lambda s: s.to_cartesian()),
    "gcrf": lambda c, o, a: GCRF(*o), "gcrf.derivative": query(lambda g: g.derivative()[0], lambda g: g.derivative()[1]),
    "gcrf.forces": query(lambda g: g.acceleration_from_thrust(), lambda g: g.acceleration_from_earth(), lambda g: g.acceleration_from_moon(),
                         lambda g: g.acceleration_from_sun(), lambda g: g.acceleration_from_srp(), lambda g: g.acceleration_from_gravity()),
    "gcrf.toward": query(lambda g: g.sun_vector(), lambda g: g.moon_vector()),
    "itrf": query(ITRF.from_fixed, lambda e, p: ITRF(e, p, Vector3D(0, 0.1, 0))), "hcw": lambda c, o, a: HCW(*o),
    "hcw.of": query(HCW.from_state_vector), "ijk": lambda c, o, a: IJK(*o), "frame": query(HCW.frame_matrix),
    "to_hcw": query(SC.gcrf.to_hcw), "to_gcrf": query(SC.hcw.to_gcrf),
    "coe": lambda c, o, a: ClassicalElements(o[0], 30000 + 5000 * a[0], 0.2 + 0.15 * a[1], 1.5 + a[2], 3 + 2.9 * a[3], 3 + 2.9 * a[4],
                                             3 + 2.9 * a[5]),
    "coe.of": query(ClassicalElements.from_ijk), "coe.ijk": query(lambda k: k.to_ijk()),
    "coe.axes": query(lambda k: k.perigee_vector(), lambda k: k.semilatus_rectum_vector()),
    "rk4": query(RK4), "rk4.step": query(lambda r: r.step()), "rk4.to": query(lambda r, e: r.step_to_epoch(e)),
    "rk4.maneuver": query(lambda r, b: r.maneuver(b, 0.3, 800, 300)),
    "rk4.thrust": each(lambda r: r.thrust_vector(0), lambda r: r.thrust_vector(10)),
    "hill": lambda c, o, a: Hill(o[0], 25000 + 4000 * a[0]), "hill.step": query(lambda h: h.step()),
    "hill.by": lambda c, o, a: o[0].step_by_seconds(1000 * a[0]), "hill.matrix": lambda c, o, a: o[0].system_matrix(pick(a[1], [900 * a[0], 0])),
    "filter": query(RelativeKalman), "filter.process": query(lambda k, s: k.process(s)), "filter.predict": lambda c, o, a: o[0].predict(100 * a[0]),
    "sobs": lambda c, o, a: SpaceObservation(o[0], o[1], 0.01, 1e-4), "sobs.ijk": query(lambda s: s.ijk_position()),
    "gobs": lambda c, o, a: GroundObservation(o[0], o[1], 0.01, 1e-4),
    "gobs.angles": lambda c, o, a: GroundObservation.from_angles_and_range(o[0], 3 + 3 * a[0], a[1], 2000, 0.01, 1e-4),
    "gobs.place": query(lambda g: g.ijk_position(), lambda g: g.gcrf_position()),
    "site": query(GroundSite), "site.of": query(GroundSite.from_itrf_position), "site.enz": query(lambda s, p: s.enz_position(p)),
    "site.look": query(lambda s, x: s.angles_and_range(x)),
    "craft": lambda c, o, a: craft(c, o[0], a), "craft.step": query(lambda x: x.step()), "craft.to": query(lambda x, e: x.step_to_epoch(e)),
    "craft.impulse": query(lambda x, b: x.impulsive_maneuver(b)), "craft.finite": query(lambda x, b: x.finite_maneuver(b)),
    "craft.sun": query(lambda x: x.track_sun()), "craft.lvlh": query(lambda x: x.track_lvlh()),
    "craft.track": query(lambda x, y: x.track_state(y)), "craft.acquire": query(lambda x, y: x.acquire(y)),
    "craft.observe": query(lambda x, y: x.observe_wfov(y), lambda x, y: x.observe_nfov(y)),
    "craft.ask": each(lambda x, y: x.detect(y), lambda x, y: x.visual_magnitude(y), lambda x, y: x.sun_angle(y), lambda x, y: x.moon_angle(y),
                      lambda x, y: x.earth_angle(y), lambda x, y: x.range(y), lambda x, y: x.area(), lambda x, y: x.srp_scalar(),
                      lambda x, y: x.total_mass(), lambda x, y: x.sma(), lambda x, y: x.hill_position(y), lambda x, y: x.target_vector(y)),
    "craft.state": query(lambda x: x.current_state()),
    "craft.vector": query(lambda x: x.position(), lambda x: x.velocity(), lambda x: x.sun_vector(), lambda x: x.moon_vector(),
                          lambda x: x.earth_vector()),
    "craft.epoch": query(lambda x: x.current_epoch()),
    "craft.process": query(lambda x, y: filtered(x).process_wfov(y), lambda x, y: filtered(x).process_nfov(y)),
    "poke": poke,
}


def same(x, y):
    p, q = proj(x), proj(y)
    if isinstance(x, GCRF):  # the radiation coefficient: see copy.srp
        i = 1 + FIELDS["GCRF"].index("srp_scalar")
        p, q = p[:i] + p[i + 1:], q[:i] + q[i + 1:]
    return p == q


def run(name):
    def go(c, s, a):
        o = [c.pool[int(i)] for i in s[1:]]
        before = [proj(x) for x in c.pool]
        r = ROWS[name](c, o, a)
        out = [defaults() == START, same(o[0], r) if name == "copy" else None]
        out += [proj(x) == b for x, b in zip(c.pool, before)]
        if s[0] != "":
            c.pool.append(r)
        return out

    return go


def reset(c, s, a):
    c.pool, c.count = [], 0
    return []


def srp(c, s, a):
    g = GCRF(Epoch(57000), Vector3D(25000, 1000, 500), Vector3D(0.1, 3.9, 0.2))
    g.srp_scalar = a[0]
    k = g.copy()
    return [same(g, k), k.srp_scalar]


OPS = {n: run(n) for n in ROWS}
OPS["reset"] = reset
OPS["copy.srp"] = srp
