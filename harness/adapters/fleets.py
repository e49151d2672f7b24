"""A fleet of real spacecraft driven by the histories of the specification."""
import math

from adapters.algebra import V3, l3
from core import Context
from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF
from openspace.math.linalg import Vector3D
from openspace.time import Epoch


class Ctx(Context):
    stateful = True

    def __init__(self):
        super().__init__()
        self.f = []


# plain vector helpers, independent of the code under test
def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def norm(a):
    return math.sqrt(dot(a, a))


def unit(a):
    n = norm(a)
    return [x / n for x in a]


def angle(a, b):
    a, b = unit(a), unit(b)
    return math.atan2(norm(cross(a, b)), dot(a, b))


def build(pert, a):
    g = GCRF(Epoch(a[6]), V3(a), V3(a, 3))
    g.use_perturbations = pert == "1"
    sc = Spacecraft(g)
    sc.dry_mass, sc.propellant_mass, sc.m_dot, sc.isp = a[7:11]
    return sc


def mode(sc):
    return Spacecraft.STEERING_MODES.index(sc.steering)


def stop(sc):
    e = getattr(sc, "slew_stop", None)
    return None if e is None else e.value


def snap(sc):
    """everything a user can see of a spacecraft"""
    g = sc.propagator.state
    return (l3(g.position), l3(g.velocity), g.epoch.value, g.use_perturbations, sc.propagator.step_size, sc.dry_mass,
            sc.propellant_mass, sc.m_dot, sc.isp, sc.steering, id(getattr(sc, "tracked_target", None)), sc.slewing, stop(sc),
            sc.slew_scalar, l3(sc.body_x), l3(sc.body_y), l3(sc.body_z), sc.albedo, sc.body_radius)


def see(c, view, before, i):
    out = []
    if view == "none":
        return out
    for k, sc in enumerate(c.f):
        old = before[k] if before else None
        st = sc.current_state()
        still = old is not None and old == snap(sc)
        if view == "motion":
            out += [still] + l3(st.position) + l3(st.velocity) + [
                st.epoch.value, sc.dry_mass, sc.propellant_mass, sc.propagator.step_size, sc.m_dot, sc.isp,
                st.use_perturbations, mode(sc)]
        elif view == "steering":
            m = mode(sc)
            me = l3(st.position)
            lag, want = 0.0, None
            tgt = -1
            if m == 0:
                want = [-x for x in me]
            elif m == 1:
                want = [-x for x in l3(sc.sun_vector())]
            else:
                t = sc.tracked_target
                tgt = [x is t for x in c.f].index(True) if any(x is t for x in c.f) else -2
                ts = t.current_state()
                lag = ts.epoch.value - st.epoch.value
                want = [p - q for p, q in zip(l3(ts.position), me)]
            x, y, z = (unit(l3(v)) for v in (sc.body_x, sc.body_y, sc.body_z))
            out += [still, m, tgt, lag, angle(z, want), dot(x, y), dot(y, z), dot(z, x), dot(cross(x, y), z)] + z
        else:
            s = stop(sc)
            turned = 0.0
            if k == i and s is not None and old is not None:
                wait = s - st.epoch.value
                turned = wait / sc.slew_scalar - angle(old[16], l3(sc.body_z)) if sc.slew_scalar else wait
            out += [sc.slewing, turned, old is None or old[12] == s, math.nan if s is None else s]
    return out


def new(c, s, a):
    c.f = [build(s[1 + k], a[11 * k:11 * k + 11]) for k in range(3)]
    return see(c, s[0], None, -1)


def act(f):
    def run(c, s, a):
        i, j = int(s[1]), int(s[2])
        before = [snap(x) for x in c.f]
        f(c.f[i], c.f[j], V3(a), a[3])
        return see(c, s[0], before, i)

    return run


def size(x, y, b, t):
    x.propagator.step_size = t


def engine(x, y, b, t):
    x.m_dot, x.isp, x.dry_mass = b.x, b.y, b.z


def look(x, y, b, t):
    """observe, detect and estimate: nothing of this moves or turns a spacecraft"""
    x.observe_wfov(y)
    x.observe_nfov(y)
    x.detect(y)
    x.hill_position(y)
    x.sma()
    if hasattr(x, "filter"):
        x.process_wfov(y)
        x.process_nfov(y)


def scale(x, y, b, t):
    x.slew_scalar = t


def impulses(c, s, a):
    g = GCRF(Epoch(a[6]), V3(a), V3(a, 3))
    g.use_perturbations = s[0] == "1"
    sc = Spacecraft(g)
    out = []
    for k in (7, 10):
        sc.impulsive_maneuver(V3(a, k))
        st = sc.current_state()
        out += l3(st.position) + l3(st.velocity) + [st.epoch.value]
    return out + [st.use_perturbations]


def finites(c, s, a):
    sc = build(s[0], a)
    t0 = sc.current_epoch().value
    for n in range(3):
        b = V3(a, 11 + 3 * n)
        if b.x or b.y or b.z:
            sc.m_dot, sc.isp = a[20 + 2 * n:22 + 2 * n]
            sc.finite_maneuver(b)
    st = sc.current_state()
    return l3(st.position) + l3(st.velocity) + [st.epoch.value, sc.dry_mass, sc.propellant_mass, st.epoch.value - t0,
                                                sc.propagator.step_size, st.use_perturbations]


OPS = {
    "fleet": new, "impulses": impulses, "finites": finites,
    "step": act(lambda x, y, b, t: x.step()),
    "to": act(lambda x, y, b, t: x.step_to_epoch(Epoch(t))),
    "stay": act(lambda x, y, b, t: x.step_to_epoch(x.current_epoch())),
    "impulse": act(lambda x, y, b, t: x.impulsive_maneuver(b)),
    "finite": act(lambda x, y, b, t: x.finite_maneuver(b)),
    "lvlh": act(lambda x, y, b, t: x.track_lvlh()),
    "sun": act(lambda x, y, b, t: x.track_sun()),
    "acquire": act(lambda x, y, b, t: x.acquire(y)), "look": act(look),
    "track": act(lambda x, y, b, t: x.track_state(y)),
    "size": act(size), "engine": act(engine), "scale": act(scale),
}
