from adapters.algebra import V3, l3
from core import Context
from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.positions import PositionConvert
from openspace.coordinates.states import GCRF
from openspace.propagators.inertial import RK4
from openspace.time import Epoch


class Ctx(Context):
    def __init__(self):
        super().__init__()
        self.rk = None
        self.stateful = False


def state(s, a):
    g = GCRF(Epoch(a[6]), V3(a), V3(a, 3))
    g.use_perturbations = s == "1"
    return g


def terms(g):
    d = g.derivative()
    return (l3(d[0]) + l3(d[1]) + l3(g.acceleration_from_earth()) + l3(g.acceleration_from_moon())
            + l3(g.acceleration_from_sun()) + l3(g.acceleration_from_srp()) + l3(g.acceleration_from_thrust()))


def derivative(c, s, a):
    g = state(s[0], a)
    g.thrust = V3(a, 7)
    g.srp_scalar = a[10]
    return terms(g)


def derivative_copy(c, s, a):
    g = state(s[0], a)
    g.thrust = V3(a, 7)
    return terms(g.copy())


def keeps(c, s, a):
    sc = Spacecraft(state(s[0], a))
    for i, op in enumerate(s[1:]):
        x = V3(a, 7 + 3 * i)
        if op == "copy":
            sc.propagator.state = sc.current_state().copy()
        elif op == "step":
            sc.step()
        elif op == "to":
            sc.step_to_epoch(sc.current_epoch().plus_days(x.x / 100))
        elif op == "impulse":
            sc.impulsive_maneuver(x)
        else:
            sc.finite_maneuver(x)
    g = sc.current_state()
    return l3(g.position) + l3(g.velocity) + [g.epoch.value, g.use_perturbations] + l3(g.derivative()[1])


def srp_scalar(c, s, a):
    sc = Spacecraft(GCRF(Epoch(60000.0), V3([7000.0, 0.0, 0.0]), V3([0.0, 7.0, 0.0])))
    sc.albedo, sc.body_radius, sc.dry_mass, sc.propellant_mass = a
    return [sc.srp_scalar(), sc.area(), sc.total_mass()]


def srp_kept(c, s, a):
    g = state("1", a)
    g.srp_scalar = a[7]
    if s[1] == "copy":
        g = g.copy()
    elif s[1] == "step":
        rk = RK4(g)
        rk.step()
        g = rk.state
    else:
        sc = Spacecraft(g)
        # a spacecraft whose own coefficient is the given one
        sc.propagator.state.srp_scalar = a[7]
        g = sc.current_state()
    return l3(g.position) + l3(g.velocity) + l3(g.derivative()[1])


def gravity(c, s, a):
    return l3(GCRF(Epoch(a[3]), V3(a), V3([1.0, 2.0, 3.0])).acceleration_from_gravity())


def gravity_fixed(c, s, a):
    e = Epoch(a[3])
    return l3(PositionConvert.gcrf.to_itrf(GCRF(e, V3(a), V3([1.0, 2.0, 3.0])).acceleration_from_gravity(), e))


def steps(c, s, a):
    rk = RK4(state(s[0], a))
    h, n, mdot, m, isp = a[7], int(a[8]), a[9], a[10], a[11]
    rk.step_size = h
    rk.m0, rk.isp, rk.m_dot = m, isp, mdot
    rk.thrust_direction = V3(a, 12)
    m0 = rk.m0
    for _ in range(n):
        rk.step()
    x = rk.state
    w = x.vector
    return (l3(x.position) + l3(x.velocity) + [x.epoch.value, rk.step_size, rk.m0 if mdot else m0]
            + [w.x, w.y, w.z, w.vx, w.vy, w.vz])


def see(c):
    x = c.rk.state
    return l3(x.position) + l3(x.velocity) + [x.epoch.value, c.rk.step_size]


def new(c, s, a):
    c.stateful = True
    c.rk = RK4(state(s[0], a))
    return see(c)


def to(c, s, a):
    c.rk.step_to_epoch(Epoch(a[0]))
    return see(c)


def stay(c, s, a):
    c.rk.step_to_epoch(c.rk.state.epoch.copy())
    return see(c)


def one(c, s, a):
    c.rk.step()
    return see(c)


def configure(c, s, a):
    c.rk.step_size = a[0]
    return see(c)


def cruise(c, s, a):
    c.rk = RK4(state(s[0], a))
    c.rk.step_size = a[8]
    c.rk.step_to_epoch(Epoch(a[7]))
    return see(c)


OPS = {"derivative": derivative, "derivative.copy": derivative_copy, "keeps": keeps, "srp.scalar": srp_scalar,
       "srp.kept": srp_kept, "gravity": gravity, "gravity.fixed": gravity_fixed, "steps": steps,
       "new": new, "to": to, "stay": stay, "one": one, "configure": configure, "cruise": cruise}
