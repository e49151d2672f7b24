from adapters.algebra import V3, l3, rows
from core import Context
from openspace.coordinates.states import GCRF, HCW, StateConvert
from openspace.bodies.artificial import Spacecraft
from openspace.estimation.filtering import RelativeKalman
from openspace.estimation.obs import SpaceObservation
from openspace.math.linalg import Matrix6D, Vector6D
from openspace.propagators.relative import Hill
from openspace.time import Epoch


class Ctx(Context):
    hill = kf = None


def pv(a, i, t):
    return GCRF(Epoch(t), V3(a, i), V3(a, i + 3))


def l6(v):
    return [v.x, v.y, v.z, v.vx, v.vy, v.vz]


def rows6(m):
    out = []
    for r in (m.row1, m.row2, m.row3, m.row4, m.row5, m.row6):
        out += l6(r)
    return out


def to(c, s, a):
    o, t = pv(a, 0, a[12]), pv(a, 6, a[13])
    h = StateConvert.gcrf.to_hcw(o, t)
    return l3(h.position) + l3(h.velocity) + [h.epoch.value] + l3(Spacecraft(o).hill_position(Spacecraft(t)))


def back(c, s, a):
    o = pv(a, 0, a[12])
    g = StateConvert.hcw.to_gcrf(HCW(Epoch(a[13]), V3(a, 6), V3(a, 9)), o)
    return l3(g.position) + l3(g.velocity) + [g.epoch.value]


def loop(c, s, a):
    o, t = pv(a, 0, a[12]), pv(a, 6, a[13])
    g = StateConvert.hcw.to_gcrf(StateConvert.gcrf.to_hcw(o, t), o)
    return l3(g.position) + l3(g.velocity) + [g.epoch.value]


def zero(c, s, a):
    o = pv(a, 0, a[6])
    h = StateConvert.gcrf.to_hcw(o, o)
    g = StateConvert.hcw.to_gcrf(h, o)
    return l3(h.position) + l3(h.velocity) + l3(g.position) + l3(g.velocity)


def see_hill(c):
    x = c.hill.state
    return l3(x.position) + l3(x.velocity) + l6(x.vector) + [c.hill.step_size]


def hill_new(c, s, a):
    c.stateful = True
    c.hill = Hill(HCW(Epoch(60000.0), V3(a, 1), V3(a, 4)), a[0])
    return see_hill(c) + [c.hill.n]


def hill_by(c, s, a):
    c.hill.step_by_seconds(a[0])
    return see_hill(c)


def hill_step(c, s, a):
    c.hill.step()
    return see_hill(c)


def hill_size(c, s, a):
    c.hill.step_size = a[0]
    return see_hill(c)


def diag(d):
    return Matrix6D(*[Vector6D(*[d[i] if i == j else 0.0 for j in range(6)]) for i in range(6)])


def kf_new(c, s, a):
    c.stateful = True
    c.kf = RelativeKalman(Epoch(a[1]), Hill(HCW(Epoch(a[1]), V3(a, 2), V3(a, 5)), a[0]))
    if s[0] == "own":
        c.kf.p00 = diag(a[8:14])
        c.kf.q = diag(a[14:20])
    return l6(c.kf.x00) + rows6(c.kf.p00) + [c.kf.epoch.value]


def kf_acquire(c, s, a):
    c.stateful = True
    me, it = Spacecraft(pv(a, 0, a[12])), Spacecraft(pv(a, 6, a[12]))
    me.acquire(it)
    c.kf = me.filter
    return l6(c.kf.x00) + rows6(c.kf.p00) + [c.kf.epoch.value, me.tracked_target is it]


def kf_process(c, s, a):
    k = c.kf
    k.process(SpaceObservation(pv(a, 0, a[11]), V3(a, 6), a[9], a[10]))
    return l6(k.x00) + rows6(k.p00) + [k.epoch.value, k.range_error, k.angular_error] + l6(k.propagator.state.vector)


def kf_peek(c, s, a):
    c.kf.predict(a[0])
    return l6(c.kf.x10) + rows6(c.kf.p10) + [c.kf.epoch.value]


def kf_noise(c, s, a):
    c.kf.q = diag(a)
    return [c.kf.epoch.value]


OPS = {
    "kf.peek": kf_peek, "kf.noise": kf_noise,
    "hcw.to": to, "hcw.from": back, "hcw.loop": loop, "hcw.zero": zero,
    "hcw.frame": lambda c, s, a: rows(HCW.frame_matrix(pv(a, 0, 60000.0))),
    "hill.new": hill_new, "hill.by": hill_by, "hill.step": hill_step, "hill.size": hill_size,
    "hill.matrix": lambda c, s, a: rows6(c.hill.system_matrix(a[0])),
    "kf.new": kf_new, "kf.acquire": kf_acquire, "kf.process": kf_process,
}
