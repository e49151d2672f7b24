"""Statistics of the noise of real vectors and observations."""
import math

from adapters.algebra import V3, l3
from adapters.fleets import cross, dot, norm, snap, unit
from core import Context as Ctx  # noqa: F401
from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.positions import SphericalPosition
from openspace.coordinates.states import GCRF
from openspace.hardware.payloads import Camera
from openspace.time import Epoch


def stats(truth, draws, sr, sa):
    """the nineteen statistics of spread() in noise.qnt, then the raw worst deviations"""
    r = norm(truth)
    u = unit(truth)
    k = min(range(3), key=lambda i: abs(u[i]))
    e1 = unit(cross(u, [1.0 if i == k else 0.0 for i in range(3)]))
    e2 = cross(u, e1)
    n = len(draws)
    x, th, c1, s1 = [], [], [], []
    worst_r = worst_t = 0.0
    for w in draws:
        a, b, c = dot(w, e1), dot(w, e2), dot(w, u)
        side = math.hypot(a, b)
        t = math.atan2(side, c)
        x.append((norm(w) - r) / sr if sr else 0.0)
        th.append(t / sa if sa else 0.0)
        c1.append(a / side if side else 0.0)
        s1.append(b / side if side else 0.0)
        worst_r = max(worst_r, abs(norm(w) - r) / r)
        worst_t = max(worst_t, t)

    def mean(v):
        return sum(v) / n

    t2 = [t * t for t in th]
    out = [mean(x), mean([q * q for q in x]), mean([x[i] * x[i - 1] for i in range(n)]),
           mean(th), mean(t2), mean([(t2[i] - 1) * (t2[i - 1] - 1) for i in range(n)]),
           mean(c1), mean(s1), mean([a * a - b * b for a, b in zip(c1, s1)]), mean([2 * a * b for a, b in zip(c1, s1)]),
           mean([p * (t - math.sqrt(2 / math.pi)) / math.sqrt(1 - 2 / math.pi) for p, t in zip(x, th)]),
           mean([p * a for p, a in zip(x, c1)]), mean([p * a for p, a in zip(x, s1)])]
    for draw in (x, th):
        out += [sum(abs(q) > k for q in draw) / n for k in (1, 2, 3)]
    return out, worst_r, worst_t


def spread(c, s, a):
    v, sr, sa, n = V3(a), a[3], a[4], int(a[5])
    if s[0] == "both":
        draws = [l3(v.with_noise(sr, sa)) for _ in range(n)]
    elif s[0] == "range":
        draws = [l3(v.with_magnitude_noise(sr)) for _ in range(n)]
    else:
        draws = [l3(v.with_angular_noise(sa)) for _ in range(n)]
    out, wr, wt = stats(l3(v), draws, sr, sa)
    return out + [wr, wt]


def still(c, s, a):
    v = V3(a)
    out = l3(v.with_noise(0, 0)) + l3(v.with_magnitude_noise(0)) + l3(v.with_angular_noise(0))
    return out + [l3(v) == a[:3]]


def scene(s, a):
    me = Spacecraft(GCRF(Epoch(a[6]), V3(a), V3(a, 3)))
    it = Spacecraft(GCRF(Epoch(a[6]), V3(a, 7), V3(a, 3)))
    setattr(me, s[0], Camera(a[10], a[11]))
    setattr(me, "nfov" if s[0] == "wfov" else "wfov", Camera(17, 0.7))
    me.pointing_accuracy, it.body_radius = a[12], a[13]
    it.pointing_accuracy, me.body_radius = 0.3, 0.123
    return me, it, getattr(me, "observe_" + s[0])


def camera(c, s, a):
    me, it, look = scene(s, a)
    truth = [p - q for p, q in zip(a[7:10], a[0:3])]
    obs = [look(it) for _ in range(int(a[14]))]
    return stats(truth, [l3(o.observed_direction) for o in obs], obs[0].range_error, a[12])[0]


def report(c, s, a):
    me, it, look = scene(s, a)
    before = snap(me), snap(it)
    o = look(it)
    truth = [p - q for p, q in zip(a[7:10], a[0:3])]
    w = l3(o.observed_direction)
    ra = math.atan2(w[1], w[0]) % (2 * math.pi)
    dec = math.atan2(w[2], math.hypot(w[0], w[1]))
    dra = (o.right_ascension - ra + math.pi) % (2 * math.pi) - math.pi
    _, wr, wt = stats(truth, [w], 1.0, 1.0)
    st = o.observer_state
    return l3(st.position) + l3(st.velocity) + [
        st.epoch.value, o.epoch().value, o.range_error, o.angular_error,
        o.range / norm(w) - 1, dra * math.cos(dec), o.declination - dec,
        wr * norm(truth) / o.range_error, wt / o.angular_error, (snap(me), snap(it)) == before]


def truth(c, s, a):
    me, it, look = scene(s, a)
    o = look(it)
    return l3(o.observed_direction) + [o.range]


def process(c, s, a):
    me, it, _ = scene(s, a)
    me.acquire(it)
    z = me.hill_position(it)
    getattr(me, "process_" + s[0])(it)
    f = me.filter
    d = norm(a[7:10]) and norm([p - q for p, q in zip(a[7:10], a[0:3])])
    size = f.range_error + f.angular_error * d * 2 + 1e-9
    # Hill arcs stretch lengths off the origin's radius; the bound allows for it
    stretch = 4 * (1 + d / 6000.0) ** 2
    return [f.epoch.value, f.range_error, f.angular_error, norm([p - q for p, q in zip(l3(f.z), l3(z))]) / (size * stretch)]


OPS = {"spread": spread, "still": still, "camera": camera, "report": report, "truth": truth, "process": process}
