from adapters.algebra import V3, l3, rows
from core import Context as Ctx  # noqa: F401
from openspace.bodies.artificial import Spacecraft
from openspace.bodies.celestial import Earth, Moon, Sun
from openspace.coordinates.positions import PositionConvert
from openspace.coordinates.states import GCRF
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

G, T = PositionConvert.gcrf, PositionConvert.itrf


def conv(f):
    return lambda c, s, a: l3(f(V3(a), Epoch(a[3])))


def roundtrip(c, s, a):
    e, r = Epoch(a[3]), V3(a)
    x = G.to_itrf(r, e)
    b = T.to_gcrf(x, e)
    y = T.to_gcrf(r, e)
    d = G.to_itrf(y, e)
    return l3(b) + l3(d) + [x.magnitude(), G.to_ijk(r, e).magnitude()]


def star(c, s, a):
    return l3(G.to_ijk(V3(a), Epoch(a[3] + a[4])))


def vectors(c, s, a):
    g = GCRF(Epoch(a[3]), V3(a), Vector3D(1.0, 2.0, 3.0))
    return l3(g.sun_vector()) + l3(g.moon_vector())


def sees(c, s, a):
    g = GCRF(Epoch(a[6]), V3(a), V3(a, 3))
    g.use_perturbations = False
    sc = Spacecraft(g)
    before = l3(sc.sun_vector()) + l3(sc.moon_vector())
    sc.step_to_epoch(Epoch(a[7]))
    return before + l3(sc.sun_vector()) + l3(sc.moon_vector()) + l3(sc.earth_vector())


OPS = {
    "obliquity": lambda c, s, a: [Earth.obliquity_of_ecliptic_at_epoch(Epoch(a[0]))],
    "precession": lambda c, s, a: rows(Earth.precession(Epoch(a[0]))),
    "nutation": lambda c, s, a: rows(Earth.nutation(Epoch(a[0]))),
    "rotation": lambda c, s, a: rows(Earth.rotation(Epoch(a[0]))),
    "gcrf.mod": conv(G.to_mod), "gcrf.tod": conv(G.to_tod), "gcrf.itrf": conv(G.to_itrf), "gcrf.ijk": conv(G.to_ijk),
    "itrf.tod": conv(T.to_tod), "itrf.mod": conv(T.to_mod), "itrf.gcrf": conv(T.to_gcrf), "itrf.ijk": conv(T.to_ijk),
    "roundtrip": roundtrip, "star": star,
    "moon": lambda c, s, a: l3(Moon.get_position(Epoch(a[0]))),
    "sun": lambda c, s, a: l3(Sun.get_position(Epoch(a[0]))),
    "vectors": vectors, "craft.sees": sees,
}
