from adapters.algebra import V3, l3, rows
from core import Context as Ctx  # noqa: F401
from openspace.bodies.artificial import Spacecraft
from openspace.bodies.terrestrial import GroundSite
from openspace.coordinates.positions import ENZ, LLA, PositionConvert, SphericalPosition
from openspace.coordinates.states import GCRF, ITRF
from openspace.estimation.obs import GroundObservation, SpaceObservation
from openspace.math.linalg import Vector3D
from openspace.time import Epoch


def sph_from(c, s, a):
    p = SphericalPosition.from_cartesian(V3(a))
    return [p.radius, p.right_ascension, p.declination]


def sph_round(c, s, a):
    return l3(SphericalPosition.from_cartesian(V3(a)).to_cartesian())


def sph_to(c, s, a):
    x = SphericalPosition(*a).to_cartesian()
    p = SphericalPosition.from_cartesian(x)
    return l3(x) + [p.radius, p.right_ascension, p.declination]


def lla_of(c, s, a):
    g = PositionConvert.itrf.to_lla(V3(a))
    return [g.latitude, g.longitude, g.altitude]


def lla_round(c, s, a):
    g = PositionConvert.itrf.to_lla(PositionConvert.lla.to_itrf(LLA(*a)))
    return [g.altitude, g.latitude, g.longitude]


def site_round(c, s, a):
    g = LLA(*a[:3])
    x = PositionConvert.enz.to_itrf(g, V3(a, 3)).plus(PositionConvert.lla.to_itrf(g))
    return l3(GroundSite(g).enz_position(x))


def site_fields(c, s, a):
    g = GroundSite(LLA(*a[:3]))
    return [g.latitude, g.longitude] + l3(g.itrf_position)


def look(c, s, a):
    g = GroundSite(LLA(*a[:3]))
    e = Epoch(a[9])
    sat = Spacecraft(GCRF(e, V3(a, 3), V3(a, 6)))
    o = g.angles_and_range(sat)
    return ([o.azimuth, o.elevation, o.range] + l3(o.observed_direction) + l3(o.gcrf_position()) + l3(o.ijk_position())
            + [o.range_error, o.angular_error, o.epoch().value] + l3(o.observer_state.position) + [g.latitude, g.longitude]
            + l3(o.observer_state.velocity))


def look_from_itrf(c, s, a):
    """the same site, known by its Earth-fixed position"""
    g = GroundSite.from_itrf_position(PositionConvert.lla.to_itrf(LLA(*a[:3])))
    o = g.angles_and_range(Spacecraft(GCRF(Epoch(a[9]), V3(a, 3), V3(a, 6))))
    return [o.range] + l3(o.observed_direction) + l3(o.gcrf_position())


def watch(c, s, a):
    g = GroundSite(LLA(*a[:3]))
    x = GCRF(Epoch(a[9]), V3(a, 3), V3(a, 6))
    x.use_perturbations = False
    sat = Spacecraft(x)
    out = []
    for t in a[9:11]:
        sat.step_to_epoch(Epoch(t))
        o = g.angles_and_range(sat)
        out += [o.azimuth, o.elevation, o.range, o.epoch().value]
    return out


def angles(c, s, a):
    site = ITRF.from_fixed(Epoch(a[3]), PositionConvert.lla.to_itrf(LLA(*a[:3])))
    o = GroundObservation.from_angles_and_range(site, a[4], a[5], a[6], a[7], a[8])
    return ([o.azimuth, o.elevation, o.range, o.range_error, o.angular_error] + l3(o.observed_direction)
            + l3(o.gcrf_position()) + l3(o.ijk_position()))


def space(c, s, a):
    o = SpaceObservation(GCRF(Epoch(a[9]), V3(a), V3(a, 3)), V3(a, 6), a[10], a[11])
    return ([o.range, o.right_ascension, o.declination, o.range_error, o.angular_error, o.epoch().value]
            + l3(o.ijk_position()) + l3(o.observer_state.position) + l3(o.observed_direction))


OPS = {
    "spherical.from": sph_from, "spherical.roundtrip": sph_round, "spherical.to": sph_to,
    "lla.itrf": lambda c, s, a: l3(PositionConvert.lla.to_itrf(LLA(*a))),
    "itrf.lla": lla_of, "lla.roundtrip": lla_round,
    "itrf.roundtrip": lambda c, s, a: l3(PositionConvert.lla.to_itrf(PositionConvert.itrf.to_lla(V3(a)))),
    "enz.matrix": lambda c, s, a: rows(ENZ.matrix(a[0], a[1])),
    "enz.to_itrf": lambda c, s, a: l3(PositionConvert.enz.to_itrf(LLA(*a[:3]), V3(a, 3))),
    "site.enz": lambda c, s, a: l3(GroundSite(LLA(*a[:3])).enz_position(V3(a, 3))),
    "site.roundtrip": site_round, "site.fields": site_fields,
    "site.from_itrf": lambda c, s, a: l3(GroundSite.from_itrf_position(V3(a)).itrf_position),
    "site.look": look, "site.look_itrf": look_from_itrf, "site.watch": watch, "obs.angles": angles, "obs.space": space,
}
