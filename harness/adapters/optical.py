"""Detection and the optical model on real spacecraft and cameras."""
import math

from adapters.algebra import V3, l3
from adapters import fleets
from adapters.fleets import Ctx, snap  # noqa: F401
from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF
from openspace.hardware.constraints import OpticalConstraints
from openspace.hardware.payloads import Camera
from openspace.time import Epoch


def limits(cam):
    m = cam.limits
    return [m.sun_soft, m.earth, m.moon, m.vismag, m.bore, m.sun_hard]


def detect(c, s, a):
    me, it = c.f[int(s[1])], c.f[int(s[2])]
    it.body_radius, it.albedo, me.body_radius, me.albedo = a[:4]
    if s[0] == "camera":
        me.wfov = Camera(a[9], a[10])
    else:
        if s[0] != "own":  # else the camera it already has
            me.wfov = Camera.wfov()
        if s[0] != "default":
            m = me.wfov.limits
            m.sun_soft, m.earth, m.moon, m.vismag, m.bore = a[4:9]
    # limits that must not matter
    me.wfov.limits.sun_hard = a[11]
    n = me.nfov.limits
    n.sun_soft, n.earth, n.vismag, n.moon, n.bore = a[12], a[13], a[14], a[15], a[16]
    w = it.wfov.limits
    w.sun_soft, w.earth, w.vismag, w.moon, w.bore = a[16], a[15], a[14], a[13], a[12]
    before = [snap(x) for x in c.f], limits(me.wfov), limits(me.nfov)
    got = me.detect(it)
    return [got, before == ([snap(x) for x in c.f], limits(me.wfov), limits(me.nfov))]


def edge(c, s, a):
    me, it = c.f[int(s[1])], c.f[int(s[2])]
    it.body_radius, it.albedo = a
    me.wfov = Camera.wfov()
    m = me.wfov.limits
    m.sun_soft = m.earth = m.moon = -1.0
    m.bore = 7.0
    out = []
    for k in range(2):
        try:
            m.vismag = me.visual_magnitude(it)
        except ValueError:  # looking straight into the Sun
            return [None, None]
        if k:
            m.vismag = math.nextafter(m.vismag, -math.inf)
        out.append(me.detect(it))
    return out


def sight(c, s, a):
    me = Spacecraft(GCRF(Epoch(a[6]), V3(a), V3(a, 3)))
    it = Spacecraft(GCRF(Epoch(a[13]), V3(a, 7), V3(a, 10)))
    it.body_radius, it.albedo, me.body_radius, me.albedo = a[14:18]
    before = snap(me), snap(it)
    out = l3(me.target_vector(it)) + [me.range(it), me.sun_angle(it), me.earth_angle(it), me.moon_angle(it)]
    try:
        m = me.visual_magnitude(it)
    except ValueError:  # looking straight into the Sun: no reflected light at all
        m = None
    return out + [m, (snap(me), snap(it)) == before]


def camera(c, s, a):
    out = []
    for cam in (Camera(a[0], a[1]), Camera.wfov(), Camera.nfov()):
        out += [cam.pixels, cam.fov, cam.resolution(a[2]), cam.range_error(a[2], a[3]), cam.tracking_minimum(a[4]),
                cam.limits.characterization, cam.limits.bore]
    m = OpticalConstraints(a[0], a[1])
    return out + [m.sun_hard, m.sun_soft, m.moon, m.earth, m.vismag]


def body(c, s, a):
    x = Spacecraft(GCRF(Epoch(59000.0), V3(a), V3(a, 3)))
    x.body_radius, x.albedo, x.dry_mass, x.propellant_mass = a[6:10]
    return [x.area(), x.total_mass(), x.srp_scalar(), x.sma()]


OPS = dict(fleets.OPS, **{"detect.edge": edge}, detect=detect, sight=sight, camera=camera, body=body)
