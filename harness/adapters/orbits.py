import math

from adapters.algebra import V3, l3
from core import Context as Ctx  # noqa: F401
from openspace.bodies.celestial import Earth
from openspace.coordinates.elements import ClassicalElements
from openspace.coordinates.positions import PositionConvert
from openspace.coordinates.states import GCRF, IJK
from openspace.estimation.iod import Gauss
from openspace.estimation.obs import Observation, SpaceObservation
from openspace.math.functions import EquationsOfMotion as Q
from openspace.math.functions import Radius
from openspace.math.linalg import Vector3D
from openspace.planning.maneuvers import Hohmann, VisViva
from openspace.time import Epoch


def elements(k):
    return [k.semimajor_axis, k.eccentricity, k.inclination, k.raan, k.argument_of_perigee, k.mean_anomaly]


def el(a, v=0.0):
    return ClassicalElements(Epoch(v), *a[:6])


def to_ijk(c, s, a):
    x = el(a, a[6]).to_ijk()
    return l3(x.position) + l3(x.velocity) + [x.epoch.value]


def from_ijk(c, s, a):
    k = ClassicalElements.from_ijk(IJK(Epoch(a[6]), V3(a), V3(a, 3)))
    return elements(k) + [k.epoch.value]


def roundtrip(c, s, a):
    x = ClassicalElements.from_ijk(IJK(Epoch(a[6]), V3(a), V3(a, 3))).to_ijk()
    return l3(x.position) + l3(x.velocity)


def axes(c, s, a):
    k = el(a)
    return l3(k.perigee_vector()) + l3(k.semilatus_rectum_vector())


def kback(c, s, a):
    ea = Q.EA.from_ma_e(a[0], a[1])
    return [ea, ea - a[1] * math.sin(ea)]


def loop(c, s, a):
    return [Q.MA.from_ea_e(Q.EA.from_ma_e(a[0], a[1]), a[1])]


def same3(x):
    return [x, x, x]


class Fix(Observation):
    """a position measurement"""

    def __init__(self, r, v):
        self.r, self.v = r, v

    def ijk_position(self):
        return self.r.copy()

    def epoch(self):
        return Epoch(self.v)


def fixed(a):
    return Fix(V3(a), a[6]), Fix(V3(a, 3), a[7])


def spaced(a):
    """the same positions seen from a spacecraft elsewhere"""
    out = []
    for r, v in ((V3(a), a[6]), (V3(a, 3), a[7])):
        e = Epoch(v)
        # inverse of the inertial-to-equatorial conversion, by the transposed linear map
        cols = [PositionConvert.gcrf.to_ijk(Vector3D(*[float(i == j) for i in range(3)]), e) for j in range(3)]
        from openspace.math.linalg import Matrix3D

        m = Matrix3D(*cols).transpose().inverse()
        g = m.multiply_vector(r)
        obs = Vector3D(-7000.0, 9000.0, 4000.0)
        out.append(SpaceObservation(GCRF(e, obs, Vector3D(1.0, 2.0, 3.0)), g.minus(obs), 0, 0))
    return out


def gauss(get):
    def run(c, s, a):
        k = Gauss.coes_from_positions(*get(a))
        x = k.to_ijk()
        return elements(k) + [k.epoch.value] + l3(x.position) + l3(x.velocity)

    return run


def hohmann(c, s, a):
    h = Hohmann(a[0], a[1])
    t = (a[0] + a[1]) / 2
    return [h.initial_velocity, h.transfer_velocity_1, h.transfer_velocity_2, h.final_velocity, h.delta_v_1, h.delta_v_2,
            VisViva.circular_velocity(a[0]), VisViva.eccentric_velocity(a[0], t), VisViva.eccentric_velocity(a[1], t),
            VisViva.circular_velocity(a[1])]


def fn(f):
    return lambda c, s, a: [f(*a)]


OPS = {
    "elements.to_ijk": to_ijk, "elements.from_ijk": from_ijk, "elements.roundtrip": roundtrip, "elements.axes": axes,
    "kepler": fn(Q.EA.from_ma_e), "kepler.back": kback, "nu": fn(Q.NU.from_e_ea), "ma": fn(Q.MA.from_ea_e), "anomaly.loop": loop,
    "ea.state": fn(Q.EA.from_rdv_r_a_n), "argp": fn(Q.W.from_u_nu),
    "incl": lambda c, s, a: same3(Q.I.from_w(V3(a))),
    "raan": lambda c, s, a: [Q.RAAN.from_w(V3(a))],
    "arglat": lambda c, s, a: [Q.U.from_r_w(V3(a), V3(a, 3))],
    "E.from_a_c": fn(Q.E.from_a_c), "E.from_a_b": fn(Q.E.from_a_b), "E.from_a_p": fn(Q.E.from_a_p),
    "F.from_a_b": fn(Q.F.from_a_b), "A.from_mu_n": fn(Q.A.from_mu_n), "A.from_mu_tau": fn(Q.A.from_mu_tau),
    "A.from_mu_r_v": fn(Q.A.from_mu_r_v), "B.from_a_e": fn(Q.B.from_a_e), "P.from_a_b": fn(Q.P.from_a_b),
    "P.from_a_e": fn(Q.P.from_a_e), "P.from_mu_h": fn(Q.P.from_mu_h), "H.from_r_v_phi": fn(Q.H.from_r_v_phi),
    "H.from_mu_p": fn(Q.H.from_mu_p), "H.from_r_v": lambda c, s, a: l3(Q.H.from_r_v(V3(a), V3(a, 3))),
    "R.from_p_e_nu": fn(Radius.from_p_e_nu), "XI.from_mu_r_v": fn(Q.XI.from_mu_r_v), "XI.from_mu_a": fn(Q.XI.from_mu_a),
    "V.from_a_mu_r": fn(Q.V.from_a_mu_r), "V.from_mu_r_xi": fn(Q.V.from_mu_r_xi), "V.from_mu_r_e_nu": fn(Q.V.from_mu_r_e_nu),
    "TAU.from_a_mu": fn(Q.TAU.from_a_mu), "N.from_a_mu": fn(Q.N.from_a_mu), "N.from_tau": fn(Q.N.from_tau),
    "geo": lambda c, s, a: [Earth.geo_radius()], "hohmann": hohmann,
    "gauss": gauss(fixed), "gauss.space": gauss(spaced),
}
