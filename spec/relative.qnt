// -*- mode: Bluespec; -*-
/// Relative motion: the curvilinear Hill frame and the Hill/Clohessy-Wiltshire
/// transition matrix.
module relative {
  import real.* from "./real"
  import linalg.* from "./linalg"
  import celestial.* from "./celestial"
  import orbit.* from "./orbit"

  /// radial, in-track, cross-track unit vectors of an orbit
  pure def ric(o: PV): M3 = {
    val r = unit(o.r)
    val c = unit(vcross(o.r, o.v))
    (r, vcross(c, r), c)
  }
  /// angular rate of the radial vector in the orbit plane
  pure def orbitRate(o: PV): int = div(mag(vcross(o.r, o.v)), dot(o.r, o.r))

  /// Curvilinear coordinates of s relative to o: radial separation, arc along
  /// the orbit, arc out of the plane (both at the radius of o), and their rates.
  pure def toHill(o: PV, s: PV): PV = {
    val f = ric(o)
    val q = mv(f, s.r)
    val w = mv(f, s.v)
    val ro = mag(o.r)
    val rs = mag(s.r)
    val flat2 = (q._1 * q._1 + q._2 * q._2) / S
    val flat = isqrt(q._1 * q._1 + q._2 * q._2)
    val lam = atan2(q._2, q._1)
    val phi = atan2(q._3, flat)
    val rdot = div(dot(q, w), rs)
    // derivatives of the angles along the motion
    val lamDot = div(mul(q._1, w._2) - mul(q._2, w._1), flat2)
    val phiDot = div(mul(w._3, flat) - mul(q._3, div(mul(q._1, w._1) + mul(q._2, w._2), flat)), sq(rs))
    { r: (rs - ro, mul(lam, ro), mul(phi, ro)),
      v: (rdot - div(dot(o.r, o.v), ro), mul(ro, lamDot - orbitRate(o)), mul(ro, phiDot)) }
  }
  pure def fromHill(o: PV, h: PV): PV = {
    val f = mT(ric(o))
    val ro = mag(o.r)
    val rs = ro + h.r._1
    val l = sincos(div(h.r._2, ro))
    val p = sincos(div(h.r._3, ro))
    val e = (mul(p._2, l._2), mul(p._2, l._1), p._1)
    // d e / d lambda and d e / d phi
    val el = (-mul(p._2, l._1), mul(p._2, l._2), 0)
    val ep = (-mul(p._1, l._2), -mul(p._1, l._1), p._2)
    val rdot = h.v._1 + div(dot(o.r, o.v), ro)
    val lamDot = div(h.v._2, ro) + orbitRate(o)
    val phiDot = div(h.v._3, ro)
    val v = vadd(vscale(e, rdot), vadd(vscale(el, mul(rs, lamDot)), vscale(ep, mul(rs, phiDot))))
    { r: mv(f, vscale(e, rs)), v: mv(f, v) }
  }

  /// transition matrix of x'' = 3n^2 x + 2n y', y'' = -2n x', z'' = -n^2 z
  pure def hill(n: int, t: int): Mat = {
    val a = mul(n, t)
    val p = sincos(a)
    val s = p._1
    val c = p._2
    [[4 * S - 3 * c, 0, 0, div(s, n), div(2 * (S - c), n), 0],
     [6 * (s - a), S, 0, -div(2 * (S - c), n), div(4 * s - 3 * a, n), 0],
     [0, 0, c, 0, 0, div(s, n)],
     [3 * mul(n, s), 0, 0, c, 2 * s, 0],
     [-6 * mul(n, S - c), 0, 0, -2 * s, 4 * c - 3 * S, 0],
     [0, 0, -mul(n, s), 0, 0, c]]
  }
  /// the generator of the flow
  pure def hillGenerator(n: int): Mat =
    [[0, 0, 0, S, 0, 0], [0, 0, 0, 0, S, 0], [0, 0, 0, 0, 0, S],
     [3 * sq(n), 0, 0, 0, 2 * n, 0], [0, 0, 0, -2 * n, 0, 0], [0, 0, -sq(n), 0, 0, 0]]
}
