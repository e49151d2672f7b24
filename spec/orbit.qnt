// -*- mode: Bluespec; -*-
/// Two-body orbits: element sets, anomalies, Kepler's equation.
module orbit {
  import real.* from "./real"
  import linalg.* from "./linalg"
  import celestial.* from "./celestial"

  /// a, e, i, raan, argument of perigee, mean anomaly
  type Elem = { a: int, e: int, i: int, O: int, w: int, M: int }
  type PV = { r: V3, v: V3 }

  /// Kepler's equation, M in any revolution; the root lies within e of M
  pure def eccAnomaly(M: int, e: int): int = {
    val m = wrapPi(M)
    // bisection to start (robust for every e < 1), then Newton
    val br = range(0, 12).foldl((m - e - 4, m + e + 4), (b, _) => {
      val c = (b._1 + b._2) / 2
      if (c - mul(e, sin(c)) < m) (c, b._2) else (b._1, c)
    })
    val E = range(0, 6).foldl((br._1 + br._2) / 2, (x, _) => {
      val p = sincos(x)
      val y = x - div(x - mul(e, p._1) - m, S - mul(e, p._2))
      // safeguard: stay in the bracket
      imax(br._1, imin(br._2, y))
    })
    E + (M - m)
  }
  pure def keplerResidual(M: int, e: int, E: int): int = E - mul(e, sin(E)) - M

  pure def trueAnomaly(e: int, E: int): int = {
    val p = sincos(E)
    atan2(mul(sqrt(S - sq(e)), p._1), p._2 - e)
  }

  /// unit vectors towards perigee, along the perigee velocity, and the normal
  pure def perifocal(i: int, O: int, w: int): M3 = {
    val n = rotate(EX, EZ, O)
    val h = rotate(EZ, n, i)
    val p = rotate(n, h, w)
    (p, vcross(h, p), h)
  }

  pure def toCartesian(k: Elem): PV = {
    val f = perifocal(k.i, k.O, k.w)
    val E = eccAnomaly(k.M, k.e)
    val p = sincos(E)
    val root = sqrt(S - sq(k.e))
    val n = sqrt(div(MU, cube(k.a)))
    val rr = S - mul(k.e, p._2)
    val c = div(mul(n, k.a), rr)
    { r: vadd(vscale(f._1, mul(k.a, p._2 - k.e)), vscale(f._2, mul(mul(k.a, root), p._1))),
      v: vadd(vscale(f._1, -mul(c, p._1)), vscale(f._2, mul(mul(c, root), p._2))) }
  }

  /// classical elements of a Cartesian state (eccentricity-vector form)
  pure def toElements(s: PV): Elem = {
    val r = mag(s.r)
    val h = vcross(s.r, s.v)
    val u = unit(h)
    val a = div(S, div(2 * S, r) - div(dot(s.v, s.v), MU))
    val ev = vsub(vscale(vcross(s.v, h), div(S, MU)), unit(s.r))
    val e = mag(ev)
    val node = if (u._1 == 0 and u._2 == 0) EX else unit((-u._2, u._1, 0))
    val i = atan2(isqrt(u._1 * u._1 + u._2 * u._2), u._3)
    val O = wrap(atan2(node._2, node._1))
    val w = wrap(atan2(dot(ev, vcross(u, node)), dot(ev, node)))
    val nu = atan2(dot(s.r, vcross(u, ev)), dot(s.r, ev))
    val E = atan2(mul(sqrt(S - sq(e)), sin(nu)), e + cos(nu))
    { a: a, e: e, i: i, O: O, w: w, M: wrap(E - mul(e, sin(E))) }
  }

  pure def energy(s: PV): int = dot(s.v, s.v) / 2 - div(MU, mag(s.r))
  pure def period(a: int): int = mul(TWO_PI, sqrt(div(cube(a), MU)))
  pure def meanMotion(a: int): int = sqrt(div(MU, cube(a)))
}
