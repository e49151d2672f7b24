// -*- mode: Bluespec; -*-
/// Behaviours for C03 (frames), C10 (Sun and Moon).
module frames {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import gen.* from "../gen"
  var now: int
  var pos: V3
  var cases: List[Case]

  // The nutation matrix is first order: a few 1e-9 of the length.
  pure def tf(r: V3): int = mul(mag(r), D(2, 8))
  pure def matrices(v: int): List[Case] = [
    case("obliquity", [v], [oR(obliquity(v), ten(12))]),
    case("precession", [v], oRs(ml(precession(v)), ten(11))),
    case("nutation", [v], oRs(ml(nutation(v)), D(2, 8))),
    case("rotation", [v], oRs(ml(rotation(v)), D(2, 9)))]
  pure def convert(r: V3, v: int): List[Case] = {
    val a = vl(r).append(v)
    [case("gcrf.mod", a, oV(gcrfToMod(r, v), mul(mag(r), ten(10)))),
     case("gcrf.tod", a, oV(gcrfToTod(r, v), tf(r))),
     case("gcrf.itrf", a, oV(gcrfToItrf(r, v), tf(r))),
     case("gcrf.ijk", a, oV(gcrfToIjk(r, v), tf(r))),
     case("itrf.tod", a, oV(itrfToTod(r, v), mul(mag(r), D(2, 9)))),
     case("itrf.mod", a, oV(itrfToMod(r, v), tf(r))),
     case("itrf.gcrf", a, oV(itrfToGcrf(r, v), tf(r))),
     case("itrf.ijk", a, oV(itrfToIjk(r, v), mul(mag(r), D(2, 9)))),
     // there and back, and the length, through the public conversions only
     case("roundtrip", a, oV(r, 3 * tf(r)).concat(oV(r, 3 * tf(r))).concat([oR(mag(r), 2 * tf(r)), oR(mag(r), 2 * tf(r))]))]
  }
  /// the equatorial frame keeps the angle between two positions and does not turn with the Earth
  pure def ijkFixed(r: V3, v: int, d: int): Case =
    // a star stays put: gcrf -> ijk of a fixed direction moves only by precession and nutation over d days
    case("star", vl(r).concat([v, d]), oV(gcrfToIjk(r, v), mul(mag(r), D(2, 7)) + mul(mul(mag(r), D(5, 6)), iabs(d))))
  action go(v: int, u: int): bool = {
    val r = if (dchance(u, 31, 1, 4)) gVec(u, 32, dr(u, 40, 20, I(300000), I(420000)), 30) else gPos(u, 32)
    all {
      now' = v, pos' = r,
      cases' = matrices(v).concat(convert(r, v)).append(ijkFixed(r, v, dr(u, 50, 10, I(-3), I(3)))),
    }
  }
  action init = { nondet u = oneOf(0.to(2^64)) go(gEpoch(u, 1), u) }
  action step = { nondet u = oneOf(0.to(2^64)) go(if (dchance(u, 5, 1, 2)) gEpoch(u, 1) else now + dr(u, 7, 30, I(-40), I(40)), u) }

  pure def orthonormal(m: M3, t: int): bool = {
    val p = mm(m, mT(m))
    vinf(vsub(p._1, EX)) <= t and vinf(vsub(p._2, EY)) <= t and vinf(vsub(p._3, EZ)) <= t and iabs(det(m) - S) <= t
  }
  val laws = and {
    orthonormal(precession(now), ten(40)),
    orthonormal(rotation(now), ten(40)),
    orthonormal(nutation(now), D(2, 8)),
    // the first order matrix approximates the rotation it stands for
    vinf(vsub(mv(nutation(now), EX), mv(nutationExact(now), EX))) <= D(2, 8),
    vinf(vsub(mv(nutation(now), EY), mv(nutationExact(now), EY))) <= D(2, 8),
    vinf(vsub(mv(nutation(now), EZ), mv(nutationExact(now), EZ))) <= D(2, 8),
    vinf(vsub(itrfToGcrf(gcrfToItrf(pos, now), now), pos)) <= mul(mag(pos), D(2, 8)),
  }
}

module bodies {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import inertial.* from "../inertial"
  import gen.* from "../gen"
  var now: int
  var cases: List[Case]
  pure val TM: int = D(2, 4)
  pure val TS: int = D(5, 3)
  pure def at(v: int, r: V3): List[Case] = {
    val m = moonPosition(v)
    val s = sunPosition(v)
    [case("moon", [v], oV(m, TM)), case("sun", [v], oV(s, TS)),
     case("vectors", vl(r).append(v), oV(vsub(s, r), TS).concat(oV(vsub(m, r), TM)))]
  }
  /// a spacecraft looks at its own epoch from its own position, before and after it has moved
  pure def seen(v: int, u: int): Case = {
    val p = gCircular(u, 60)
    val x = { t: v, r: p.r, v: p.v, pert: false }
    val t1 = grid(v, 30) + dsgn(u, 50, if (dchance(u, 51, 1, 2)) dlog(u, 52, 4, 16) else dr(u, 53, 20, 0, D(1, 1)))
    val y = toEpoch(x, t1)
    val dm = D(2, 2)
    case("craft.sees", vl(p.r).concat(vl(p.v)).concat([v, t1]),
      oV(vsub(sunPosition(v), p.r), TS).concat(oV(vsub(moonPosition(v), p.r), TM))
      .concat(oV(vsub(sunPosition(t1), y.r), dm)).concat(oV(vsub(moonPosition(t1), y.r), dm)).concat(oV(vneg(y.r), dm)))
  }
  action go(v: int, u: int): bool = all { now' = v,
    cases' = if (dchance(u, 48, 1, 4)) at(v, gPos(u, 20)).append(seen(grid(v, 30), u)) else at(v, gPos(u, 20)) }
  action init = { nondet u = oneOf(0.to(2^64)) go(gEpoch(u, 1), u) }
  action step = { nondet u = oneOf(0.to(2^64)) go(if (dchance(u, 5, 2, 3)) gEpoch(u, 1) else now + dr(u, 7, 30, I(-4), I(4)), u) }
  val laws = {
    val m = moonPosition(now)
    val s = sunPosition(now)
    val d = sincos(OBLIQUITY)
    and {
      mag(m) > I(354000), mag(m) < I(408000), mag(s) > I(147000000), mag(s) < I(152200000),
      // the Sun lies in the ecliptic; the Moon within 5.5 degrees of it
      iabs(mul(s._3, d._2) - mul(s._2, d._1)) < ten(20),
      iabs(mul(m._3, d._2) - mul(m._2, d._1)) < mul(mag(m), D(96, 3)),
    }
  }
}
