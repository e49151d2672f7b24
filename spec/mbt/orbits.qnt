// -*- mode: Bluespec; -*-
/// Behaviours for C05 (elements), C06 (Kepler), C07 (relations), C25 (orbit from two positions).
module elements {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import gen.* from "../gen"
  var cases: List[Case]
  var orb: Elem
  var st: PV

  pure def args(k: Elem): List[int] = [k.a, k.e, k.i, k.O, k.w, k.M]
  pure def tR(k: Elem): int = div(mul(k.a, D(4, 14)), S - k.e)
  pure def tV(k: Elem): int = div(div(D(5, 13), S - k.e), S - k.e)

  pure def forward(k: Elem, v: int): Case = {
    val p = toCartesian(k)
    case("elements.to_ijk", args(k).append(v), oV(p.r, tR(k)).concat(oV(p.v, tV(k))).append(oE(v)))
  }
  /// elements of a state; angles that the geometry does not define are not predicted
  pure def backward(p: PV, v: int): Case = {
    val k = toElements(p)
    val ro = div(S, S - k.e)
    val te = div(mul(ten(13), ro), imax(k.e, ten(7)))
    val tw = div(mul(te, ro), imax(k.e, ten(7))) + ten(12)
    val si = sin(k.i)
    val flat = si < ten(3)
    val round = k.e < ten(2)
    case("elements.from_ijk", vl(p.r).concat(vl(p.v)).append(v), [
      oR(k.a, mul(mul(k.a, ro), D(2, 13))), oR(k.e, imin(te, D(5, 7))), oR(k.i, D(2, 7)),
      if (flat) oX else oA(k.O, div(ten(12), si)),
      if (flat or round) oX else oA(k.w, tw + div(ten(12), si)),
      if (round) oX else oA(k.M, tw),
      // the argument of latitude at epoch is defined even for circular orbits
      oE(v)])
  }
  pure def roundtrip(p: PV, v: int): Case = {
    val e = toElements(p).e
    val t = if (e < ten(2)) mul(mag(p.r), D(2, 7)) else mul(mag(p.r), div(D(1, 10), mul(e, S - e)))
    case("elements.roundtrip", vl(p.r).concat(vl(p.v)).append(v),
         oV(p.r, t).concat(oV(p.v, div(mul(t, mag(p.v)), mul(mag(p.r), imax(ten(2), S - e))))))
  }
  /// in-plane unit vectors
  pure def axes(k: Elem): Case = {
    val f = perifocal(k.i, k.O, k.w)
    case("elements.axes", args(k), oV(f._1, ten(13)).concat(oV(f._2, ten(13))))
  }
  pure def special(u: int, k: int): PV = {
    // exactly equatorial or polar, exactly circular to the precision of doubles
    val r = gRadius(u, k)
    val vc = sqrt(div(MU, r))
    val sp = grid(mul(vc, dr(u, k + 3, 20, D(9, 1), D(11, 1))), 40)
    val c = draw(u, k + 4) % 10
    val d = dsgn(u, k + 5, S)
    // in the equatorial plane, either way round, and tilted by any small angle
    val f = sincos(gAngle(u, k + 6))
    val g = sincos(dr(u, k + 12, 40, -D(5, 1), D(5, 1)))
    val tilt = if (c > 7) 0 else dlog(u, k + 13, 6, 50)
    if (c > 5) {
      val er = (f._2, f._1, 0)
      val et = vscale((-f._1, f._2, 0), d)
      val p = vgrid(vscale(er, r), 30)
      val q = vgrid(vscale(vadd(vscale(er, g._1), vscale(et, g._2)), sp), 40)
      { r: (p._1, p._2, mul(dr(u, k + 14, 10, I(-7000), I(7000)), tilt)), v: (q._1, q._2, mul(dr(u, k + 15, 10, I(-7), I(7)), tilt)) }
    }
    else if (c == 0) { r: (r, 0, 0), v: (0, sp, 0) }
    else if (c == 1) { r: (0, -r, 0), v: (0, 0, sp) }
    else if (c == 2) { r: (0, 0, r), v: (sp, 0, 0) }
    else if (c == 3) { r: (-r, 0, 0), v: (0, sp, 0) }
    else if (c == 4) { r: (r, 0, 0), v: (0, 0, grid(vc, 40)) }
    else { r: (0, r, 0), v: (-grid(vc, 40), 0, 0) }
  }
  /// angles on any revolution of either sign, eccentricities close to one
  pure def wild(u: int, k: int): Elem = {
    val o = gOrbit(u, k, 95)
    val e = if (dchance(u, k + 30, 1, 2)) o.e else grid(S - dlog(u, k + 31, 4, 10), 44)
    { ...o, e: e, O: dr(u, k + 32, 40, I(-20), I(20)), w: dr(u, k + 33, 40, I(-20), I(20)), M: dr(u, k + 34, 40, I(-40), I(40)) }
  }
  /// an angle that is nothing is zero, not a full turn
  pure def zeros(u: int): List[Case] = {
    val y = dr(u, 300, 30, ten(3), S)
    val z = dr(u, 301, 30, -S, S)
    [case("raan", [0, -y, z], [oE(0)]),
     case("arglat", [dr(u, 302, 30, I(1000), I(50000)), 0, 0, 0, -y, z], [oE(0)]),
     case("argp", [S + z, S + z], [oE(0)])]
  }
  action go = {
    nondet u = oneOf(0.to(2^64))
    val k = gOrbit(u, 1, 95)
    val y = wild(u, 150)
    val v = gEpoch(u, 60)
    val p = gState(u, 70, 98)
    val q = special(u, 110)
    all {
      orb' = k, st' = p,
      cases' = [forward(k, v), axes(k), forward(y, v), axes(y), backward(p, v), roundtrip(p, v), roundtrip(q, v), roundtrip(gCircular(u, 130), v)].concat(zeros(u)),
    }
  }
  action init = go
  action step = go
  val laws = {
    val p = toCartesian(orb)
    val k = toElements(st)
    val q = toCartesian(k)
    and {
      iabs(energy(p) + div(MU, 2 * orb.a)) < ten(25),
      iabs(mag(vcross(p.r, p.v)) - sqrt(mul(MU, mul(orb.a, S - sq(orb.e))))) < ten(25),
      iabs(keplerResidual(orb.M, orb.e, eccAnomaly(orb.M, orb.e))) < ten(35),
      vinf(vsub(q.r, st.r)) < ten(15), vinf(vsub(q.v, st.v)) < ten(15),
    }
  }
}

module kepler {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import gen.* from "../gen"
  var cases: List[Case]
  var me: (int, int)

  pure def gEcc(u: int, k: int): int = {
    val c = draw(u, k) % 6
    if (c == 0) 0 else if (c == 1) dlog(u, k + 1, 5, 40)
    else if (c == 2) grid(S - dlog(u, k + 1, 7, 8), 40) - S / 100
    else dr(u, k + 1, 40, 0, D(98, 2))
  }
  /// anomalies over two revolutions, clustered at 0, pi and 2 pi
  pure def gMean(u: int, k: int): int = {
    val c = draw(u, k) % 5
    if (c == 0) grid((draw(u, k + 1) % 5 - 2) * PI, 44)
    else if (c == 1) imin(TWO_PI - ten(10), imax(-TWO_PI + ten(10), grid((draw(u, k + 1) % 5 - 2) * PI + dsgn(u, k + 2, dlog(u, k + 3, 1, 30)), 44)))
    else if (c == 2) dr(u, k + 1, 44, -I(70), I(70))
    else dr(u, k + 1, 44, -D(62831, 4), D(62831, 4))
  }
  /// eccentricities up to the last doubles below one
  pure def gExtreme(u: int, k: int): int = grid(S - dlog(u, k, 2, 48), 53)
  /// where the root itself is ill conditioned: the equation must still hold, and the solver must still stop
  pure def solveExtreme(u: int, k: int): Case = {
    val c = draw(u, k) % 4
    // near perigee, where the square of the eccentric anomaly is about 1 - e, rounding of the equation
    // exceeds any tolerance on the next step
    val d = dlog(u, k + 12, 22, 40)
    val e = if (c >= 2) grid(S - d, 53) else gExtreme(u, k + 10)
    val M = if (c == 0) gMean(u, k + 1)
            else if (c == 1) grid((draw(u, k + 5) % 5 - 2) * TWO_PI + dsgn(u, k + 6, dlog(u, k + 7, 1, 50)), 51)
            else grid(dsgn(u, k + 6, mul(mul(d, sqrt(d)), dlog(u, k + 7, -3, 3))), 80)
    case("kepler.back", [M, e], [oA(0, TWO_PI), oa(M, D(2, 13) + iabs(M) / 10^13)])
  }
  pure def solve(M: int, e: int): Case = {
    val E = eccAnomaly(M, e)
    val t = ten(12) + div(D(3, 14), S - mul(e, cos(E)))
    case("kepler", [M, e], [oA(E, t)])
  }
  pure def anomalies(u: int, e: int): List[Case] = {
    val E = gAngle(u, 30)
    val M = E - mul(e, sin(E))
    val nu = trueAnomaly(e, E)
    val t = ten(13) + div(ten(14), S - e)
    val E2 = -dr(u, 40, 44, 0, PI)
    val E3 = dr(u, 45, 40, -I(70), I(70))
    [case("nu", [e, E], [oA(nu, t)]), case("nu", [e, E3], [oA(trueAnomaly(e, wrap(E3)), 10 * t)]), case("ma", [E, e], [oA(M, ten(13))]),
     case("ma", [E2, e], [oA(E2 - mul(e, sin(E2)), ten(13))]),
     case("ma", [E3, e], [oA(E3 - mul(e, sin(E3)), ten(13))]),
     // mean -> eccentric -> mean, and consistency of true anomaly through radius
     case("anomaly.loop", [wrap(grid(M, 44)), e], [oa(grid(M, 44), ten(11))])]
  }
  pure def fromState(u: int): Case = {
    val k = gOrbit(u, 50, 90)
    val p = toCartesian(k)
    val E = eccAnomaly(k.M, k.e)
    val n = grid(meanMotion(k.a), 60)
    // arguments on the double grid; sensitivity 1/e
    val rdv = grid(dot(p.r, p.v), 30)
    val r = grid(mag(p.r), 30)
    if (k.e < ten(2)) case("ea.state", [0, I(3), I(4), S], [oA(0, ten(12))])
    else case("ea.state", [rdv, r, k.a, n], [oA(atan2(div(rdv, mul(sq(k.a), n)), S - div(r, k.a)), ten(13))])
  }
  pure def angles(u: int): List[Case] = {
    val a = gAngle(u, 70)
    val b = gAngle(u, 75)
    val r = gVec(u, 80, S, 40)
    val w = gVec(u, 90, S, 40)
    val wu = if (w == V0) EZ else w
    val ru = if (r == V0) EX else r
    val node = (-wu._2, wu._1, 0)
    val rho = isqrt(wu._1 * wu._1 + wu._2 * wu._2)
    // a position in the plane normal to w
    val pl = vgrid(vcross(wu, ru), 40)
    val du = mul(node._1, pl._1) + mul(node._2, pl._2)
    val y = pl._3
    [case("argp", [a, b], [oA(a - b, ten(13))]),
     case("incl", vl(wu), [oR(atan2(rho, wu._3), ten(13)), oG(0, 0), oL(PI, ten(14))]),
     case("raan", vl(wu), [if (rho == 0) oX else oA(atan2(wu._1, -wu._2), ten(13))]),
     case("arglat", vl(pl).concat(vl(wu)),
          [if (iabs(y) < ten(9) and iabs(du) < ten(9)) oX else oA(atan2(y, du), div(ten(13), imax(ten(9), isqrt(y * y + du * du))))])]
  }
  /// an angle that is nothing is zero, not a full turn
  pure def zeros(u: int): List[Case] = {
    val y = dr(u, 300, 30, ten(3), S)
    val z = dr(u, 301, 30, -S, S)
    val x = dr(u, 302, 30, ten(3), I(50000))
    val a = gAngle(u, 303)
    [case("raan", [0, -y, z], [oE(0)]),
     case("arglat", [x, 0, 0, 0, -y, z], [oE(0)]),
     case("argp", [a, a], [oE(0)]),
     case("nu", [dr(u, 308, 40, 0, D(98, 2)), 0], [oE(0)]),
     case("ma", [0, dr(u, 309, 40, 0, D(98, 2))], [oE(0)]),
     case("ea.state", [0, x, 2 * x, ten(3)], [oE(0)])]
  }
  action go = {
    nondet u = oneOf(0.to(2^64))
    val e = gEcc(u, 1)
    val M = gMean(u, 10)
    all { me' = (M, e), cases' = [solve(M, e), solve(gMean(u, 20), gEcc(u, 25)), solveExtreme(u, 200), solveExtreme(u, 220), fromState(u)].concat(anomalies(u, e)).concat(angles(u)).concat(zeros(u)) }
  }
  action init = go
  action step = go
  val laws = and {
    me._2 >= 0, me._2 < S,
    iabs(keplerResidual(me._1, me._2, eccAnomaly(me._1, me._2))) < ten(35),
    // half a turn maps to half a turn, and the true anomaly is on the same side
    { val E = eccAnomaly(me._1, me._2)
      iabs(sin(E)) < ten(6) or isign(sin(trueAnomaly(me._2, E))) == isign(sin(E)) },
  }
}

module relations {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import gen.* from "../gen"
  var cases: List[Case]
  var ell: (int, int)

  pure def rel(x: int): int = ulps(60, x)
  action go = {
    nondet u = oneOf(0.to(2^64))
    val e = dr(u, 1, 40, 0, D(97, 2))
    val a = if (dchance(u, 2, 1, 3)) dlog(u, 3, -18, -2) else grid(div(gRadius(u, 3), S - e), 20)
    val mu = if (dchance(u, 7, 1, 2)) MU else dpick(u, 8, [MU_MOON, MU_SUN, I(42828), I(di(u, 9, 1, 1000000))])
    val nu = gAngle(u, 12)
    val root = sqrt(S - sq(e))
    val b = mul(a, root)
    val bd = grid(b, 30)
    val p = mul(a, S - sq(e))
    val pd = grid(p, 30)
    val c = mul(a, e)
    val cd = grid(c, 30)
    val n = sqrt(div(mu, cube(a)))
    val nd = grid(n, 70)
    val tau = mul(TWO_PI, sqrt(div(cube(a), mu)))
    val taud = grid(tau, 20)
    val cnu = cos(nu)
    val r = div(p, S + mul(e, cnu))
    val rd = grid(r, 30)
    val v2 = mul(mu, div(2 * S, rd) - div(S, a))
    val v = sqrt(v2)
    val vd = grid(v, 40)
    val h = sqrt(mul(mu, p))
    val hd = grid(h, 20)
    val xi = -div(mu, 2 * a)
    val xid = grid(xi, 40)
    val phi = dr(u, 20, 40, -D(15, 1), D(15, 1))
    val sr = gPos(u, 30)
    val sv = gVec(u, 50, dr(u, 49, 30, I(1), I(10)), 40)
    val ro = div(S, S - e)
    val ee = imax(e, ten(7))
    all {
      ell' = (a, e),
      cases' = [
        case("E.from_a_c", [a, cd], [oR(div(cd, a), rel(S))]),
        case("E.from_a_b", [a, imin(a, bd)], [oR(sqrt(S - sq(div(imin(a, bd), a))), imin(ten(7), div(ten(14), ee)))]),
        case("E.from_a_p", [a, imin(a, pd)], [oR(sqrt(S - div(imin(a, pd), a)), imin(ten(7), div(ten(14), ee)))]),
        case("F.from_a_b", [a, bd], [oR(div(a - bd, a), rel(S))]),
        case("A.from_mu_n", [mu, nd], [oR(cbrt(div(div(mu, nd), nd)), rel(mul(a, S + S)))]),
        case("A.from_mu_tau", [mu, taud], [oR(cbrt(mul(mu, sq(div(taud, TWO_PI)))), rel(2 * a))]),
        case("A.from_mu_r_v", [mu, rd, vd], [oR(div(S, div(2 * S, rd) - div(sq(vd), mu)), mul(rel(2 * a), 2 * ro))]),
        case("B.from_a_e", [a, e], [oR(b, mul(rel(a), ro))]),
        case("P.from_a_b", [a, bd], [oR(div(sq(bd), a), rel(a))]),
        case("P.from_a_e", [a, e], [oR(p, rel(a))]),
        case("P.from_mu_h", [mu, hd], [oR(div(sq(hd), mu), rel(2 * p))]),
        case("H.from_r_v_phi", [rd, vd, phi], [oR(mul(mul(rd, vd), cos(phi)), rel(mul(rd, vd)))]),
        case("H.from_mu_p", [mu, pd], [oR(sqrt(mul(mu, pd)), rel(2 * h))]),
        case("H.from_r_v", vl(sr).concat(vl(sv)), oV(vcross(sr, sv), rel(mul(mag(sr), mag(sv))))),
        case("R.from_p_e_nu", [pd, e, nu], [oR(div(pd, S + mul(e, cnu)), mul(rel(2 * r), ro))]),
        case("XI.from_mu_r_v", [mu, rd, vd], [oR(sq(vd) / 2 - div(mu, rd), rel(div(mu, rd)))]),
        case("XI.from_mu_a", [mu, a], [oR(xi, rel(xi))]),
        case("V.from_a_mu_r", [a, mu, rd], [oR(v, mul(rel(v), div(sq(ro), imax(ten(6), div(v2, div(mu, rd))))))]),
        case("V.from_mu_r_xi", [mu, rd, xid], [oR(sqrt(imax(0, 2 * (div(mu, rd) + xid))), mul(rel(v), div(sq(ro), imax(ten(6), div(v2, div(mu, rd))))))]),
        case("V.from_mu_r_e_nu", [mu, rd, e, nu],
             [oR(sqrt(mul(div(mu, rd), 2 * S - div(S - sq(e), S + mul(e, cnu)))), mul(rel(v), mul(sq(ro), ro)))]),
        case("TAU.from_a_mu", [a, mu], [oR(tau, rel(tau))]),
        case("N.from_a_mu", [a, mu], [oR(n, rel(n))]),
        case("N.from_tau", [taud], [oR(div(TWO_PI, taud), rel(div(TWO_PI, taud)))]),
        case("geo", [], [oR(cbrt(mul(MU, sq(div(SIDEREAL_DAY, TWO_PI)))), ten(7))]),
        {
          // a Hohmann transfer between two radii, either way
          val r1 = gWide(u, 70)
          val r2 = gWide(u, 74)
          val t = (r1 + r2) / 2
          val v1 = sqrt(div(MU, r1))
          val v2c = sqrt(div(MU, r2))
          val t1 = sqrt(mul(MU, div(2 * S, r1) - div(S, t)))
          val t2 = sqrt(mul(MU, div(2 * S, r2) - div(S, t)))
          case("hohmann", [r1, r2], oRs([v1, t1, t2, v2c, t1 - v1, v2c - t2], ten(13)).concat(
            oRs([v1, t1, t2, v2c], ten(13))))
        }],
    }
  }
  action init = go
  action step = go
  val laws = {
    val a = ell._1
    val e = ell._2
    val p = mul(a, S - sq(e))
    and {
      // perigee and apogee radii add up to the major axis
      iabs(div(p, S + e) + div(p, S - e) - 2 * a) < mul(a, ten(30)) + ten(30),
      iabs(mul(sqrt(div(MU, cube(a))), period(a)) - TWO_PI) < mul(period(a), ten(40)) + ten(30),
    }
  }
}

module gauss {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import gen.* from "../gen"
  var cases: List[Case]
  var arc: (int, int)

  /// The specification picks an orbit, a start and an arc; it predicts that the
  /// elements of that very orbit come back.
  pure def recover(u: int, kind: str): Case = {
    val kg = gOrbit(u, 1, 90)
    // one orbit in eight lies exactly in the equator, prograde or retrograde
    val k0 = if (dchance(u, 60, 1, 8)) { ...kg, i: if (dchance(u, 61, 1, 2)) 0 else PI } else kg
    val n = meanMotion(k0.a)
    // arc of true anomaly 0.2..119 degrees, crossing apses and nodes at will
    val E1 = eccAnomaly(k0.M, k0.e)
    val nu1 = trueAnomaly(k0.e, E1)
    val dnu = if (dchance(u, 40, 1, 8)) dr(u, 41, 30, D(35, 4), D(35, 3)) else if (dchance(u, 42, 1, 4)) dr(u, 41, 30, D(35, 3), D(2, 1)) else dr(u, 41, 30, D(2, 1), D(208, 2))
    val nu2 = nu1 + dnu
    val f = (S - k0.e)
    val E2a = 2 * atan2(mul(sqrt(f), sin(nu2 / 2)), mul(sqrt(S + k0.e), cos(nu2 / 2)))
    val M2a = E2a - mul(k0.e, sin(E2a))
    val M1 = E1 - mul(k0.e, sin(E1))
    val dM = wrap(M2a - M1)
    // times on the dyadic grid so that both epochs are exact doubles
    val t1 = gEpoch(u, 50)
    val days = grid(div(dM, n) / SECONDS_IN_DAY, 30)
    val days1 = if (days <= 0) S / 2^30 else days
    val t2 = t1 + days1
    val M2 = k0.M + mul(n, days1 * SECONDS_IN_DAY)
    val p1 = toCartesian(k0)
    val p2 = toCartesian({ ...k0, M: M2 })
    val q1 = vgrid(p1.r, 30)
    val q2 = vgrid(p2.r, 30)
    // conditioning: short arcs amplify the 1e-9 km grid of the positions
    val amp = div(D(6, 12), mul(dnu, S - k0.e))
    val te = imax(k0.e, ten(6))
    val si = imax(sin(k0.i), ten(6))
    case(kind, vl(q1).concat(vl(q2)).concat([t1, t2]), [
      oR(k0.a, mul(mul(k0.a, div(amp, mul(S - k0.e, S - k0.e))), S)),
      oR(k0.e, div(amp, S - k0.e)),
      oR(k0.i, amp),
      if (k0.e < D(3, 3) or si < ten(3)) oX else oA(k0.O, div(amp, si)),
      if (k0.e < D(3, 3) or si < ten(3)) oX else oA(k0.w, div(amp, mul(mul(te, si), S - k0.e))),
      if (k0.e < D(3, 3)) oX else oa(k0.M, div(amp, mul(te, S - k0.e))),
      oE(t1)]
      .concat(oV(p1.r, mul(k0.a, div(amp, S - k0.e)))).concat(oV(p1.v, div(div(10 * amp, S - k0.e), S - k0.e))))
  }
  action go = {
    nondet u = oneOf(0.to(2^64))
    all {
      arc' = (gOrbit(u, 1, 90).e, draw(u, 41)),
      cases' = [recover(u, "gauss"), recover(u / 3 + 7, "gauss"), recover(u / 5 + 11, "gauss.space")],
    }
  }
  action init = go
  action step = go
  val laws = arc._1 >= 0 and arc._1 <= D(9, 1)
}
