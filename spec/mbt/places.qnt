// -*- mode: Bluespec; -*-
/// Behaviours for C04 (spherical, geodetic, topocentric) and C26 (ground observations).
module places {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import celestial.* from "../celestial"
  import positions.* from "../positions"
  import gen.* from "../gen"
  var cases: List[Case]
  var geo: Geo
  var point: V3

  /// geodetic coordinates: all latitudes with poles and equator favoured
  pure def gGeo(u: int, k: int): Geo = {
    val c = draw(u, k) % 10
    val lat = if (c == 0) 0
              else if (c == 1) dsgn(u, k + 1, grid(HALF_PI, 50))
              else if (c == 2) dsgn(u, k + 1, grid(HALF_PI, 44) - dlog(u, k + 2, 6, 30))
              else if (c == 3) dsgn(u, k + 1, dlog(u, k + 2, 4, 30))
              else dr(u, k + 2, 44, -D(157, 2), D(157, 2))
    val alt = if (draw(u, k + 3) % 5 == 0) 0
              else if (draw(u, k + 3) % 2 == 0) dr(u, k + 4, 30, I(-5), I(9))
              else if (draw(u, k + 3) % 5 == 1) dr(u, k + 4, 30, I(2000), I(50000))
              else dr(u, k + 4, 30, 0, I(2000))
    (lat, gTurn(u, k + 5), alt)
  }
  /// conditioning of the geodetic inversion (radians, see DESIGN.md): the closed form loses digits near equator and poles
  pure def tLat(g: Geo): int = {
    val near = imax(imin(iabs(sin(g._1)), iabs(cos(g._1))), ten(9))
    if (g._3 < I(2001)) imin(D(8, 6), div(ten(11), near)) else imin(D(5, 5), div(D(5, 10), near))
  }
  pure def tGeo(g: Geo): int = mul(tLat(g), RE + g._3) + ten(9)
  pure def tAlt(g: Geo): int = ten(9) + mul(RE + g._3, sq(tLat(g)))
  pure def spherical(p: V3): List[Case] = {
    val s = toSpherical(p)
    val rho = isqrt(p._1 * p._1 + p._2 * p._2)
    [case("spherical.from", vl(p), [
       oR(s._1, ulps(8, s._1)),
       if (rho == 0) oX else oZ(s._2, ten(14)),
       oR(s._3, ten(14))]),
     case("spherical.roundtrip", vl(p), oV(p, ulps(40, s._1)))]
  }
  pure def sphericalTo(u: int, k: int): Case = {
    val s = (dlog(u, k, -16, 10), gTurn(u, k + 1), dr(u, k + 8, 44, -D(157, 2), D(157, 2)))
    val p = fromSpherical(s)
    case("spherical.to", [s._1, s._2, s._3], oV(p, ulps(20, s._1)).concat(
      [oR(s._1, ulps(20, s._1)), oa(s._2, ten(11)), oR(s._3, ten(11))]))
  }
  pure def geodetic(g: Geo): List[Case] = {
    val p = fromGeodetic(g)
    val a = [g._1, g._2, g._3]
    val polar = iabs(cos(g._1)) < ten(9)
    [case("lla.itrf", a, oV(p, ulps(60, RE + g._3))),
     // back: altitude is always well conditioned, the horizontal position by regime
     case("lla.roundtrip", a, [oR(g._3, tAlt(g)), oR(g._1, tLat(g)),
                               // the longitude does not depend on the latitude found
                               if (polar) oX else oA(g._2, div(ten(14), iabs(cos(g._1))) + ten(13))])]
  }
  /// in the equatorial plane and on the polar axis the geodetic coordinates are elementary
  pure def onPlane(u: int, k: int): List[Case] = {
    val rho = RE + (if (dchance(u, k, 1, 2)) dr(u, k + 1, 20, I(-5), I(2000)) else dr(u, k + 1, 20, I(2000), I(50000)))
    val d = if (dchance(u, k + 2, 1, 2)) dpick(u, k + 3, [EX, EY, vneg(EX), vneg(EY)])
            else { val e = sincos(dr(u, k + 3, 40, 0, TWO_PI)) (e._2, e._1, 0) }
    val p = vgrid(vscale(d, rho), 30)
    val b = RE - mul(FLAT, RE)
    val z = dsgn(u, k + 4, grid(rho, 20))
    [case("itrf.lla", vl(p), [oR(0, ten(12)), oZ(wrap(atan2(p._2, p._1)), ten(14)), oR(mag(p) - RE, ten(9))]),
     case("itrf.lla", [0, 0, z], [oR(if (z > 0) HALF_PI else -HALF_PI, ten(4)), oX, oR(iabs(z) - b, D(1, 4))])]
  }
  pure def cartesianGeodetic(p: V3, t: int): Case =
    case("itrf.roundtrip", vl(p), oV(p, t))
  pure def local(g: Geo, d: V3): List[Case] = {
    val a = [g._1, g._2, g._3]
    val p = fromGeodetic(g)
    val q = vadd(p, fromEnz(g, d))
    val qd = vgrid(q, 30)
    [case("enz.matrix", [g._2, g._1], oRs(ml(enzRows(g._2, g._1)), ten(14))),
     case("enz.to_itrf", a.concat(vl(d)), oV(fromEnz(g, d), ulps(30, mag(d)))),
     case("site.enz", a.concat(vl(qd)), oV(toEnz(g, qd), ulps(60, mag(qd) + RE))),
     case("site.roundtrip", a.concat(vl(d)), oV(d, ulps(100, mag(d) + mag(p)))),
     case("site.fields", a, oEs([g._1, g._2]).concat(oV(p, ulps(60, RE + g._3))))]
  }
  pure def siteFromItrf(g: Geo): Case = {
    val p = vgrid(fromGeodetic(g), 30)
    case("site.from_itrf", vl(p), oV(p, tGeo(g)))
  }
  action go = {
    nondet u = oneOf(0.to(2^64))
    val g = gGeo(u, 1)
    val p = gPos(u, 30)
    val d = gVec(u, 50, dlog(u, 49, -15, 4), 30)
    all {
      geo' = g, point' = p,
      cases' = spherical(p).concat(spherical(gVec(u, 60, dlog(u, 59, -16, 6), 34))).concat(
        [sphericalTo(u, 70), siteFromItrf(g),
         cartesianGeodetic(p, tGeo((toSpherical(p)._3, 0, mag(p) - RE)) + ten(8))])
        .concat(geodetic(g)).concat(local(g, d)).concat(onPlane(u, 140)),
    }
  }
  action init = go
  action step = go
  val laws = {
    val m = enzRows(geo._2, geo._1)
    val h = ten(12)
    val p = fromGeodetic(geo)
    val dz = vsub(fromGeodetic((geo._1, geo._2, geo._3 + h)), p)
    val dn = vsub(fromGeodetic((geo._1 + h, geo._2, geo._3)), p)
    and {
      vinf(vsub(mm(m, mT(m))._1, EX)) < ten(40), vinf(vsub(mm(m, mT(m))._2, EY)) < ten(40),
      iabs(det(m) - S) < ten(40),
      // the axes are tangent to the coordinate lines
      mag(vsub(unit(dz), m._3)) < ten(10), iabs(dot(unit(dn), m._1)) < ten(8), dot(unit(dn), m._2) > D(99999999, 8),
      vinf(vsub(fromSpherical(toSpherical(point)), point)) < ten(25),
    }
  }
}

module observing {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import inertial.* from "../inertial"
  import positions.* from "../positions"
  import gen.* from "../gen"
  var cases: List[Case]
  var seen: (int, int, int)

  /// a site on the ground, all quadrants, one in four near or on equator and poles
  pure def gSite(u: int, k: int): Geo = {
    val c = draw(u, k + 9) % 12
    val lat = if (c == 0) 0 else if (c == 1) dsgn(u, k, dlog(u, k + 1, 4, 30)) else if (c == 2) dsgn(u, k, grid(HALF_PI, 44) - dlog(u, k + 1, 5, 30))
              else dsgn(u, k, dr(u, k + 1, 44, D(1, 1), D(14, 1)))
    (lat, gTurn(u, k + 2), dr(u, k + 8, 30, D(-4, 1), I(9)))
  }
  /// the latitude the observation finds for its site is as good as the geodetic inversion
  pure def tSite(g: Geo): int = imin(D(8, 6), div(ten(11), imax(imin(iabs(sin(g._1)), iabs(cos(g._1))), ten(9))))
  // first order nutation: a few 1e-9 of the geocentric distance
  pure def look(g: Geo, p: PV, v: int): List[Case] = {
    val itrf = gcrfToItrf(p.r, v)
    val d = toEnz(g, itrf)
    val ae = azElRange(d)
    val t = mul(mag(p.r), D(2, 8))
    val ta = div(t, ae._3)
    val ce = imax(cos(ae._2), ten(6))
    val a = [g._1, g._2, g._3].concat(vl(p.r)).concat(vl(p.v)).append(v)
    [case("site.look", a, [
       // straight up or down the azimuth is not defined
       if (ce < ten(4)) oX else oA(ae._1, div(ta, ce)), oR(ae._2, ta), oR(ae._3, t)].concat(oV(d, t)).concat(
         // the observation leads back to the object, in both inertial frames
         oV(p.r, 3 * t + mul(ae._3, tSite(g)) + ten(8))).concat(oV(gcrfToIjk(p.r, v), t + mul(ae._3, tSite(g)) + ten(8))).concat(
         // errors reported by a perfect observation, its epoch, the observer's position
         [oE(0), oE(0), oE(v)]).concat(oV(fromGeodetic(g), ten(8))).concat([oE(g._1), oE(g._2), oE(0), oE(0), oE(0)])),
     case("site.look_itrf", a, [oR(ae._3, t + mul(RE, tSite(g)))].concat(oV(d, t + mul(ae._3 + RE, tSite(g)))).concat(oV(p.r, 3 * t + mul(2 * ae._3 + RE, tSite(g)) + ten(8))))]
  }
  /// one site watches a spacecraft that flies on (two-body) between two looks
  pure def watch(g: Geo, u: int, k: int): Case = {
    val near = gCircular(u, k)
    // one in four on an orbit nine times as large
    val p = if (dchance(u, k + 23, 1, 4)) { r: vgrid(vscale(near.r, I(9)), 26), v: vgrid(vdivi(near.v, 3), 40) } else near
    val v = gEpoch12(u, k + 20)
    val days = dsgn(u, k + 21, di(u, k + 22, 1, 60) * S / 4096)
    val s = toEpoch({ t: v, r: p.r, v: p.v, pert: false }, v + days)
    val seen1 = azElRange(toEnz(g, gcrfToItrf(p.r, v)))
    val seen2 = azElRange(toEnz(g, gcrfToItrf(s.r, v + days)))
    val risky = { val q = fmod(iabs(days) * SECONDS_IN_DAY, MAX_STEP) (q < ten(2) or MAX_STEP - q < ten(2)) }
    val t = mul(mag(s.r), D(4, 8)) + D(3, 4)
    // the end epoch is right to 2e-5 s or so
    val views = [(seen1, v, mul(mag(p.r), D(2, 8))), (seen2, v + days, t)]
    case("site.watch", [g._1, g._2, g._3].concat(vl(p.r)).concat(vl(p.v)).concat([v, v + days]),
      views.foldl([], (acc, w) => acc.concat(if (risky) [oX, oX, oX, oX] else {
        val ta = div(w._3, w._1._3)
        val ce = imax(cos(w._1._2), ten(6))
        List(if (ce < ten(4)) oX else oA(w._1._1, div(ta, ce)), oR(w._1._2, ta), oR(w._1._3, w._3), oR(w._2, ten(9)))
      })))
  }
  /// an observation built from angles and range
  pure def fromAngles(g: Geo, u: int, k: int, v: int): Case = {
    val az = gTurn(u, k)
    val el = dr(u, k + 6, 44, -D(15, 1), D(15, 1))
    val r = dlog(u, k + 7, -15, -8)
    val er = dlog(u, k + 8, 0, 10)
    val ea = dlog(u, k + 9, 10, 20)
    val d = fromAzElRange(az, el, r)
    val q = vadd(fromGeodetic(g), fromEnz(g, d))
    val t = mul(mag(q), D(2, 8)) + mul(r, tSite(g)) + ten(8)
    case("obs.angles", [g._1, g._2, g._3, v, az, el, r, er, ea],
      [oA(az, ten(12)), oR(el, ten(12)), oR(r, ulps(40, r)), oE(er), oE(ea)].concat(oV(d, ulps(40, r)))
        .concat(oV(itrfToGcrf(q, v), t)).concat(oV(itrfToIjk(q, v), t)))
  }
  /// a space based observation: spherical angles of the direction, and where it leads
  pure def fromSpace(p: PV, d: V3, v: int, u: int, k: int): Case = {
    val s = toSpherical(d)
    val er = dlog(u, k, 0, 10)
    val ea = dlog(u, k + 1, 10, 20)
    val rho = isqrt(d._1 * d._1 + d._2 * d._2)
    case("obs.space", vl(p.r).concat(vl(p.v)).concat(vl(d)).concat([v, er, ea]),
      [oR(s._1, ulps(8, s._1)), if (rho == 0) oX else oZ(s._2, ten(14)), oR(s._3, ten(14)), oE(er), oE(ea), oE(v)]
        .concat(oV(gcrfToIjk(vadd(p.r, d), v), mul(mag(p.r) + mag(d), D(2, 8)))).concat(oEs(vl(p.r))).concat(oEs(vl(d))))
  }
  action go = {
    nondet u = oneOf(0.to(2^64))
    val g = gSite(u, 1)
    val v = gEpoch(u, 20)
    val p = gState(u, 30, 70)
    // half of the time place the spacecraft over the site
    val over = vgrid(itrfToGcrf(vadd(fromGeodetic(g), fromEnz(g, gVec(u, 70, dr(u, 69, 20, I(300), I(40000)), 30))), v), 30)
    val q = if (dchance(u, 80, 1, 2) and mag(over) > I(6400)) { ...p, r: over } else p
    all {
      seen' = azElRange(toEnz(g, gcrfToItrf(q.r, v))),
      cases' = look(g, q, v).concat([watch(g, u, 130), fromAngles(g, u, 90, v), fromSpace(p, gVec(u, 110, dlog(u, 109, -14, 4), 30), v, u, 120)]),
    }
  }
  action init = go
  action step = go
  val laws = and { seen._1 >= 0, seen._1 < TWO_PI, iabs(seen._2) <= HALF_PI + 10, seen._3 > 0 }
}
