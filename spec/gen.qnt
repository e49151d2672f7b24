// -*- mode: Bluespec; -*-
/// Structured inputs derived from raw draws.  All results are exactly
/// representable as doubles.
module gen {
  import real.* from "./real"
  import linalg.* from "./linalg"
  import timesys.* from "./timesys"
  import celestial.* from "./celestial"
  import orbit.* from "./orbit"

  /// an epoch between 1941 and 2105, rarely between 1859 and 2269
  pure def gEpoch(u: int, k: int): int =
    if (dchance(u, k, 1, 8)) I(di(u, k + 1, 30000, 90000))
    else if (draw(u, k) % 13 == 5) dr(u, k + 1, 30, I(400), I(150000))
    else if (draw(u, k) % 11 == 3) grid(I(51544) + S / 2 + dsgn(u, k + 1, dlog(u, k + 2, -7, 24)), 30)
    else if (dchance(u, k, 1, 2)) dr(u, k + 1, 30, I(51544), I(62000))
    else dr(u, k + 1, 30, I(30000), I(90000))
  /// an epoch on the grid 2^-12 day (21.09 s), 1995-2050
  pure def gEpoch12(u: int, k: int): int = dr(u, k, 12, I(49718), I(69807))

  /// an angle in [0, 2 pi); quadrant boundaries are favoured
  pure def gAngle(u: int, k: int): int = {
    val c = draw(u, k) % 16
    if (c == 0) grid((draw(u, k + 1) % 4) * HALF_PI, 44)
    else if (c == 1) grid(wrap((draw(u, k + 1) % 4) * HALF_PI + dsgn(u, k + 2, dlog(u, k + 3, 8, 24))), 44)
    else if (c == 2) grid(wrap((draw(u, k + 1) % 4) * HALF_PI + dsgn(u, k + 2, dlog(u, k + 3, 25, 42))), 44)
    else dr(u, k + 1, 44, 0, TWO_PI - ten(10))
  }
  /// the same angles counted from -2 pi to 2 pi
  pure def gTurn(u: int, k: int): int = if (dchance(u, k + 4, 1, 3)) gAngle(u, k) - grid(TWO_PI, 44) else gAngle(u, k)
  /// a direction: generic, in a coordinate plane, on an axis, or nearly so
  pure def gDir(u: int, k: int): V3 = {
    val c = draw(u, k) % 10
    val g = (dr(u, k + 1, 20, -S, S), dr(u, k + 2, 20, -S, S), dr(u, k + 3, 20, -S, S))
    val ax = dpick(u, k + 4, [EX, EY, EZ, vneg(EX), vneg(EY), vneg(EZ)])
    if (c == 0) ax
    else if (c == 1) vadd(ax, vdivi(g, 1000))
    else if (c == 2) dpick(u, k + 4, [(g._1, g._2, 0), (g._1, 0, g._3), (0, g._2, g._3)])
    else g
  }
  pure def nonZero(v: V3): V3 = if (dot(v, v) < S / 64) (S, S / 3, -S / 5) else v
  /// a vector of length about r in some direction
  pure def gVec(u: int, k: int, r: int, bits: int): V3 =
    vgrid(vscale(unit(nonZero(gDir(u, k))), r), bits)
  /// a radius from low orbit to beyond geostationary
  pure def gRadius(u: int, k: int): int = {
    val c = draw(u, k) % 4
    if (c == 0) dr(u, k + 1, 20, I(6500), I(8500))
    else if (c == 1) dr(u, k + 1, 20, I(42000), I(42400))
    else dr(u, k + 1, 20, I(6600), I(60000))
  }
  /// the same, and up to the Moon
  pure def gWide(u: int, k: int): int = if (draw(u, k + 2) % 3 == 0) dr(u, k + 3, 20, I(6400), I(400000)) else gRadius(u, k)
  pure def gPos(u: int, k: int): V3 = gVec(u, k + 3, gRadius(u, k), 30)

  /// an orbit; perigee stays above 6500 km.  emax in percent
  pure def gOrbit(u: int, k: int, emaxPct: int): Elem = {
    val c = draw(u, k) % 8
    val e0 = if (c == 0) dlog(u, k + 1, 5, 20) else dr(u, k + 1, 40, D(1, 3), D(emaxPct, 2))
    val rp = if (draw(u, k + 2) % 3 == 0) dr(u, k + 3, 20, I(6500), I(7500)) else dr(u, k + 3, 20, I(6600), I(43000))
    val a0 = grid(div(rp, S - e0), 20)
    val ci = draw(u, k + 4) % 8
    val i = if (ci == 0) dlog(u, k + 5, 6, 14)
            else if (ci == 1) grid(PI, 44) - dlog(u, k + 5, 6, 14)
            else if (ci == 2) grid(HALF_PI, 44) + dsgn(u, k + 6, dlog(u, k + 5, 4, 20))
            else dr(u, k + 5, 44, D(5, 2), D(309, 2))
    { a: a0, e: grid(e0, 40), i: i, O: gAngle(u, k + 7), w: gAngle(u, k + 11), M: gAngle(u, k + 15) }
  }
  /// a bound Cartesian state on the double grid
  pure def gState(u: int, k: int, emaxPct: int): PV = {
    val p = toCartesian(gOrbit(u, k, emaxPct))
    { r: vgrid(p.r, 30), v: vgrid(p.v, 40) }
  }
  /// a near-circular state of low, medium or high orbit
  pure def gCircular(u: int, k: int): PV = {
    val a = gRadius(u, k)
    val p = toCartesian({ a: a, e: dr(u, k + 3, 40, 0, D(2, 2)), i: dr(u, k + 4, 40, D(5, 2), D(3, 0)),
                          O: gAngle(u, k + 5), w: gAngle(u, k + 9), M: gAngle(u, k + 13) })
    { r: vgrid(p.r, 30), v: vgrid(p.v, 40) }
  }
}
