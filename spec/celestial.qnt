// -*- mode: Bluespec; -*-
/// The Earth, the Sun and the Moon (Montenbruck & Gill, "Satellite Orbits",
/// chapters 3 and 5).
module celestial {
  import real.* from "./real"
  import linalg.* from "./linalg"
  import timesys.* from "./timesys"

  // ---- constants ----------------------------------------------------------
  pure val MU: int = D(3986004418, 4)
  pure val RE: int = D(6378137, 3)
  pure val FLAT: int = div(S, D(2982572235, 7))
  pure val MU_SUN: int = D(1327124400419, 1)
  pure val MU_MOON: int = D(4902800305555, 9)
  pure val SUN_P: int = D(456, 8)
  pure val OBLIQUITY: int = rad(D(2343929111, 8))
  pure val SIDEREAL_DAY: int = D(86164090518, 6)
  pure val MOON_RADIUS: int = D(17374, 1)

  // ---- Earth orientation --------------------------------------------------
  /// mean obliquity of the ecliptic of date
  pure def obliquity(v: int): int = {
    val t = centuries(v)
    OBLIQUITY + arcsec(mul(-D(46815, 3) - mul(D(59, 5), t) + mul(D(1813, 6), sq(t)), t))
  }

  /// precession from J2000 to the mean equator and equinox of date:
  /// R3(-z) R2(theta) R3(-zeta)
  pure def precession(v: int): M3 = {
    val t = centuries(v)
    val t2 = sq(t)
    val t3 = mul(t2, t)
    val zeta = arcsec(mul(D(23062181, 4), t) + mul(D(30188, 5), t2) + mul(D(17998, 6), t3))
    val theta = arcsec(mul(D(20043109, 4), t) - mul(D(42665, 5), t2) - mul(D(41833, 6), t3))
    // z = zeta + 0.79280 T^2 + 0.000205 T^3 as the package writes it
    val z = zeta + arcsec(mul(D(7928, 4), t2) + mul(D(205, 6), t3))
    mm(R3(-z), mm(R2(theta), R3(-zeta)))
  }

  /// nutation in longitude and obliquity (two-term series, radians)
  pure def nutationAngles(v: int): (int, int) = {
    val d = daysSinceJ2000(v)
    val a1 = rad(I(125) - mul(D(5295, 5), d))
    val a2 = rad(D(2009, 1) + mul(D(197129, 5), d))
    val p1 = sincos(a1)
    val p2 = sincos(a2)
    (rad(mul(-D(48, 4), p1._1) - mul(D(4, 4), p2._1)),
     rad(mul(D(26, 4), p1._2) + mul(D(2, 4), p2._2)))
  }

  /// mean of date to true of date, first order in the nutation angles
  pure def nutation(v: int): M3 = {
    val n = nutationAngles(v)
    val e = sincos(obliquity(v))
    val x = mul(n._1, e._2)
    val y = mul(n._1, e._1)
    ((S, -x, -y), (x, S, -n._2), (y, n._2, S))
  }
  /// the rotation that nutation() approximates
  pure def nutationExact(v: int): M3 = {
    val n = nutationAngles(v)
    val e = obliquity(v)
    mm(R1(-e - n._2), mm(R3(-n._1), R1(e)))
  }

  /// apparent sidereal angle
  pure def gast(v: int): int = greenwich(v) + mul(nutationAngles(v)._1, cos(obliquity(v)))

  /// true of date to Earth fixed
  pure def rotation(v: int): M3 = R3(gast(v))

  pure def gcrfToMod(r: V3, v: int): V3 = mv(precession(v), r)
  pure def gcrfToTod(r: V3, v: int): V3 = mv(nutation(v), gcrfToMod(r, v))
  pure def gcrfToItrf(r: V3, v: int): V3 = mv(rotation(v), gcrfToTod(r, v))
  pure def itrfToTod(r: V3, v: int): V3 = mv(mT(rotation(v)), r)
  pure def itrfToMod(r: V3, v: int): V3 = mv(mT(nutation(v)), itrfToTod(r, v))
  pure def itrfToGcrf(r: V3, v: int): V3 = mv(mT(precession(v)), itrfToMod(r, v))
  pure def itrfToIjk(r: V3, v: int): V3 = mv(R3(-greenwich(v)), r)
  pure def gcrfToIjk(r: V3, v: int): V3 = itrfToIjk(gcrfToItrf(r, v), v)

  // ---- Sun and Moon -------------------------------------------------------
  pure def ecliptic(r: int, lon: int, lat: int): V3 = {
    val o = sincos(lon)
    val b = sincos(lat)
    val rc = mul(r, b._2)
    // turn about x by the obliquity
    val y = mul(rc, o._1)
    val z = mul(r, b._1)
    val e = sincos(OBLIQUITY)
    (mul(rc, o._2), mul(y, e._2) - mul(z, e._1), mul(y, e._1) + mul(z, e._2))
  }

  pure def sunPosition(v: int): V3 = {
    val t = centuries(v)
    val m = rad(D(3575256, 4) + mul(D(35999049, 3), t))
    val p = sincos(m)
    val s2 = 2 * mul(p._1, p._2)
    val c2 = S - 2 * sq(p._1)
    val lon = rad(D(28294, 2)) + m + arcsec(6892 * p._1 + 72 * s2)
    val r = D(149619, 3) - mul(D(2499, 3), p._2) - mul(D(21, 3), c2)
    ecliptic(1000000 * r, lon, 0)
  }

  /// fundamental arguments of the lunar theory: l0, l, l', F, D
  pure def moonArguments(v: int): (int, int, int, int, int) = {
    val t = centuries(v)
    (rad(D(21831617, 5) + mul(D(48126788088, 5) - D(13972, 4), t)),
     rad(D(13496292, 5) + mul(D(47719886753, 5), t)),
     rad(D(35752543, 5) + mul(D(3599904944, 5), t)),
     rad(D(9327283, 5) + mul(D(48320201873, 5), t)),
     rad(D(29785027, 5) + mul(D(44526711135, 5), t)))
  }
  /// arcsecond amplitudes and integer multiples of (l, l', F, D)
  pure val LON: List[(int, int, int, int, int)] = [
    (22640, 1, 0, 0, 0), (769, 2, 0, 0, 0), (-4586, 1, 0, 0, -2), (2370, 0, 0, 0, 2),
    (-668, 0, 1, 0, 0), (-412, 0, 0, 2, 0), (-212, 2, 0, 0, -2), (-206, 1, 1, 0, -2),
    (192, 1, 0, 0, 2), (-165, 0, 1, 0, -2), (148, 1, -1, 0, 0), (-125, 0, 0, 0, 1),
    (-110, 1, 1, 0, 0), (-55, 0, 0, 2, -2)]
  pure val LAT: List[(int, int, int, int, int)] = [
    (-526, 0, 0, 1, -2), (44, 1, 0, 1, -2), (-31, -1, 0, 1, -2), (-25, -2, 0, 1, 0),
    (-23, 0, 1, 1, -2), (21, -1, 0, 1, 0), (11, 0, -1, 1, -2)]
  pure val DIST: List[(int, int, int, int, int)] = [
    (-20905, 1, 0, 0, 0), (-3699, -1, 0, 0, 2), (-2956, 0, 0, 0, 2), (-570, 2, 0, 0, 0),
    (246, 2, 0, 0, -2), (-205, 0, 1, 0, -2), (-171, 1, 0, 0, 2), (-152, 1, 1, 0, -2)]
  pure def arg(k: (int, int, int, int, int), m: (int, int, int, int, int)): int =
    k._2 * m._2 + k._3 * m._3 + k._4 * m._4 + k._5 * m._5

  pure def moonPosition(v: int): V3 = {
    val m = moonArguments(v)
    val dl = arcsec(LON.foldl(0, (s, k) => s + k._1 * sin(arg(k, m))))
    val lon = m._1 + dl
    val q = arcsec(412 * sin(2 * m._4) + 541 * sin(m._3))
    val lat = arcsec(18520 * sin(m._4 + dl + q) + LAT.foldl(0, (s, k) => s + k._1 * sin(arg(k, m))))
    val r = DIST.foldl(I(385000), (s, k) => s + k._1 * cos(arg(k, m)))
    ecliptic(r, lon, lat)
  }
}
