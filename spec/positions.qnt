// -*- mode: Bluespec; -*-
/// Spherical, geodetic and topocentric coordinates.
module positions {
  import real.* from "./real"
  import linalg.* from "./linalg"
  import celestial.* from "./celestial"

  /// (radius, right ascension in [0, 2 pi), declination)
  type Sph = (int, int, int)
  pure def toSpherical(p: V3): Sph = {
    val rho = isqrt(p._1 * p._1 + p._2 * p._2)
    (mag(p), wrap(atan2(p._2, p._1)), atan2(p._3, rho))
  }
  pure def fromSpherical(s: Sph): V3 = {
    val a = sincos(s._2)
    val d = sincos(s._3)
    (mul(s._1, mul(d._2, a._2)), mul(s._1, mul(d._2, a._1)), mul(s._1, d._1))
  }

  /// geodetic (latitude, longitude, altitude) to Earth fixed
  type Geo = (int, int, int)
  pure val ECC2: int = mul(FLAT, 2 * S - FLAT)
  pure def fromGeodetic(g: Geo): V3 = {
    val p = sincos(g._1)
    val l = sincos(g._2)
    val n = div(RE, sqrt(S - mul(ECC2, sq(p._1))))
    val rc = mul(n + g._3, p._2)
    (mul(rc, l._2), mul(rc, l._1), mul(mul(n, S - ECC2) + g._3, p._1))
  }
  /// unit vectors east, north, zenith at geodetic longitude and latitude: the
  /// derivatives of the position along the three geodetic coordinates
  pure def enzRows(lon: int, lat: int): M3 = {
    val l = sincos(lon)
    val p = sincos(lat)
    val z = (mul(p._2, l._2), mul(p._2, l._1), p._1)
    val e = (-l._1, l._2, 0)
    (e, vcross(z, e), z)
  }
  pure def toEnz(g: Geo, r: V3): V3 = mv(enzRows(g._2, g._1), vsub(r, fromGeodetic(g)))
  pure def fromEnz(g: Geo, d: V3): V3 = mv(mT(enzRows(g._2, g._1)), d)

  /// azimuth (from north, towards east), elevation, range of a topocentric vector
  pure def azElRange(d: V3): (int, int, int) = {
    val s = toSpherical((d._2, d._1, d._3))
    (s._2, s._3, s._1)
  }
  pure def fromAzElRange(az: int, el: int, r: int): V3 = {
    val n = fromSpherical((r, az, el))
    (n._2, n._1, n._3)
  }
}
