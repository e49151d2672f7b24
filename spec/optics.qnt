// -*- mode: Bluespec; -*-
/// What a spacecraft sees of another: geometry, brightness, cameras, limits.
module optics {
  import real.* from "./real"
  import linalg.* from "./linalg"
  import celestial.* from "./celestial"
  import orbit.* from "./orbit"
  import inertial.* from "./inertial"

  type Sphere = { rad: int, alb: int }               // body radius (km), albedo
  type Limits = { sun: int, earth: int, moon: int, mag: int, bore: int }
  type Cam = { pixels: int, fov: int }

  // ---- geometry ----------------------------------------------------------
  pure def line(a: Inertial, b: Inertial): V3 = vsub(b.r, a.r)
  pure def sunAngle(a: Inertial, b: Inertial): int = angle(vsub(sunPosition(a.t), a.r), line(a, b))
  pure def moonAngle(a: Inertial, b: Inertial): int = angle(vsub(moonPosition(a.t), a.r), line(a, b))
  pure def earthAngle(a: Inertial, b: Inertial): int = angle(vneg(a.r), line(a, b))
  pure def boreAngle(z: V3, a: Inertial, b: Inertial): int = angle(z, line(a, b))

  // ---- brightness of a diffuse sphere ------------------------------------
  pure val SUN_MAGNITUDE: int = -D(2674, 2)
  /// phase: zero when the Sun is behind the observer
  pure def phaseLaw(phi: int): int = { val p = sincos(phi) p._1 + mul(PI - phi, p._2) }
  pure def reflected(b: Sphere, d: int, phi: int): int = {
    // fraction of sunlight, scaled up by 2^200 so that faint objects keep their digits
    val q = b.rad * S * 2^100 / d
    mul(2 * b.alb / 3, div(mul(sq(q), phaseLaw(phi)), PI))
  }
  pure def magnitudeOf(b: Sphere, d: int, phi: int): int =
    SUN_MAGNITUDE - 5 * (log10(reflected(b, d, phi)) - 200 * div(LN2, LN10)) / 2
  pure def magnitudeSeen(a: Inertial, b: Inertial, body: Sphere): int =
    magnitudeOf(body, mag(line(a, b)), PI - sunAngle(a, b))

  // ---- cameras -----------------------------------------------------------
  pure def resolution(c: Cam, d: int): int = mul(tan(c.fov), d) / 2 * S / c.pixels
  pure def rangeError(c: Cam, d: int, width: int): int = mul(div(resolution(c, d), width), d)
  pure def trackingMinimum(c: Cam, r: int): int = div(r, tan(c.fov))
  pure def characterization(c: Cam): int = div(mul(D(2, 5), c.pixels), tan(c.fov))
  pure val WIDE: Cam = { pixels: I(3072), fov: rad(I(5)) }
  pure val NARROW: Cam = { pixels: I(3072), fov: rad(D(125, 3)) }
  pure def limitsOf(c: Cam): Limits = { sun: rad(I(90)), earth: rad(I(20)), moon: rad(I(10)), mag: I(15), bore: c.fov }

  // ---- detection ---------------------------------------------------------
  type Sighting = { sun: int, earth: int, moon: int, mag: int, bore: int }
  pure def sighting(z: V3, a: Inertial, b: Inertial, body: Sphere): Sighting =
    { sun: sunAngle(a, b), earth: earthAngle(a, b), moon: moonAngle(a, b), mag: magnitudeSeen(a, b, body), bore: boreAngle(z, a, b) }
  pure def detected(x: Sighting, l: Limits): bool =
    x.sun >= l.sun and x.earth >= l.earth and x.moon >= l.moon and x.mag <= l.mag and x.bore <= l.bore
  /// distance of the sighting from the nearest limit
  pure def clearance(x: Sighting, l: Limits): int =
    imin(iabs(x.sun - l.sun), imin(iabs(x.earth - l.earth), imin(iabs(x.moon - l.moon), imin(iabs(x.mag - l.mag), iabs(x.bore - l.bore)))))
}
