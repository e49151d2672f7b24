// -*- mode: Bluespec; -*-
/// Numerical propagation of an inertial state: the classical fourth order
/// Runge-Kutta step, stepping to an epoch, and burning an engine.
module inertial {
  import real.* from "./real"
  import linalg.* from "./linalg"
  import timesys.* from "./timesys"
  import celestial.* from "./celestial"
  import forces.* from "./forces"

  /// t is the epoch (MJD)
  type Inertial = { t: int, r: V3, v: V3, pert: bool }
  /// a burning engine: unit direction (inertial), mass flow kg/s, mass kg, isp s
  type Engine = { on: bool, dir: V3, mdot: int, m: int, isp: int }
  pure val G0: int = D(981, 5)
  pure val OFF: Engine = { on: false, dir: V0, mdot: 0, m: S, isp: 0 }
  pure val MAX_STEP: int = I(300)

  /// thrust acceleration dt seconds into a step
  pure def thrustAt(g: Engine, dt: int): V3 =
    if (not(g.on)) V0
    else vscale(g.dir, div(mul(mul(g.mdot, g.isp), G0), g.m - mul(g.mdot, dt)))

  /// one step of h seconds; k is the radiation pressure coefficient
  pure def rk4(s: Inertial, g: Engine, h: int): Inertial = rk4k(s, g, h, 0)
  pure def rk4k(s: Inertial, g: Engine, h: int, k: int): Inertial = {
    val env = { pert: s.pert, srp: k }
    val hh = h / 2
    val t1 = s.t + hh / SECONDS_IN_DAY
    val t2 = s.t + h / SECONDS_IN_DAY
    val a1 = acceleration(s.r, s.t, thrustAt(g, 0), env)
    val v2 = vadd(s.v, vscale(a1, hh))
    val mid = thrustAt(g, hh)
    val a2 = acceleration(vadd(s.r, vscale(s.v, hh)), t1, mid, env)
    val v3 = vadd(s.v, vscale(a2, hh))
    val a3 = acceleration(vadd(s.r, vscale(v2, hh)), t1, mid, env)
    val v4 = vadd(s.v, vscale(a3, h))
    val a4 = acceleration(vadd(s.r, vscale(v3, h)), t2, thrustAt(g, h), env)
    val dr_ = vdivi(vadd(vadd(s.v, v4), vscale(vadd(v2, v3), 2 * S)), 6)
    val dv_ = vdivi(vadd(vadd(a1, a4), vscale(vadd(a2, a3), 2 * S)), 6)
    { t: t2, r: vadd(s.r, vscale(dr_, h)), v: vadd(s.v, vscale(dv_, h)), pert: s.pert }
  }

  /// number of equal steps of at most 300 s that cover dt seconds
  pure def stepsFor(dt: int): int = {
    val d = iabs(dt)
    (d + MAX_STEP - 1) / MAX_STEP
  }
  /// dt seconds in equal steps of at most 300 s, with a running engine
  pure def advanceWith(s: Inertial, g: Engine, dt: int): Inertial = {
    val n = stepsFor(dt)
    if (n == 0) s else {
      val h = dt / n
      val out = range(0, n).foldl((s, g), (p, _) =>
        (rk4(p._1, p._2, h), { ...p._2, m: p._2.m - mul(p._2.mdot, h) }))
      { ...out._1, t: s.t + dt / SECONDS_IN_DAY }
    }
  }
  pure def advance(s: Inertial, dt: int): Inertial = advanceWith(s, OFF, dt)
  pure def toEpoch(s: Inertial, t: int): Inertial = advance(s, (t - s.t) * SECONDS_IN_DAY)

  /// duration of a burn that yields dv km/s (Tsiolkovsky)
  pure def burnTime(dv: int, mdot: int, m: int, isp: int): int =
    mul(div(m, mdot), S - exp(-div(dv, mul(isp, G0))))

  /// burn: dv km/s along an inertially fixed direction
  pure def burn(s: Inertial, dv: V3, mdot: int, m: int, isp: int): Inertial =
    if (dv == V0) s
    else advanceWith(s, { on: true, dir: unit(dv), mdot: mdot, m: m, isp: isp },
                     burnTime(mag(dv), mdot, m, isp))
}
