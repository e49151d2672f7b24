// -*- mode: Bluespec; -*-
/// Behaviours for C11 (forces), C12 (geopotential), C13 (one step), C14 (to an epoch).
module accel {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import forces.* from "../forces"
  import inertial.* from "../inertial"
  import relative.* from "../relative"
  import gen.* from "../gen"
  var cases: List[Case]
  var pos: V3
  var now: int

  pure def yes(b: bool): str = if (b) "1" else "0"
  /// size of the oblateness term, the unit of the gravity tolerance
  pure def j2size(r: V3): int = {
    val q = div(RE, mag(r))
    mul(mul(D(3, 3), sq(q)), div(div(MU, mag(r)), mag(r)))
  }
  pure def tGrav(r: V3): int = mul(j2size(r), D(4, 7))
  pure def tEarth(r: V3): int = mul(div(div(MU, mag(r)), mag(r)), ten(14))
  pure def tThird(mu: int, s: V3, r: V3): int = {
    val d = mag(s)
    val direct = div(div(mu, d), d)
    mul(direct, ten(13)) + mul(mul(direct, div(mag(r), d)), ten(8))
  }
  pure def tNet(r: V3, t: int, th: V3, pert: bool): int =
    tEarth(r) + mul(mag(th), ten(14)) + (if (pert) tGrav(r) + tThird(MU_SUN, sunPosition(t), r) + tThird(MU_MOON, moonPosition(t), r) + ten(20) else 0)
  /// not too close to the axis, where the code's spherical form is singular
  pure def offAxis(r: V3): V3 = {
    val f = isqrt(r._1 * r._1 + r._2 * r._2)
    if (f * 500 < iabs(r._3)) vadd(r, (I(40) + f, I(17), 0)) else r
  }
  pure def gThrust(u: int, k: int): V3 = if (dchance(u, k, 1, 3)) V0 else gVec(u, k + 1, dr(u, k + 6, 40, ten(7), ten(4)), 60)
  pure def terms(op: str, p: PV, t: int, th: V3, k: int, pert: bool): Case = {
    val r = p.r
    caseS(op, [yes(pert)], vl(r).concat(vl(p.v)).append(t).concat(vl(th)).append(k),
      oEs(vl(p.v)).concat(oV(acceleration(r, t, th, { pert: pert, srp: k }), tNet(r, t, th, pert) + mul(k, ten(19))))
      .concat(oV(aEarth(r), tEarth(r))).concat(oV(aMoon(r, t), tThird(MU_MOON, moonPosition(t), r)))
      .concat(oV(aSun(r, t), tThird(MU_SUN, sunPosition(t), r)))
      .concat(oV(aSrp(r, t, k), mul(k, ten(19)) + ten(30)))
      .concat(oV(th, ulps(2, mag(th)))))
  }

  // ---- the perturbation setting through a history ------------------------
  pure def applyOp(s: Inertial, m: int, op: str, x: V3): Inertial =
    if (op == "step") rk4(s, OFF, I(300))
    else if (op == "to") advance(s, x._1 * SECONDS_IN_DAY / 100)
    else if (op == "impulse") { ...s, v: vadd(s.v, mv(mT(ric({ r: s.r, v: s.v })), x)) }
    else if (op == "finite") burn(s, mv(mT(ric({ r: s.r, v: s.v })), x), D(3, 3), m, I(350))
    else s
  /// x._1 / 100 of a day for "to"; the components of the burn otherwise
  pure def gArg(u: int, k: int): V3 = vgrid((dr(u, k, 20, -ten(1), ten(1)), dr(u, k + 1, 20, -ten(1), ten(1)), dr(u, k + 2, 20, -ten(1), ten(1))), 20)
  pure def keeps(u: int, k: int): Case = {
    val p = gCircular(u, k)
    val t = gEpoch12(u, k + 20)
    val pert = dchance(u, k + 21, 1, 2)
    val ops = range(0, 3).foldl([], (acc, i) => acc.append(dpick(u, k + 22 + i, ["copy", "step", "impulse", "to", "finite", "step"])))
    val xs = range(0, 3).foldl([], (acc, i) => acc.append(
      if (ops[i] == "finite") vdivi(gArg(u, k + 30 + 3 * i), 16) else gArg(u, k + 30 + 3 * i)))
    // the spacecraft and its mass
    val s = range(0, 3).foldl(({ t: t, r: p.r, v: p.v, pert: pert }, I(800)), (st, i) => (
      applyOp(st._1, st._2, ops[i], xs[i]),
      if (ops[i] == "finite") st._2 - mul(D(3, 3), burnTime(mag(xs[i]), D(3, 3), st._2, I(350))) else st._2))._1
    val tn = tNet(s.r, s.t, V0, pert) + mul(div(div(div(MU, mag(s.r)), mag(s.r)), mag(s.r)), ten(3))
    caseS("keeps", [yes(pert)].concat(ops),
      vl(p.r).concat(vl(p.v)).append(t).concat(vl(xs[0])).concat(vl(xs[1])).concat(vl(xs[2])),
      oV(s.r, ten(3)).concat(oV(s.v, ten(6))).concat([oR(s.t, ten(9)), oB(pert)])
      // the force model in effect on the state itself, at the reported position
      .concat(oV(acceleration(s.r, s.t, V0, { pert: pert, srp: 0 }), tn)))
  }

  // ---- radiation pressure of a spacecraft ---------------------------------
  /// the coefficient follows from albedo, radius (km) and mass
  pure def srpOf(albedo: int, radius: int, mass: int): int =
    div(mul(mul(albedo + S, mul(PI, sq(radius))), I(1000000)), mass)
  pure def srpScalar(u: int, k: int): Case = {
    val al = dr(u, k, 20, 0, S)
    val rad_ = dr(u, k + 1, 30, ten(3), D(2, 2))
    val dry = dr(u, k + 2, 10, I(50), I(3000))
    val prop = dr(u, k + 3, 10, 0, I(1000))
    val x = srpOf(al, rad_, dry + prop)
    case("srp.scalar", [al, rad_, dry, prop], [oR(x, ulps(30, x)), oR(mul(PI, sq(rad_)), ulps(10, mul(PI, sq(rad_)))), oE(dry + prop)])
  }
  /// Known finding: the coefficient does not survive copies and steps.
  /// Predictions with it, followed by the exact behaviour without it.
  pure def srpKept(u: int, k: int, how: str): Case = {
    val p = gCircular(u, k)
    val q = offAxis(p.r)
    val t = gEpoch12(u, k + 20)
    val kk = dr(u, k + 21, 20, S, I(50))
    val s0 = { t: t, r: q, v: p.v, pert: true }
    val on = if (how == "step") rk4k(s0, OFF, I(300), kk) else s0
    val off = if (how == "step") rk4k(s0, OFF, I(300), 0) else s0
    val tn = 2 * tNet(q, t, V0, true)
    val tr = if (how == "step") ten(6) else ten(12)
    caseS("srp.kept", ["known:srp", how], vl(q).concat(vl(p.v)).concat([t, kk]),
      oV(on.r, tr).concat(oV(on.v, ten(9))).concat(oV(acceleration(on.r, on.t, V0, { pert: true, srp: kk }), tn))
      .concat(oV(off.r, tr)).concat(oV(off.v, ten(9))).concat(oV(acceleration(off.r, off.t, V0, { pert: true, srp: 0 }), tn)))
  }

  action go = {
    nondet u = oneOf(0.to(2^64))
    val far = dchance(u, 50, 1, 8)
    val p0 = if (dchance(u, 1, 1, 3)) gState(u, 2, 60) else { r: if (far) gVec(u, 5, dr(u, 51, 20, I(60000), I(330000)), 30) else gPos(u, 2), v: gVec(u, 12, I(5), 40) }
    val p = { r: offAxis(p0.r), v: p0.v }
    val t = gEpoch(u, 30)
    val k = if (dchance(u, 40, 1, 4)) 0 else dr(u, 41, 20, 0, I(200))
    all {
      pos' = p.r, now' = t,
      cases' = [terms("derivative", p, t, gThrust(u, 50), k, true), terms("derivative", p, t, gThrust(u, 60), k, false),
                terms("derivative.copy", p, t, gThrust(u, 50), 0, dchance(u, 70, 1, 2)),
                keeps(u, 100), srpScalar(u, 150), srpKept(u, 160, dpick(u, 159, ["copy", "step", "craft"]))],
    }
  }
  action init = go
  action step = go
  val laws = {
    val s = sunPosition(now)
    // tidal terms vanish at the centre of the Earth and are odd to first order
    val small = vdivi(pos, 1000)
    and {
      vinf(aThird(MU_SUN, s, V0)) <= 10,
      vinf(vadd(aThird(MU_SUN, s, small), aThird(MU_SUN, s, vneg(small)))) <= mul(vinf(aThird(MU_SUN, s, small)), ten(3)) + ten(30),
      iabs(dot(aEarth(pos), pos) + div(MU, mag(pos))) <= ten(30),
    }
  }
}

module geopotential {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import forces.* from "../forces"
  import gen.* from "../gen"
  var cases: List[Case]
  var fixed_: V3

  pure def j2size(r: V3): int = {
    val q = div(RE, mag(r))
    mul(mul(D(3, 3), sq(q)), div(div(MU, mag(r)), mag(r)))
  }
  /// Earth-fixed positions: any longitude, latitudes up to 89.9 degrees
  pure def gFixed(u: int, k: int): V3 = {
    val r = if (dchance(u, k, 1, 2)) dr(u, k + 1, 20, I(6378), I(8000)) else gRadius(u, k + 1)
    val lat = if (dchance(u, k + 5, 1, 8)) 0
              else if (dchance(u, k + 5, 1, 4)) dsgn(u, k + 6, HALF_PI - dlog(u, k + 7, 4, 8))
              else dsgn(u, k + 6, dr(u, k + 7, 30, 0, D(15, 1)))
    val lon = gAngle(u, k + 8)
    val a = sincos(lat)
    val b = sincos(lon)
    (mul(r, mul(a._2, b._2)), mul(r, mul(a._2, b._1)), mul(r, a._1))
  }
  action go = {
    nondet u = oneOf(0.to(2^64))
    val t = gEpoch(u, 30)
    val x = gFixed(u, 1)
    val r = vgrid(itrfToGcrf(x, t), 30)
    val y = if (dchance(u, 60, 1, 6)) gVec(u, 53, dr(u, 61, 20, I(60000), I(450000)), 30) else gPos(u, 50)
    val q = if (isqrt(y._1 * y._1 + y._2 * y._2) * 500 < iabs(y._3)) r else y
    all {
      fixed_' = x,
      cases' = [case("gravity", vl(r).append(t), oV(aGravity(r, t), mul(j2size(r), D(8, 8)))),
                case("gravity", vl(q).append(t), oV(aGravity(q, t), mul(j2size(q), D(8, 8)))),
                // the same place on Earth feels the same acceleration in Earth-fixed axes at any time
                case("gravity.fixed", vl(r).append(t), oV(geoDegrees(gcrfToItrf(r, t), 2), mul(j2size(r), D(8, 8))))],
    }
  }
  action init = go
  action step = go
  /// the acceleration is the gradient of the potential, which is harmonic
  pure def diff(p: V3, d: V3): int = {
    val h = S / 2^24
    (geoPotential(vadd(p, vdivi(d, 2^24)), 2) - geoPotential(vsub(p, vdivi(d, 2^24)), 2)) * 2^23
  }
  pure def second(p: V3, d: V3): int =
    (geoPotential(vadd(p, vdivi(d, 2^10)), 2) + geoPotential(vsub(p, vdivi(d, 2^10)), 2) - 2 * geoPotential(p, 2)) * 2^20
  val laws = {
    val a = geoDegrees(fixed_, 2)
    val t = mul(j2size(fixed_), ten(14))
    and {
      iabs(diff(fixed_, EX) - a._1) <= t, iabs(diff(fixed_, EY) - a._2) <= t, iabs(diff(fixed_, EZ) - a._3) <= t,
      iabs(second(fixed_, EX) + second(fixed_, EY) + second(fixed_, EZ)) <= mul(div(j2size(fixed_), mag(fixed_)), ten(10)),
    }
  }
}

module onestep {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import forces.* from "../forces"
  import inertial.* from "../inertial"
  import gen.* from "../gen"
  var cases: List[Case]
  var cur: Inertial

  pure def yes(b: bool): str = if (b) "1" else "0"
  pure def gSize(u: int, k: int): int = {
    val c = draw(u, k) % 6
    if (c == 0) I(dpick(u, k + 1, [300, -300, 60, -60, 600, 1]))
    else if (c == 1) dsgn(u, k + 1, dr(u, k + 2, 10, I(300), I(900)))
    else if (c == 2) dsgn(u, k + 1, dr(u, k + 2, 20, ten(2), I(3)))
    else dsgn(u, k + 1, dr(u, k + 2, 10, I(3), I(300)))
  }
  pure def gEngine(u: int, k: int): Engine =
    if (dchance(u, k, 1, 3)) OFF
    else { on: true, dir: gVec(u, k + 1, dr(u, k + 12, 20, ten(3), S), 40), mdot: dr(u, k + 6, 30, ten(4), D(5, 1)),
           m: dr(u, k + 7, 10, I(500), I(3000)), isp: dr(u, k + 8, 10, I(100), I(450)) }
  /// the craft carries what the n steps burn: a rocket never burns more than 0.8 of its mass
  pure def within(g: Engine, h: int, n: int): Engine =
    if (not(g.on) or 5 * iabs(mul(g.mdot, h)) * n < 4 * g.m) g else { ...g, mdot: grid(div(g.m, iabs(h) * n) * 3 / 4, 30) }
  /// n steps of the same size with the same running engine
  pure def runSteps(s: Inertial, g: Engine, h: int, n: int): (Inertial, Engine) =
    range(0, n).foldl((s, { ...g, dir: if (g.on) unit(g.dir) else V0 }), (p, _) =>
      (rk4(p._1, p._2, h), { ...p._2, m: p._2.m - mul(p._2.mdot, h) }))
  pure def tR(s: Inertial, h: int, n: int, g: Engine): int = {
    val a = if (s.pert) mul(div(div(MU, mag(s.r)), mag(s.r)), D(2, 9)) else mul(div(div(MU, mag(s.r)), mag(s.r)), ten(13))
    mul(mul(a, h), h) * n * n + ten(10) * n
  }
  pure def tV(s: Inertial, h: int, n: int, g: Engine): int = {
    val a = if (s.pert) mul(div(div(MU, mag(s.r)), mag(s.r)), D(2, 9)) else mul(div(div(MU, mag(s.r)), mag(s.r)), ten(13))
    iabs(mul(a, h)) * n + ten(13) * n
  }
  pure def oneCase(s: Inertial, g: Engine, h: int, n: int): Case = {
    val o = runSteps(s, g, h, n)
    val tr = tR(s, h, n, g)
    val tv = tV(s, h, n, g)
    caseS("steps", [yes(s.pert)], vl(s.r).concat(vl(s.v)).concat([s.t, h, I(n), if (g.on) g.mdot else 0, g.m, g.isp]).concat(vl(g.dir)),
      oV(o._1.r, tr).concat(oV(o._1.v, tv))
      .concat([oR(o._1.t, ten(10) * n), oE(h), oR(if (g.on) o._2.m else g.m, ulps(8, g.m) * n)])
      // the six-vector of the state and its two halves are one and the same
      .concat(oV(o._1.r, tr)).concat(oV(o._1.v, tv)))
  }
  action go = {
    nondet u = oneOf(0.to(2^64))
    val p = if (dchance(u, 1, 1, 3)) gState(u, 2, 60) else gCircular(u, 2)
    val pert = dchance(u, 30, 1, 2)
    val s = { t: gEpoch12(u, 31), r: p.r, v: p.v, pert: pert }
    val n = if (dchance(u, 32, 1, 3)) di(u, 33, 2, 4) else 1
    // steps of up to a radian of motion: minutes close to the Earth, hours far away
    val rate = div(mag(p.v), mag(p.r))
    val h = if (dchance(u, 34, 1, 5)) dsgn(u, 35, grid(div(dr(u, 36, 20, D(1, 1), S), rate), 10)) else gSize(u, 100)
    all {
      cur' = s,
      cases' = [oneCase(s, within(gEngine(u, 40), gSize(u, 60), n), gSize(u, 60), n), oneCase({ ...s, pert: false }, within(gEngine(u, 80), h, 1), h, 1)],
    }
  }
  action init = go
  action step = go
  /// The step is consistent: fourth order, time reversible to that order, and it
  /// preserves energy and angular momentum of the unperturbed problem likewise.
  val laws = {
    val s = { ...cur, pert: false }
    val o = rk4(s, OFF, I(8))
    val b = rk4(o, OFF, -I(8))
    val half = rk4(rk4(s, OFF, I(4)), OFF, I(4))
    val e0 = energy({ r: s.r, v: s.v })
    and {
      vinf(vsub(b.r, s.r)) < ten(8), vinf(vsub(b.v, s.v)) < ten(8),
      vinf(vsub(half.r, o.r)) < ten(7),
      iabs(energy({ r: o.r, v: o.v }) - e0) < ten(8),
      vinf(vsub(vcross(o.r, o.v), vcross(s.r, s.v))) < ten(4),
    }
  }
}

module toepoch {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import forces.* from "../forces"
  import inertial.* from "../inertial"
  import gen.* from "../gen"
  var cases: List[Case]
  /// the propagator: state, configured step size, how far its epoch may be from a double of the code
  var s: Inertial
  var hcfg: int
  /// accumulated uncertainty: seconds of epoch rounding, and numeric error in km
  var fuzz: int
  var err: int
  var home: Inertial
  var hops: int

  pure def yes(b: bool): str = if (b) "1" else "0"
  pure def rate(x: Inertial): int = div(mag(x.v), mag(x.r))
  /// prediction for the state x of the propagator
  pure def see(x: Inertial, sz: int, fz: int, er: int): List[Out] = {
    val tr = er + mul(fz, mag(x.v))
    val tv = mul(er + mul(fz, mag(x.v)), 3 * rate(x))
    oV(x.r, tr).concat(oV(x.v, tv + ten(12))).concat([oR(x.t, ten(9)), oE(sz)])
  }
  /// growth of the numeric error over a flight of dt seconds
  pure def grow(x: Inertial, er: int, dt: int): int = {
    val a = mul(div(div(MU, mag(x.r)), mag(x.r)), if (x.pert) D(1, 9) else ten(14))
    val w = mul(iabs(dt), rate(x))
    er + mul(er, 4 * w) + mul(mul(a, dt), dt) + ten(9)
  }
  /// a span in days whose number of steps is a power of two: every epoch on the way is exact
  pure def gSpan(u: int, k: int): int = {
    val c = draw(u, k) % 8
    val n = if (c == 0) di(u, k + 1, 43, 56) else if (c == 1) di(u, k + 1, 100, 113)
            else if (c <= 3) di(u, k + 1, 15, 28) else di(u, k + 1, 1, 14)
    dsgn(u, k + 2, n * S / 4096)
  }
  pure def nearBoundary(dt: int): bool = {
    val q = fmod(iabs(dt), MAX_STEP)
    q < S / 100 or MAX_STEP - q < S / 100
  }

  action start = {
    nondet u = oneOf(0.to(2^64))
    val p = if (dchance(u, 1, 1, 3)) gState(u, 2, 60) else gCircular(u, 2)
    val x = { t: gEpoch12(u, 31), r: p.r, v: p.v, pert: dchance(u, 30, 1, 4) }
    all {
      s' = x, hcfg' = I(300), fuzz' = 0, err' = ten(9), home' = x, hops' = 0,
      cases' = [caseS("new", [yes(x.pert)], vl(x.r).concat(vl(x.v)).append(x.t), see(x, I(300), 0, ten(9)))],
    }
  }
  pure def goTo(op: str, x: Inertial, t: int, sz: int, fz: int, er: int): Case =
    case(op, [t], see(toEpoch(x, t), sz, fz, er))
  action fly = {
    nondet u = oneOf(0.to(2^64))
    val exact = not(dchance(u, 9, 1, 5))
    // exact spans keep exact epochs exact; general spans add rounding of the epochs
    val d0 = if (exact) gSpan(u, 1) else dsgn(u, 3, dr(u, 4, 30, ten(4), D(6, 2)))
    val d = if (nearBoundary(d0 * SECONDS_IN_DAY)) d0 + S / 1024 else d0
    val t = grid(s.t, 30) + d
    val dt = (t - s.t) * SECONDS_IN_DAY
    val fz = if (exact and fuzz == 0) 0 else fuzz + D(3, 5)
    val er = grow(s, err, dt)
    all {
      s' = toEpoch(s, t), fuzz' = fz, err' = er, hcfg' = hcfg, home' = home, hops' = hops + 1,
      cases' = [goTo("to", s, t, hcfg, fz, er)],
    }
  }
  /// a hop of microseconds to seconds: however short, the propagator follows
  action hop = {
    nondet u = oneOf(0.to(2^64))
    val d = dsgn(u, 1, di(u, 2, 1, 64) * (S / 2^di(u, 3, 16, 36)))
    val t = s.t + d
    val o = toEpoch(s, t)
    val er = grow(s, err, d * SECONDS_IN_DAY)
    all {
      fuzz == 0, s.t == grid(s.t, 30), not(nearBoundary(d * SECONDS_IN_DAY)) or iabs(d) * SECONDS_IN_DAY < I(200),
      s' = o, fuzz' = D(2, 5), err' = er, hcfg' = hcfg, home' = home, hops' = hops + 1,
      cases' = [case("to", [t], oV(o.r, er).concat(oV(o.v, mul(er, 3 * rate(o)) + ten(12))).concat([oR(t, S / 2^34), oE(hcfg)]))],
    }
  }
  /// back to the epoch of the start, and to the epoch where it already is
  action back = {
    val dt = (home.t - s.t) * SECONDS_IN_DAY
    val er = grow(s, err, dt)
    all {
      not(nearBoundary(dt)), stepsFor(dt) <= 40,
      s' = toEpoch(s, home.t), err' = er, fuzz' = fuzz + D(3, 5), hcfg' = hcfg, home' = home, hops' = hops + 1,
      cases' = [goTo("to", s, home.t, hcfg, fuzz + D(3, 5), er)],
    }
  }
  action stay = all {
    s' = s, fuzz' = fuzz, err' = err, hcfg' = hcfg, home' = home, hops' = hops,
    cases' = [case("stay", [], see(s, hcfg, fuzz, err))],
  }
  action one = {
    val er = grow(s, err, hcfg)
    val o = rk4(s, OFF, hcfg)
    all {
      s' = o, err' = er, fuzz' = fuzz + D(3, 5), hcfg' = hcfg, home' = home, hops' = hops + 1,
      cases' = [case("one", [], see(o, hcfg, fuzz + D(3, 5), er))],
    }
  }
  action configure = {
    nondet u = oneOf(0.to(2^64))
    val z = dsgn(u, 1, dr(u, 2, 5, I(5), I(400)))
    all {
      s' = s, fuzz' = fuzz, err' = err, hcfg' = z, home' = home, hops' = hops,
      cases' = [case("configure", [z], see(s, z, fuzz, err))],
    }
  }
  action init = start
  action step = if (hops >= 7 or mag(s.r) < I(6000)) start else any { fly, fly, fly, back, stay, one, configure, if (fuzz == 0 and s.t == grid(s.t, 30)) hop else stay }
  /// the orbit is the same orbit after any history, within integration error
  val laws = {
    val e0 = energy({ r: home.r, v: home.v })
    val e1 = energy({ r: s.r, v: s.v })
    and {
      s.pert or iabs(e1 - e0) <= mul(iabs(e0), D(5, 3)),
      stepsFor(0) == 0, stepsFor(I(300)) == 1, stepsFor(I(300) + 1) == 2, stepsFor(-I(300)) == 1,
    }
  }
}

/// Flights of hours to two months in one call, of the unperturbed motion: hundreds to
/// thousands of equal steps of at most 300 s.
module cruise {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import inertial.* from "../inertial"
  import gen.* from "../gen"
  var cases: List[Case]
  var cur: Inertial
  var last: Inertial
  var count: int

  action go = {
    nondet u = oneOf(0.to(2^64))
    val p = toCartesian({ a: dr(u, 1, 20, I(24000), I(60000)), e: dr(u, 2, 40, 0, D(3, 1)), i: dr(u, 3, 40, D(5, 2), D(3, 0)),
                          O: gAngle(u, 4), w: gAngle(u, 8), M: gAngle(u, 12) })
    val x = { t: gEpoch12(u, 31), r: vgrid(p.r, 30), v: vgrid(p.v, 40), pert: false }
    // n steps of almost 300 s, n spread over the orders of magnitude
    val n = 100 * 2^di(u, 20, 0, 6) + di(u, 21, 1, 100 * 2^di(u, 20, 0, 6))
    val d = dsgn(u, 22, grid((n * MAX_STEP - dr(u, 23, 5, I(20), I(280))) / SECONDS_IN_DAY, 20))
    val t = x.t + d
    val o = toEpoch(x, t)
    val tr = mul(mag(o.r), n * n * D(2, 16) + n * ten(14) + ten(12))
    all {
      cur' = x, last' = o, count' = n,
      cases' = [caseS("cruise", ["0"], vl(x.r).concat(vl(x.v)).concat([x.t, t, dr(u, 24, 5, I(5), I(400))]),
        oV(o.r, tr).concat(oV(o.v, mul(tr, 3 * div(mag(o.v), mag(o.r))))).concat([oR(t, n * S / 2^35), oE(dr(u, 24, 5, I(5), I(400)))]))],
    }
  }
  action init = go
  action step = go
  /// the number of steps is the least that keeps each within 300 s; integration keeps the orbit
  val laws = and {
    stepsFor((last.t - cur.t) * SECONDS_IN_DAY) == count,
    iabs(energy({ r: last.r, v: last.v }) - energy({ r: cur.r, v: cur.v })) < mul(iabs(energy({ r: cur.r, v: cur.v })), ten(3)),
  }
}
