// -*- mode: Bluespec; -*-
/// Behaviours for C22 (detection) and C23 (optical model).
module detection {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import inertial.* from "../inertial"
  import fleet.* from "../fleet"
  import optics.* from "../optics"
  import gen.* from "../gen"
  import fleetcore.* from "./fleetcore"
  var cases: List[Case]
  var f: Fleet
  var upd: List[int]
  var hops: int
  var last: { x: Sighting, l: Limits }

  pure val KINDS: List[str] = ["track", "track", "track", "lvlh", "sun", "step", "to", "to", "impulse"]
  pure def silent(op: Op): Case = caseS(op.k, ["none", num(op.i), num(op.j)], vl(op.x).append(op.t), [])

  pure def gBody(u: int, k: int): Sphere =
    if (dchance(u, k, 1, 3)) { rad: dlog(u, k + 1, 5, 30), alb: dlog(u, k + 2, 1, 12) }
    else { rad: dr(u, k + 1, 40, ten(3), D(2, 2)), alb: dr(u, k + 2, 20, D(5, 2), D(9, 1)) }
  /// a limit on the passing (+1) or failing (-1) side of x by m
  pure def above(x: int, side: int, m: int): int = grid(x + side * m, 40)
  pure def gMargin(u: int, k: int, least: int): int = imax(least, dlog(u, k, 1, 14))
  /// which limits fail: none, exactly one, or any
  pure def gSides(u: int, k: int): List[int] = {
    val c = draw(u, k) % 10
    val one = draw(u, k + 1) % 5
    range(0, 5).foldl([], (acc, n) => acc.append(
      if (c < 3) 1 else if (c < 8) (if (n == one) -1 else 1) else (if (draw(u, k + 2 + n) % 3 == 0) -1 else 1)))
  }
  /// an exclusion angle on the wanted side: close to the angle seen, switched off altogether, or beyond any angle
  pure def exclusion(u: int, k: int, x: int, side: int, least: int): int =
    if (dchance(u, k + 100, 1, 5)) (if (side > 0) 0 else I(dpick(u, k + 110, [4, 5, 7])))
    else above(x, -side, gMargin(u, k, least))
  type Look = { c: Case, x: Sighting, l: Limits }
  pure def look(u: int, g: Fleet): Look = {
    val i = di(u, 1, 0, 2)
    val j = (i + di(u, 2, 1, 2)) % 3
    val a = g[i]
    val b = g[j]
    val body = gBody(u, 10)
    val own = gBody(u, 20)
    val x = sighting(a.z, a.s, b.s, body)
    val dist = mag(line(a.s, b.s))
    val err = ten(6) + 40 * div(a.er + b.er + mul(a.fz + b.fz, mag(a.s.v)), dist)
    val emag = mul(err, I(10) + div(I(10), imax(x.sun, ten(3))))
    val sides = gSides(u, 30)
    val cam = { pixels: I(di(u, 40, 64, 8192)), fov: imax(ten(4), imin(D(15, 1), grid(x.bore + sides[4] * gMargin(u, 41, 30 * err), 40))) }
    val mode = dpick(u, 42, ["limits", "limits", "own", "own", "default", "camera"])
    val chosen = { sun: exclusion(u, 50, x.sun, sides[0], 30 * err), earth: exclusion(u, 51, x.earth, sides[1], 30 * err),
                   moon: exclusion(u, 52, x.moon, sides[2], 30 * err), mag: if (dchance(u, 56, 1, 8) and ((sides[3] < 0) == (x.mag > 0))) 0 else above(x.mag, sides[3], gMargin(u, 53, 30 * emag)),
                   bore: if (dchance(u, 57, 1, 8)) (if (sides[4] < 0) 0 else I(4)) else above(x.bore, sides[4], gMargin(u, 54, 30 * err)) }
    val l = if (mode == "limits" or mode == "own") chosen else if (mode == "camera") limitsOf(cam) else limitsOf(WIDE)
    val clear = clearance(x, l) > 10 * emag and x.sun > D(2, 3) and dist > D(1, 1) and err < D(2, 2)
    { x: x, l: l,
      c: caseS("detect", [mode, num(i), num(j)],
        [body.rad, body.alb, own.rad, own.alb, chosen.sun, chosen.earth, chosen.moon, chosen.mag, chosen.bore, cam.pixels, cam.fov,
         dr(u, 60, 30, 0, I(3)), dr(u, 61, 30, 0, I(3)), dr(u, 62, 30, 0, I(3)), dr(u, 63, 30, I(-20), I(30)), dr(u, 64, 30, 0, I(3)), dr(u, 65, 30, 0, I(3))],
        [if (clear) oB(detected(x, l)) else oX, oB(true)]) }
  }
  /// a target exactly as bright as the limit is detected, the least bit fainter it is not
  pure def edge(u: int, g: Fleet): Case = {
    val i = di(u, 1, 0, 2)
    val j = (i + di(u, 2, 1, 2)) % 3
    val x = sighting(g[i].z, g[i].s, g[j].s, { rad: ten(2), alb: S / 4 })
    val seen = x.sun > D(5, 3) and mag(line(g[i].s, g[j].s)) > D(1, 1)
    caseS("detect.edge", ["none", num(i), num(j)], [ten(2), S / 4], if (seen) [oB(true), oB(false)] else [oX, oX])
  }
  /// a second craft anywhere as seen from the first: towards or away from Sun, Moon and Earth, up to far beyond the Moon
  pure def gFar(u: int): Fleet = {
    val g = gFleet(u)
    val a = g[0]
    val c = draw(u, 300) % 6
    val base = if (c == 0) vsub(sunPosition(a.s.t), a.s.r) else if (c == 1) vsub(a.s.r, sunPosition(a.s.t)) else if (c < 4) vsub(moonPosition(a.s.t), a.s.r)
               else if (c == 4) vneg(a.s.r) else nonZero(gDir(u, 301))
    val off = dpick(u, 307, [ten(2), ten(1), S])
    val way = unit(nonZero(vadd(unit(base), vscale(nonZero(gDir(u, 308)), off))))
    val d = dpick(u, 320, [dr(u, 321, 20, I(100), I(20000)), dr(u, 321, 10, I(450000), I(900000))])
    val b = { ...g[1], s: { ...g[1].s, t: a.s.t, r: vgrid(vadd(a.s.r, vscale(way, d)), 25) } }
    val b1 = { ...b, z: vneg(b.s.r) }
    [a, b1, g[2]]
  }
  action start = {
    nondet u = oneOf(0.to(2^64))
    val g = if (dchance(u, 400, 1, 3)) gFar(u) else gFleet(u)
    val k = look(u + 1, g)
    all { f' = g, upd' = [], hops' = 0, last' = { x: k.x, l: k.l }, cases' = [newCase("none", g), k.c, look(u + 2, g).c, look(u + 3, g).c] }
  }
  action act = {
    nondet u = oneOf(0.to(2^64))
    val op = gOp(u, f, KINDS)
    val o = apply(f, op)
    val k = look(u + 1, o.f)
    if (o.risky or not(healthy(o.f))) start
    else all { f' = o.f, upd' = o.upd, hops' = hops + 1, last' = { x: k.x, l: k.l },
               cases' = [silent(op), edge(u + 5, o.f), k.c, look(u + 2, o.f).c, look(u + 3, o.f).c, look(u + 4, o.f).c] }
  }
  action init = start
  action step = if (hops >= 12) start else act
  /// each limit alone prevents detection, and only the limits do
  val laws = {
    val x = last.x
    val l = last.l
    and {
      lawful(f, upd),
      detected(x, { sun: x.sun, earth: x.earth, moon: x.moon, mag: x.mag, bore: x.bore }),
      not(detected(x, { ...l, sun: x.sun + 1 })), not(detected(x, { ...l, earth: x.earth + 1 })), not(detected(x, { ...l, moon: x.moon + 1 })),
      not(detected(x, { ...l, mag: x.mag - 1 })), not(detected(x, { ...l, bore: x.bore - 1 })),
      detected(x, l) implies detected(x, { ...l, sun: l.sun - S, earth: l.earth - S, moon: l.moon - S, mag: l.mag + S, bore: l.bore + S }),
    }
  }
}

module optical {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import inertial.* from "../inertial"
  import optics.* from "../optics"
  import gen.* from "../gen"
  var cases: List[Case]
  var seen: { body: Sphere, d: int, phi: int }

  pure def gBody(u: int, k: int): Sphere =
    if (dchance(u, k, 1, 3)) { rad: dlog(u, k + 1, 5, 30), alb: dlog(u, k + 2, 1, 12) }
    else { rad: dr(u, k + 1, 40, ten(3), D(2, 2)), alb: dr(u, k + 2, 20, D(5, 2), D(9, 1)) }
  /// directions from the observer that matter: to and from Sun, Moon, Earth, anywhere
  pure def gLook(u: int, k: int, r: V3, t: int): V3 = {
    val c = draw(u, k) % 8
    val base = if (c == 0) vsub(sunPosition(t), r) else if (c == 1) vsub(r, sunPosition(t)) else if (c == 2) vsub(moonPosition(t), r)
               else if (c == 3) vneg(r) else if (c == 4) r else nonZero(gDir(u, k + 1))
    val off = dpick(u, k + 7, [0, ten(6), ten(3), ten(2), ten(1), S])
    unit(nonZero(vadd(unit(base), vscale(nonZero(gDir(u, k + 8)), off))))
  }
  pure def tAngle(a: int, slop: int): int = imin(D(2, 7), div(5 * ten(14), imax(sin(a), ten(12)))) + slop

  pure def sightCase(u: int): { c: Case, body: Sphere, d: int, phi: int } = {
    val p = gState(u, 1, 80)
    val q = gCircular(u, 40)
    val t = gEpoch(u, 80)
    val d0 = dpick(u, 90, [dr(u, 91, 20, D(1, 2), S), dr(u, 91, 20, S, I(100)), dr(u, 91, 20, I(100), I(80000)), dr(u, 91, 10, I(80000), I(900000))])
    val other = vgrid(vadd(p.r, vscale(gLook(u, 100, p.r, t), d0)), 30)
    val a = { t: t, r: p.r, v: p.v, pert: true }
    val b = { t: if (dchance(u, 83, 1, 2)) t else gEpoch(u, 84), r: other, v: q.v, pert: true }
    val body = gBody(u, 130)
    val own = gBody(u, 140)
    val ln0 = line(a, b)
    val d = mag(ln0)
    val slop = ten(12) + div(mul(mag(p.r), ten(15)), d)
    val sa = sunAngle(a, b)
    val ea = earthAngle(a, b)
    val ma = moonAngle(a, b)
    val dm = mul(tAngle(sa, slop) + ten(10), I(10) + div(I(10), imax(sa, ten(6))))
    { body: body, d: d, phi: PI - sa,
      c: case("sight", vl(a.r).concat(vl(a.v)).append(a.t).concat(vl(b.r)).concat(vl(b.v)).append(b.t).concat([body.rad, body.alb, own.rad, own.alb]),
        oV(ln0, ulps(4, mag(p.r) + d)).concat(
          [oR(d, ulps(8, mag(p.r) + d)), oR(sa, tAngle(sa, slop) + ten(10)), oR(ea, tAngle(ea, slop)), oR(ma, tAngle(ma, slop) + ten(9)),
           if (sa > D(3, 3)) oR(magnitudeOf(body, d, PI - sa), dm + ten(11)) else oX, oB(true)])) }
  }
  pure def cameraCase(u: int): Case = {
    val c = { pixels: I(di(u, 1, 1, 20000)), fov: if (dchance(u, 2, 1, 2)) dlog(u, 3, 1, 12) else dr(u, 3, 30, ten(4), D(15, 1)) }
    val r = dpick(u, 4, [dlog(u, 5, 5, 20), dr(u, 5, 20, ten(2), S), dr(u, 5, 20, S, I(1000)), dr(u, 5, 10, I(1000), I(400000))])
    val w = dlog(u, 6, -3, 20)
    val b = dlog(u, 7, -3, 20)
    val e = [c, WIDE, NARROW].foldl([], (acc, k) => {
      val res = resolution(k, r)
      val t = ulps(30, S) 
      acc.concat([oR(k.pixels, ulps(2, k.pixels)), oR(k.fov, ulps(4, k.fov)), oR(res, mul(res, t)), oR(rangeError(k, r, w), mul(rangeError(k, r, w), t)),
                  oR(trackingMinimum(k, b), mul(trackingMinimum(k, b), t)), oR(characterization(k), mul(characterization(k), t)), oR(k.fov, ulps(4, k.fov))])
    })
    case("camera", [c.pixels, c.fov, r, w, b], e.concat([oR(rad(I(60)), ulps(4, S)), oR(rad(I(90)), ulps(4, S)), oR(rad(I(10)), ulps(4, S)), oR(rad(I(20)), ulps(4, S)), oE(I(15))]))
  }
  pure def bodyCase(u: int): Case = {
    val p = gState(u, 1, 90)
    val body = gBody(u, 50)
    val dry = dr(u, 60, 10, I(50), I(3000))
    val prop = dr(u, 61, 10, 0, I(2000))
    val area = mul(PI, sq(body.rad * 2^30)) / 2^60
    val big = mul(PI, sq(body.rad * 1000))
    val a = div(S, div(I(2), mag(p.r)) - div(sq(mag(p.v)), MU))
    case("body", vl(p.r).concat(vl(p.v)).concat([body.rad, body.alb, dry, prop]),
      [oR(area, mul(area, ten(14)) + 2^20), oR(dry + prop, ulps(2, dry + prop)), oR(div(mul(S + body.alb, big), dry + prop), mul(div(mul(S + body.alb, big), dry + prop), ten(13)) + 2^40),
       oR(a, mul(mul(a, div(a, mag(p.r))), ten(13)))])
  }
  action act = {
    nondet u = oneOf(0.to(2^64))
    val k = sightCase(u)
    all { cases' = [k.c, sightCase(u + 1).c, cameraCase(u), bodyCase(u)], seen' = { body: k.body, d: k.d, phi: k.phi } }
  }
  action init = act
  action step = act
  /// fainter with distance and phase, brighter with size and reflectivity; five magnitudes are a factor of a hundred
  val laws = {
    val b = seen.body
    val m = magnitudeOf(b, seen.d, seen.phi)
    (seen.phi > PI - D(3, 3)) or and {
      magnitudeOf(b, seen.d + seen.d / 50, seen.phi) > m,
      magnitudeOf(b, seen.d, imin(PI - ten(3), seen.phi + D(1, 2))) > m,
      magnitudeOf({ ...b, rad: b.rad + b.rad / 50 }, seen.d, seen.phi) < m,
      magnitudeOf({ ...b, alb: b.alb + b.alb / 50 }, seen.d, seen.phi) < m,
      iabs(magnitudeOf(b, 10 * seen.d, seen.phi) - m - I(5)) < ten(12),
    }
  }
}
