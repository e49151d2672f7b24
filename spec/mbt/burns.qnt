// -*- mode: Bluespec; -*-
/// Single burns for C18 and C19.
module burns {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import inertial.* from "../inertial"
  import relative.* from "../relative"
  import fleet.* from "../fleet"
  import gen.* from "../gen"
  import fleetcore.* from "./fleetcore"

  /// one craft, one or two impulses: tight tolerances
  pure def impulses(u: int): Case = {
    val p = if (dchance(u, 1, 1, 3)) gState(u, 2, 70) else gCircular(u, 2)
    val s = { t: gEpoch(u, 40), r: p.r, v: p.v, pert: dchance(u, 41, 1, 2) }
    val b = if (dchance(u, 42, 1, 10)) V0 else gVec(u, 43, if (dchance(u, 57, 1, 3)) dlog(u, 55, 8, 36) else dr(u, 55, 30, ten(5), S), 55)
    // the second burn is the opposite one for in-plane burns
    val b1 = (b._1, b._2, if (dchance(u, 56, 1, 2)) 0 else b._3)
    val b2 = if (b1._3 == 0) vneg(b1) else gVec(u, 60, dr(u, 72, 30, ten(5), ten(1)), 40)
    val v1 = vadd(s.v, inInertial(s, b1))
    val v2 = vadd(v1, inInertial({ ...s, v: v1 }, b2))
    val tr = mul(mag(s.r), ten(14))
    val tv = mul(mag(s.v) + mag(b), ten(13))
    caseS("impulses", [yes(s.pert)], vl(s.r).concat(vl(s.v)).append(s.t).concat(vl(b1)).concat(vl(b2)),
      oV(s.r, tr).concat(oV(v1, tv)).concat([oE(s.t)]).concat(oV(s.r, tr)).concat(oV(v2, tv)).concat([oE(s.t), oB(s.pert)]))
  }
  /// One craft, burns in succession.  Rounding of the epochs shifts the end of a
  /// burn by microseconds.
  pure def finites(u: int): Case = {
    val p = if (dchance(u, 1, 1, 4)) gState(u, 2, 50) else gCircular(u, 2)
    val c = gCraft(u, 10, gEpoch12(u, 40), p, false)
    // one in five: strong engines and burns that use much of the propellant,
    // in half of which the craft is mostly propellant
    val big = dchance(u, 52, 1, 5)
    // one in eight: burns of a fraction of a second
    val brief = dchance(u, 56, 1, 8)
    val light = big and dchance(u, 53, 1, 2)
    val c1 = { ...c, s: { ...c.s, r: p.r, v: p.v } }
    val c0 = if (light) { ...c1, dry: dr(u, 54, 30, I(30), I(200)), prop: dr(u, 55, 30, I(300), I(600)) } else c1
    val n = if (light) 1 else di(u, 50, 1, 3)
    val bs = range(0, 3).foldl([], (acc, i) => acc.append(
      if (i >= n) V0 else gVec(u, 60 + 15 * i, if (light) dr(u, 72 + 15 * i, 30, D(5, 1), D(25, 1)) else if (big) dr(u, 72 + 15 * i, 30, D(2, 2), D(8, 1)) else if (brief) dlog(u, 73 + 15 * i, 14, 26) else dr(u, 72 + 15 * i, 30, ten(4), D(2, 2)), 45)))
    // engine settings of each burn; half of the crafts keep theirs
    val keep = dchance(u, 51, 1, 2) and not(big)
    val es = range(0, 3).foldl([], (acc, i) => acc.append(if (keep) (c0.mdot, c0.isp)
      else (if (light) dr(u, 130 + 2 * i, 30, D(2, 1), D(15, 1)) else if (big) dr(u, 130 + 2 * i, 30, D(5, 2), D(8, 1)) else dr(u, 130 + 2 * i, 30, ten(3), D(3, 2)), dr(u, 131 + 2 * i, 5, I(200), I(450)))))
    val w = range(0, 3).foldl({ f: [c0], risky: false, dt: 0 }, (a, i) => if (bs[i] == V0) a else {
      val g = [{ ...a.f[0], mdot: es[i]._1, isp: es[i]._2 }]
      val dt = duration(g[0], bs[i])
      { f: opFinite(g, 0, bs[i]).f, risky: a.risky or onBoundary(dt), dt: a.dt + dt }
    })
    val d = w.f[0]
    // also the case where steps hang on rounding is not predicted
    val risky = w.risky
    val tr = d.er + mul(d.fz, mag(d.s.v))
    // and the engine acts for up to two microseconds more or less
    val push = range(0, 3).foldl(0, (a, i) => imax(a, div(mul(es[i]._1, es[i]._2) / 100, mass(d))))
    val tv = mul(tr, 3 * angRate(d.s)) + ten(10) + mul(D(2, 6), push)
    caseS("finites", [yes(c0.s.pert), num(imin(n, 2))],
      vl(p.r).concat(vl(p.v)).concat([c0.s.t, c0.dry, c0.prop, c0.mdot, c0.isp]).concat(vl(bs[0])).concat(vl(bs[1])).concat(vl(bs[2]))
        .concat(es.foldl([], (acc, x) => acc.concat([x._1, x._2]))),
      if (risky or d.prop < 0) [oX, oX, oX, oX, oX, oX, oX, oX, oX, oX, oX, oX]
      else oV(d.s.r, tr).concat(oV(d.s.v, tv)).concat([oR(d.s.t, ten(9)), oE(c0.dry), oR(d.prop, ulps(40, mass(c0))), oR(w.dt / SECONDS_IN_DAY, ten(9)), oE(I(300)), oB(c0.s.pert)]))
  }
}

