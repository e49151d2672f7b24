// -*- mode: Bluespec; -*-
/// Histories of a fleet of three spacecraft for C18-C21.
module fleetcore {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import inertial.* from "../inertial"
  import fleet.* from "../fleet"
  import gen.* from "../gen"

  pure def oN(n: int): Out = { v: n, t: 0, k: "N" }
  pure def has(l: List[int], i: int): bool = l.foldl(false, (a, x) => a or x == i)
  pure def yes(b: bool): str = if (b) "1" else "0"
  pure def num(i: int): str = ["0", "1", "2"][i]

  // ---- what is seen of craft c -------------------------------------------
  /// rounding of the code's position (km), boresight (rad)
  pure def blur(c: Craft): int = c.er + mul(c.fz, mag(c.s.v)) + ten(9)
  pure def blurZ(f: Fleet, c: Craft): int =
    ten(8) + div(2 * (blur(c) + (if (c.mode == TARGET) blur(f[c.tgt]) else 0)), mag(c.z))
  /// motion and masses
  pure def seeMotion(c: Craft, still: bool): List[Out] = {
    val tr = blur(c)
    val tv = mul(tr, 3 * angRate(c.s)) + ten(11)
    List(if (still) oB(true) else oX).concat(oV(c.s.r, tr)).concat(oV(c.s.v, tv))
    .concat([oR(c.s.t, ten(9)), oE(c.dry), oR(c.prop, ulps(40, c.dry + c.prop)), oE(c.h), oE(c.mdot), oE(c.isp), oB(c.s.pert), oN(c.mode)])
  }
  /// steering: mode, target, epoch lag of the target, boresight error, axes
  /// and where the boresight points
  pure def seeSteering(f: Fleet, c: Craft, updated_: bool, still: bool): List[Out] =
    List(if (still) oB(true) else oX, oN(c.mode), oN(if (c.mode == TARGET) c.tgt else -1))
    .concat(if (updated_) List(if (c.mode == TARGET) oR(0, ten(9)) else oX, oR(0, ten(6)), oR(0, ten(9)), oR(0, ten(9)), oR(0, ten(9)), oR(S, ten(6)))
              .concat(oV(unit(c.z), blurZ(f, c)))
            else [oX, oX, oX, oX, oX, oX, oX, oX, oX])
  /// slew: flag, stop time against the turned angle (after a change of pointing), stop kept
  /// an instantaneous slew is over at the first later update; whether a craft that tracks it nudges it there is rounding
  pure def seeSlew(f: Fleet, c: Craft, began: bool, nudged: bool): List[Out] = {
    val close = (c.slew and iabs(c.s.t - c.stop) < D(3, 6) and c.s.t > c.stop) or (nudged and iabs(c.s.t - c.stop) < D(3, 6))
    val gap = iabs(c.s.t - c.stop) < D(3, 6) and not(began)
    List(if (close or gap or (c.vague and c.slew)) oX else oB(c.slew),
     if (began) oR(0, D(2, 6)) else oX, if (began) oX else oB(true),
     if (began) oR(c.stop, mul(c.scale, D(2, 6) + blurZ(f, c)) + ten(9)) else oX)
  }
  /// the crafts an attitude update of craft i can reach: its target, the
  /// target's target, ... (rounding decides whether they are flown at all)
  pure def reach(g: Fleet, i: int): List[int] = range(0, 3).foldl([i], (acc, n) => {
    val last = g[acc[acc.length() - 1]]
    if (last.mode == TARGET) acc.append(last.tgt) else acc
  })
  pure def see(view: str, before: Fleet, o: Outcome, op: Op): List[Out] =
    range(0, 3).foldl([], (acc, i) => {
      val ck = o.f[i]
      val still_k = not(has(o.moved, i)) and (op.k == "look" or not(has(reach(o.f, op.i), i)))
      val began_k = i == op.i and (op.k == "lvlh" or op.k == "sun" or op.k == "track" or op.k == "acquire") and
        (ck.mode != before[i].mode or (ck.mode == TARGET and ck.tgt != before[i].tgt))
      acc.concat(if (view == "motion") seeMotion(ck, still_k)
                 else if (view == "steering") seeSteering(o.f, ck, has(o.upd, i), still_k)
                 else if (view == "slew") seeSlew(o.f, ck, began_k, ck.mode == TARGET and o.f[ck.tgt].mode == TARGET)
                 else [])
    })
  pure def opCase(view: str, before: Fleet, o: Outcome, op: Op): Case =
    caseS(op.k, [view, num(op.i), num(op.j)], vl(op.x).append(op.t), see(view, before, o, op))

  // ---- choices ------------------------------------------------------------
  pure def gCraft(u: int, k: int, t: int, near: PV, close: bool): Craft = {
    val p = if (close) { r: vgrid(vadd(near.r, gVec(u, k + 40, dr(u, k + 52, 20, I(5), I(500)), 30)), 30),
                         v: vgrid(vadd(near.v, gVec(u, k + 54, dr(u, k + 66, 30, 0, ten(2)), 40)), 40) }
            else gCircular(u, k)
    newCraft(p, t, dchance(u, k + 70, 1, 10), dr(u, k + 71, 5, I(200), I(1500)), dr(u, k + 72, 5, I(100), I(600)),
             dr(u, k + 73, 30, ten(3), D(3, 2)), dr(u, k + 74, 5, I(200), I(450)))
  }
  pure def gFleet(u: int): Fleet = {
    val t = gEpoch12(u, 1)
    val a = gCraft(u, 10, t, { r: V0, v: V0 }, false)
    val d = S / 4096
    [a, gCraft(u, 100, if (dchance(u, 2, 1, 2)) t else t + di(u, 3, -30, 30) * d, pvOf(a.s), dchance(u, 4, 1, 2)),
     gCraft(u, 200, if (dchance(u, 5, 1, 2)) t else t + di(u, 6, -30, 30) * d, pvOf(a.s), dchance(u, 7, 1, 3))]
  }
  pure def gOp(u: int, f: Fleet, kinds: List[str]): Op = {
    val k = dpick(u, 1, kinds)
    val i = di(u, 2, 0, 2)
    val j = (i + di(u, 3, 1, 2)) % 3
    val b = if (k == "engine") (dr(u, 10, 30, ten(3), D(3, 2)), dr(u, 11, 5, I(200), I(450)), dr(u, 12, 5, I(200), I(1500)))
            else if (k == "impulse" and dchance(u, 28, 1, 4)) gVec(u, 10, dlog(u, 20, 8, 30), 50)
            else if (k == "finite") gVec(u, 10, dr(u, 20, 30, ten(4), D(15, 3)), 40) else gVec(u, 10, dr(u, 20, 30, ten(4), D(2, 1)), 40)
    val zero = dchance(u, 21, 1, 12)
    val t = if (k == "to") (if (dchance(u, 22, 1, 3)) grid(f[j].s.t, 30)
              else if (dchance(u, 30, 1, 5)) grid(f[i].s.t, 30) + dsgn(u, 23, di(u, 24, 1, 8) * (S / 2^di(u, 31, 14, 24)))
              else grid(f[i].s.t, 12) + dsgn(u, 23, di(u, 24, 1, 60) * S / 4096))
            else if (k == "size") dsgn(u, 25, if (dchance(u, 32, 1, 5)) dr(u, 26, 12, ten(2), I(3)) else dr(u, 26, 5, I(20), I(320)))
            else if (k == "scale") (if (dchance(u, 29, 1, 4)) 0 else dlog(u, 27, 4, 12))
            else 0
    { k: k, i: i, j: j, x: if (zero and k != "engine") V0 else b, t: t }
  }
  pure def newCase(view: str, f: Fleet): Case =
    caseS("fleet", [view].concat(f.foldl([], (acc, c) => acc.append(yes(c.s.pert)))),
      f.foldl([], (acc, c) => acc.concat(vl(c.s.r)).concat(vl(c.s.v)).concat([c.s.t, c.dry, c.prop, c.mdot, c.isp])),
      see(view, f, { f: f, upd: [0, 1, 2], moved: [0, 1, 2], risky: false }, { k: "new", i: 0, j: 0, x: V0, t: 0 }))
  /// still a sensible orbit, still propellant, still within reach of each other in time
  pure def healthy(f: Fleet): bool = f.foldl(true, (ok, c) => ok and mag(c.s.r) > I(6300) and c.prop > I(20)
    and energy(pvOf(c.s)) < -S and iabs(c.s.t - f[0].s.t) < D(15, 2))

  // ---- laws ---------------------------------------------------------------
  /// a craft that points at a target just after an operation is at its epoch,
  /// looks at it, and a slew that is over stays over
  pure def lawful(f: Fleet, upd: List[int]): bool = upd.foldl(true, (ok, i) => {
    val c = f[i]
    ok and (c.mode != TARGET or synced(f[c.tgt], c)) and vinf(vsub(unit(c.z), unit(aim(f, c)))) < ten(12)
       and (not(c.slew) or c.s.t <= c.stop + ten(9))
  })
}

