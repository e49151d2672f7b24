// -*- mode: Bluespec; -*-
/// Spacecraft that move, burn, steer and look at one another.
module fleet {
  import real.* from "./real"
  import linalg.* from "./linalg"
  import timesys.* from "./timesys"
  import celestial.* from "./celestial"
  import orbit.* from "./orbit"
  import forces.* from "./forces"
  import inertial.* from "./inertial"
  import relative.* from "./relative"

  pure val NADIR: int = 0
  pure val SOLAR: int = 1
  pure val TARGET: int = 2

  type Craft = {
    s: Inertial, h: int,                              // state, configured step size (s)
    dry: int, prop: int, mdot: int, isp: int,         // masses (kg), engine
    mode: int, tgt: int, z: V3,                       // steering, tracked craft, boresight
    slew: bool, stop: int, scale: int,                // slewing until stop; days per radian
    vague: bool,                                      // updated so close to the stop that rounding decides what the flag is since
    loose: bool,                                      // rounding decided whether the boresight was brought up to date
    fz: int, er: int                                  // rounding carried by the code: seconds, km
  }
  type Fleet = List[Craft]
  /// a fleet, the crafts whose attitude was brought up to date, those that
  /// moved, and whether a step count hung on rounding
  type Outcome = { f: Fleet, upd: List[int], moved: List[int], risky: bool }

  pure def pvOf(s: Inertial): PV = { r: s.r, v: s.v }
  pure def mass(c: Craft): int = c.dry + c.prop
  pure def angRate(s: Inertial): int = div(mag(s.v), mag(s.r))
  /// growth of the numeric error over a flight of dt seconds
  pure def grow(x: Inertial, er: int, dt: int): int = {
    val a = mul(div(div(MU, mag(x.r)), mag(x.r)), if (x.pert) D(1, 9) else ten(14))
    val w = mul(iabs(dt), angRate(x))
    er + mul(er, 4 * w) + mul(mul(a, dt), dt) + ten(9)
  }
  pure def onBoundary(dt: int): bool = {
    val q = fmod(iabs(dt), MAX_STEP)
    iabs(dt) > ten(3) and (q < ten(2) or MAX_STEP - q < ten(2))
  }
  pure def flown(c: Craft, s: Inertial, dt: int): Craft =
    { ...c, s: s, fz: c.fz + D(2, 5), er: grow(c.s, c.er, dt) }
  pure def fly(c: Craft, t: int): Craft = flown(c, toEpoch(c.s, t), (t - c.s.t) * SECONDS_IN_DAY)

  /// where the boresight of craft c belongs
  pure def aim(f: Fleet, c: Craft): V3 =
    if (c.mode == NADIR) vneg(c.s.r)
    else if (c.mode == SOLAR) vsub(c.s.r, sunPosition(c.s.t))
    else vsub(f[c.tgt].s.r, c.s.r)

  pure def synced(a: Craft, b: Craft): bool = iabs(a.s.t - b.s.t) <= ten(8)

  /// Attitude of craft i brought up to date: a tracked target at another epoch
  /// is flown to the tracker's epoch first, and so on along the chain.
  pure def settle(o: Outcome, i: int): Outcome = {
    val w = range(0, o.f.length()).foldl({ o: o, chain: [i], go: true }, (a, _) =>
      if (not(a.go)) a
      else {
        val c = a.o.f[a.chain[a.chain.length() - 1]]
        if (c.mode != TARGET) { ...a, go: false }
        else if (synced(a.o.f[c.tgt], c)) { ...a, go: false }
        else {
          val b = a.o.f[c.tgt]
          { o: { f: a.o.f.replaceAt(c.tgt, fly(b, c.s.t)), upd: a.o.upd, moved: a.o.moved.append(c.tgt),
                 risky: a.o.risky or onBoundary((c.s.t - b.s.t) * SECONDS_IN_DAY) },
            chain: a.chain.append(c.tgt), go: true }
        }
      })
    // a target at (nearly) the same epoch may still be flown there by rounding, and those it tracks
    val last = w.o.f[w.chain[w.chain.length() - 1]]
    val f1 = range(0, w.o.f.length()).foldl(w.o.f, (g, k) => {
      val c = g[k]
      if (last.mode == TARGET and w.chain.foldl(true, (ok, x) => ok and x != k))
        g.replaceAt(k, { ...c, vague: c.vague or (c.slew and iabs(c.s.t - c.stop) < D(3, 6)), loose: c.loose or c.mode == TARGET }) else g
    })
    w.chain.foldl({ ...w.o, f: f1, upd: w.o.upd.concat(w.chain) }, (r, k) => {
      val c = r.f[k]
      { ...r, f: r.f.replaceAt(k, { ...c, z: aim(r.f, c), loose: false, slew: c.slew and not(c.s.t > c.stop + ten(9)),
                                        vague: (c.vague or (c.slew and iabs(c.s.t - c.stop) < D(3, 6))) and not(c.s.t > c.stop + D(3, 6)) }) }
    })
  }
  pure def changed(f: Fleet, i: int, c: Craft): Outcome = { f: f.replaceAt(i, c), upd: [], moved: [i], risky: false }

  pure def opStep(f: Fleet, i: int): Outcome =
    settle(changed(f, i, flown(f[i], rk4(f[i].s, OFF, f[i].h), f[i].h)), i)
  pure def opTo(f: Fleet, i: int, t: int): Outcome = {
    val o = changed(f, i, fly(f[i], t))
    settle({ ...o, risky: onBoundary((t - f[i].s.t) * SECONDS_IN_DAY) }, i)
  }
  pure def opStay(f: Fleet, i: int): Outcome = settle({ f: f, upd: [], moved: [], risky: false }, i)
  pure def inInertial(s: Inertial, b: V3): V3 = mv(mT(ric(pvOf(s))), b)
  pure def opImpulse(f: Fleet, i: int, b: V3): Outcome = {
    val c = f[i]
    settle(changed(f, i, { ...c, s: { ...c.s, v: vadd(c.s.v, inInertial(c.s, b)) }, er: c.er + ten(10) }), i)
  }
  pure def duration(c: Craft, b: V3): int = burnTime(mag(b), c.mdot, mass(c), c.isp)
  pure def opFinite(f: Fleet, i: int, b: V3): Outcome = {
    val c = f[i]
    val dt = duration(c, b)
    val after = flown(c, burn(c.s, inInertial(c.s, b), c.mdot, mass(c), c.isp), dt)
    val o = changed(f, i, { ...after, prop: c.prop - mul(c.mdot, dt), fz: c.fz + D(4, 5) })
    settle({ ...o, risky: onBoundary(dt) }, i)
  }
  /// command a steering mode; a change of mode or target starts a slew
  pure def opSteer(f: Fleet, i: int, m: int, j: int): Outcome = {
    val c = f[i]
    val same = c.mode == m and (m != TARGET or c.tgt == j)
    val o = settle({ f: f.replaceAt(i, { ...c, mode: m, tgt: if (m == TARGET) j else c.tgt }), upd: [], moved: [], risky: false }, i)
    if (same) o
    else {
      val d = o.f[i]
      { ...o, f: o.f.replaceAt(i, { ...d, slew: true, vague: false, stop: d.s.t + mul(angle(c.z, d.z), d.scale) }) }
    }
  }

  type Op = { k: str, i: int, j: int, x: V3, t: int }
  pure def apply(f: Fleet, op: Op): Outcome =
    if (op.k == "step") opStep(f, op.i)
    else if (op.k == "to") opTo(f, op.i, op.t)
    else if (op.k == "stay") opStay(f, op.i)
    else if (op.k == "impulse") opImpulse(f, op.i, op.x)
    else if (op.k == "finite") opFinite(f, op.i, op.x)
    else if (op.k == "lvlh") opSteer(f, op.i, NADIR, 0)
    else if (op.k == "sun") opSteer(f, op.i, SOLAR, 0)
    else if (op.k == "track" or op.k == "acquire") opSteer(f, op.i, TARGET, op.j)
    // observing, detecting and estimating move nothing
    else if (op.k == "look") { f: f, upd: [], moved: [], risky: false }
    else if (op.k == "engine") changed(f, op.i, { ...f[op.i], mdot: op.x._1, isp: op.x._2, dry: op.x._3 })
    else if (op.k == "size") changed(f, op.i, { ...f[op.i], h: op.t })
    else changed(f, op.i, { ...f[op.i], scale: op.t })

  pure def newCraft(p: PV, t: int, pert: bool, dry: int, prop: int, mdot: int, isp: int): Craft = {
    s: { t: t, r: p.r, v: p.v, pert: pert }, h: I(300), dry: dry, prop: prop, mdot: mdot, isp: isp,
    mode: NADIR, tgt: 0, z: vneg(p.r), slew: false, vague: false, loose: false, stop: 0, scale: div(S, rad(D(5, 1))) / SECONDS_IN_DAY,
    fz: 0, er: ten(9) }
}
