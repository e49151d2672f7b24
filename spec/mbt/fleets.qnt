// -*- mode: Bluespec; -*-
/// Histories of a fleet of three spacecraft for C18-C21.
module impulsive {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import inertial.* from "../inertial"
  import relative.* from "../relative"
  import fleet.* from "../fleet"
  import gen.* from "../gen"
  import fleetcore.* from "./fleetcore"
  import burns.* from "./burns"
  var cases: List[Case]
  var f: Fleet
  var upd: List[int]
  var hops: int
  pure val VIEW: str = "motion"
  pure val KINDS: List[str] = ["impulse", "impulse", "impulse", "step", "to", "track", "lvlh", "sun", "size", "stay"]
  action start = {
    nondet u = oneOf(0.to(2^64))
    val g = gFleet(u)
    all { f' = g, upd' = [], hops' = 0, cases' = [impulses(u), impulses(u + 1), newCase(VIEW, g)] }
  }
  action act = {
    nondet u = oneOf(0.to(2^64))
    val op = gOp(u, f, KINDS)
    val o = apply(f, op)
    if (o.risky or not(healthy(o.f))) start
    else all { f' = o.f, upd' = o.upd, hops' = hops + 1, cases' = [impulses(u), opCase(VIEW, f, o, op)] }
  }
  action init = start
  action step = if (hops >= 10) start else act
  val laws = lawful(f, upd)
}

module powered {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import inertial.* from "../inertial"
  import relative.* from "../relative"
  import fleet.* from "../fleet"
  import gen.* from "../gen"
  import fleetcore.* from "./fleetcore"
  import burns.* from "./burns"
  var cases: List[Case]
  var f: Fleet
  var upd: List[int]
  var hops: int
  pure val VIEW: str = "motion"
  pure val KINDS: List[str] = ["finite", "finite", "finite", "engine", "step", "to", "track", "lvlh", "impulse", "size", "stay"]
  action start = {
    nondet u = oneOf(0.to(2^64))
    val g = gFleet(u)
    all { f' = g, upd' = [], hops' = 0, cases' = [finites(u), newCase(VIEW, g)] }
  }
  action act = {
    nondet u = oneOf(0.to(2^64))
    val op = gOp(u, f, KINDS)
    val o = apply(f, op)
    if (o.risky or not(healthy(o.f))) start
    else all { f' = o.f, upd' = o.upd, hops' = hops + 1, cases' = [finites(u), opCase(VIEW, f, o, op)] }
  }
  action init = start
  action step = if (hops >= 8) start else act
  /// a burn lasts as long as the propellant it takes, and yields its velocity change in free space
  val laws = and {
    lawful(f, upd),
    f.foldl(true, (ok, c) => {
      val dv = ten(2)
      val t = burnTime(dv, c.mdot, mass(c), c.isp)
      ok and iabs(mul(mul(c.isp, G0), ln(div(mass(c), mass(c) - mul(c.mdot, t)))) - dv) < ten(30)
    }),
  }
}

module steering {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import inertial.* from "../inertial"
  import relative.* from "../relative"
  import fleet.* from "../fleet"
  import gen.* from "../gen"
  import fleetcore.* from "./fleetcore"
  var cases: List[Case]
  var f: Fleet
  var upd: List[int]
  var hops: int
  pure val VIEW: str = "steering"
  pure val KINDS: List[str] = ["track", "track", "track", "acquire", "look", "lvlh", "sun", "step", "step", "to", "to", "impulse", "finite", "stay", "size"]
  action start = {
    nondet u = oneOf(0.to(2^64))
    val g = gFleet(u)
    all { f' = g, upd' = [], hops' = 0, cases' = [newCase(VIEW, g)] }
  }
  action act = {
    nondet u = oneOf(0.to(2^64))
    val op = gOp(u, f, KINDS)
    val o = apply(f, op)
    if (o.risky or not(healthy(o.f))) start
    else all { f' = o.f, upd' = o.upd, hops' = hops + 1, cases' = [opCase(VIEW, f, o, op)] }
  }
  action init = start
  action step = if (hops >= 15) start else act
  val laws = lawful(f, upd)
}

module slewing {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import inertial.* from "../inertial"
  import relative.* from "../relative"
  import fleet.* from "../fleet"
  import gen.* from "../gen"
  import fleetcore.* from "./fleetcore"
  var cases: List[Case]
  var f: Fleet
  var upd: List[int]
  var hops: int
  pure val VIEW: str = "slew"
  pure val KINDS: List[str] = ["track", "track", "acquire", "look", "lvlh", "sun", "sun", "to", "to", "step", "scale", "scale", "impulse", "finite", "stay"]
  action start = {
    nondet u = oneOf(0.to(2^64))
    val g = gFleet(u)
    all { f' = g, upd' = [], hops' = 0, cases' = [newCase(VIEW, g)] }
  }
  pure def steers(op: Op): bool = op.k == "lvlh" or op.k == "sun" or op.k == "track" or op.k == "acquire"
  /// whether a slew ends exactly at an update cannot be told: such updates are not taken
  pure def clear(g: Fleet): bool = g.foldl(true, (ok, c) => ok and (not(c.slew) or c.s.t <= c.stop or c.s.t > c.stop + D(3, 6)) and
    (c.stop == 0 or c.s.t <= c.stop or c.s.t - c.stop > D(3, 6)))
  action act = {
    nondet u = oneOf(0.to(2^64))
    val op = gOp(u, f, KINDS)
    val o = apply(f, op)
    // a slew from a boresight that rounding may have moved has no predicted angle
    if (o.risky or not(healthy(o.f)) or not(clear(o.f)) or (f[op.i].loose and steers(op))) start
    else all { f' = o.f, upd' = o.upd, hops' = hops + 1, cases' = [opCase(VIEW, f, o, op)] }
  }
  action init = start
  action step = if (hops >= 20) start else act
  val laws = lawful(f, upd)
}
