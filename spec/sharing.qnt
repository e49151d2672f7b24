// -*- mode: Bluespec; -*-
/// Objects as values.  A pool of handles; every handle has a content token.
/// Operations create handles or change the handles they are documented to
/// change; no other token ever changes.
module sharing {
  type Handle = { k: str, tok: int, tgt: int, own: int }
  type Pool = List[Handle]
  /// name, kinds of the arguments, kind of the result ("" none), whether the
  /// first argument is changed, whether the result is a copy of the first
  type Row = { n: str, a: List[str], r: str, m: bool, c: bool }

  pure def make(n: str, a: List[str], r: str): Row = { n: n, a: a, r: r, m: false, c: false }
  pure def ask(n: str, a: List[str]): Row = { n: n, a: a, r: "", m: false, c: false }
  pure def change(n: str, a: List[str]): Row = { n: n, a: a, r: "", m: true, c: false }
  pure def dup(n: str, k: str): Row = { n: n, a: [k], r: k, m: false, c: true }

  pure val SOURCES: List[Row] = [make("new.pos", [], "pos"), make("new.vel", [], "vel"), make("new.dir", [], "dir"), make("new.burn", [], "burn"),
    make("new.epoch", [], "epoch"), make("new.lla", [], "lla"), make("new.v6", [], "v6"), make("new.camera", [], "camera"),
    make("new.unit", [], "unit"), make("new.zero", [], "zero"), make("new.zero6", [], "zero6")]
  pure val ALGEBRA: List[Row] = [
    dup("copy", "pos"), dup("copy", "vel"), dup("copy", "dir"), dup("copy", "v6"),
    make("plus", ["dir", "burn"], "dir"), make("minus", ["dir", "burn"], "dir"), make("cross", ["pos", "vel"], "v3"), make("scaled", ["dir"], "v3"),
    make("normalized", ["pos"], "v3"), make("rotated", ["dir", "pos"], "dir"), make("noisy", ["dir"], "v3"), ask("measure", ["pos", "dir"]),
    make("v6.of", ["pos", "vel"], "w6"), make("v6.plus", ["v6", "v6"], "v6"), make("v6.minus", ["v6", "v6"], "v6"), ask("v6.ask", ["v6", "v6"]),
    make("m3.new", ["dir", "pos", "vel"], "m3"), make("rotation", ["pos"], "rot"), make("m3.transpose", ["m3"], "m3"), make("rot.inverse", ["rot"], "rot"),
    make("m3.scaled", ["rot"], "m3"), make("m3.plus", ["m3", "rot"], "m3"), make("m3.apply", ["rot", "pos"], "v3"), make("m3.column", ["m3"], "v3"), ask("m3.ask", ["m3"]),
    make("m6.new", ["v6", "v6", "v6"], "m6"), make("m6.identity", [], "m6"), make("m6.transpose", ["m6"], "m6"), make("m6.times", ["m6", "m6"], "m6"),
    make("m6.plus", ["m6", "m6"], "m6"), make("m6.minus", ["m6", "m6"], "m6"), make("m6.apply", ["m6", "v6"], "w6"), make("m6.column", ["m6"], "w6"),
    make("m36.new", ["v6", "v6", "v6"], "m36"), make("m36.transpose", ["m36"], "m63"), make("m36.apply", ["m36", "v6"], "v3"), make("m36.times", ["m36", "m63"], "m3"),
    make("m63.new", ["dir", "pos", "vel"], "m63"), make("m63.transpose", ["m63"], "m36"), make("m63.times3", ["m63", "rot"], "m63"), make("m63.times36", ["m63", "m36"], "m6"),
    make("m63.apply", ["m63", "dir"], "w6"), make("m3.times36", ["rot", "m36"], "m36"), make("m6.times63", ["m6", "m63"], "m63"),
    // operands for which an operation has nothing to do: unit and zero vectors, identities, zero matrices
    make("normalized", ["unit"], "v3"), make("rotated", ["unit", "unit"], "v3"), make("cross", ["unit", "dir"], "v3"), make("m3.apply", ["rot", "unit"], "v3"),
    make("plus", ["dir", "zero"], "v3"), make("plus", ["zero", "dir"], "v3"), make("minus", ["dir", "zero"], "v3"), dup("copy", "zero"), make("scaled", ["zero"], "v3"),
    make("v6.plus", ["v6", "zero6"], "w6"), make("v6.plus", ["zero6", "v6"], "w6"), make("v6.minus", ["v6", "zero6"], "w6"), dup("copy", "zero6"),
    make("rotation.none", ["unit"], "rot"), make("m3.zero", ["zero"], "m3"), make("m3.plus", ["m3", "m3"], "m3"), make("m6.zero", ["zero6"], "m6"), dup("copy", "m6"),
    make("noisy", ["unit"], "v3")]
  pure val SPACE: List[Row] = [
    dup("copy", "epoch"), make("plus_days", ["epoch"], "epoch"), ask("epoch.ask", ["epoch"]), make("earth", ["epoch"], "rot"), make("sunmoon", ["epoch"], "v3"),
    dup("copy", "lla"), make("lla.itrf", ["lla"], "v3"), make("itrf.lla", ["pos"], "lla"), make("enz.itrf", ["lla", "dir"], "v3"), make("gcrf.frames", ["pos", "epoch"], "v3"),
    make("itrf.frames", ["pos", "epoch"], "v3"), make("spherical", ["pos"], "sph"), make("cartesian", ["sph"], "v3"),
    make("gcrf", ["epoch", "pos", "vel"], "gcrf"), dup("copy", "gcrf"), make("gcrf.derivative", ["gcrf"], "v3"), make("gcrf.forces", ["gcrf"], "v3"), make("gcrf.toward", ["gcrf"], "v3"),
    make("itrf", ["epoch", "pos"], "itrf"), dup("copy", "itrf"), make("hcw", ["epoch", "dir", "burn"], "hcw"), dup("copy", "hcw"), make("hcw.of", ["v6"], "hcw"),
    make("ijk", ["epoch", "pos", "vel"], "ijk"), dup("copy", "ijk"), make("frame", ["gcrf"], "rot"), make("to_hcw", ["gcrf", "gcrf"], "hcw"), make("to_gcrf", ["hcw", "gcrf"], "gcrf"),
    make("coe", ["epoch"], "coe"), make("coe.of", ["ijk"], "coe"), make("coe.ijk", ["coe"], "ijk"), make("coe.axes", ["coe"], "v3")]
  pure val MOTION: List[Row] = [
    make("rk4", ["gcrf"], "rk4"), change("rk4.step", ["rk4"]), change("rk4.to", ["rk4", "epoch"]), change("rk4.maneuver", ["rk4", "burn"]), ask("rk4.thrust", ["rk4"]),
    make("hill", ["hcw"], "hill"), change("hill.step", ["hill"]), change("hill.by", ["hill"]), make("hill.matrix", ["hill"], "m6"),
    make("filter", ["epoch", "hill"], "kalman"), change("filter.process", ["kalman", "sobs"]), change("filter.predict", ["kalman"]),
    make("sobs", ["gcrf", "dir"], "sobs"), make("sobs.ijk", ["sobs"], "v3"), make("gobs", ["itrf", "dir"], "gobs"), make("gobs.angles", ["itrf"], "gobs"), make("gobs.place", ["gobs"], "v3"),
    make("site", ["lla"], "site"), make("site.of", ["pos"], "site"), make("site.enz", ["site", "pos"], "v3"), make("site.look", ["site", "craft"], "gobs"),
    make("craft", ["gcrf"], "craft"), change("craft.step", ["craft"]), change("craft.to", ["craft", "epoch"]), change("craft.impulse", ["craft", "burn"]), change("craft.finite", ["craft", "burn"]),
    change("craft.sun", ["craft"]), change("craft.lvlh", ["craft"]), change("craft.track", ["craft", "craft"]), change("craft.acquire", ["craft", "craft"]),
    make("craft.observe", ["craft", "craft"], "sobs"), ask("craft.ask", ["craft", "craft"]), make("craft.state", ["craft"], "gcrf"), make("craft.vector", ["craft"], "v3"), make("craft.epoch", ["craft"], "epoch"),
    change("craft.process", ["craft", "craft"]), change("craft.impulse", ["craft", "zero"]), change("craft.finite", ["craft", "zero"]),
    change("rk4.stay", ["rk4"]), change("craft.stay", ["craft"]), change("hill.by0", ["hill"])]
  pure val POKES: List[Row] = ["pos", "vel", "dir", "v3", "v6", "w6", "m3", "rot", "m6", "m36", "m63", "epoch", "lla", "sph", "gcrf", "itrf", "hcw", "ijk", "coe", "rk4",
    "hill", "kalman", "sobs", "gobs", "site", "craft", "camera", "unit", "zero", "zero6"].foldl([], (acc, k) => acc.append(change("poke", [k])))
  pure val ROWS: List[Row] = SOURCES.concat(ALGEBRA).concat(SPACE).concat(MOTION).concat(MOTION).concat(POKES)

  pure def member(l: List[int], i: int): bool = l.foldl(false, (a, x) => a or x == i)
  /// the handles of kind k
  pure def ofKind(p: Pool, k: str): List[int] = range(0, p.length()).foldl([], (acc, i) => if (p[i].k == k) acc.append(i) else acc)
  /// everything an attitude update of craft i may move
  pure def reached(p: Pool, i: int): List[int] = range(0, p.length()).foldl([i], (acc, n) => {
    val h = p[acc[acc.length() - 1]]
    if (h.tgt >= 0) acc.append(h.tgt) else acc
  })
  pure def touched(p: Pool, r: Row, at: List[int]): List[int] =
    if (not(r.m)) []
    else if (r.n == "poke") [at[0]]
    else if (r.n == "filter.process") [at[0], p[at[0]].own]
    else reached(p, at[0])
  /// a new target is remembered until the craft points elsewhere
  pure def aimed(p: Pool, r: Row, at: List[int]): Pool =
    if (r.n == "craft.track" or r.n == "craft.acquire") p.replaceAt(at[0], { ...p[at[0]], tgt: at[1] })
    else p
  pure def perform(p: Pool, r: Row, at: List[int], fresh: int): Pool = {
    val q = aimed(p, r, at)
    val t = touched(q, r, at)
    val moved = range(0, q.length()).foldl([], (acc, i) => acc.append(if (member(t, i)) { ...q[i], tok: fresh + i } else q[i]))
    if (r.r == "") moved
    else moved.append({ k: r.r, tok: if (r.c) q[at[0]].tok else fresh + q.length(), tgt: -1, own: if (r.n == "filter") at[1] else -1 })
  }
}
