// -*- mode: Bluespec; -*-
/// Histories of a pool of objects for C09.  After every operation every live
/// object is compared with its snapshot from before.
module alias {
  import real.* from "../real"
  import sharing.* from "../sharing"
  var cases: List[Case]
  var pool: Pool
  var before: Pool
  var hit: List[int]
  var clock: int
  var theme: int

  pure val LIMIT: int = 29
  pure def digit(i: int): str = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20",
    "21", "22", "23", "24", "25", "26", "27", "28", "29"][i]
  /// the arguments: a handle of each kind, the second of a pair of crafts another one
  pure def gArgs(u: int, p: Pool, r: Row): List[int] = range(0, r.a.length()).foldl([], (acc, n) => {
    val all0 = ofKind(p, r.a[n])
    val l = if (r.a[n] == "craft" and n == 1 and r.a[0] == "craft" and acc[0] >= 0) all0.select(i => if (r.m) i < acc[0] else i != acc[0]) else all0
    if (l.length() == 0) acc.append(-1)
    else {
      // recent handles are favoured
      val newest = l[l.length() - 1]
      acc.append(if (draw(u, 20 + n) % 3 == 0) newest else l[draw(u, 30 + n) % l.length()])
    }
  })
  pure def possible(at: List[int]): bool = at.foldl(true, (ok, i) => ok and i >= 0)
  /// histories have themes: the objects they begin with and the operations they consist of
  type Theme = { begin: List[str], ops: List[Row] }
  pure val THEMES: List[Theme] = [
    { begin: ["new.pos", "new.vel", "new.dir", "new.burn", "new.epoch", "new.v6", "new.v6", "new.lla", "new.unit", "new.zero", "new.zero6"], ops: SOURCES.concat(ALGEBRA).concat(SPACE) },
    { begin: ["new.pos", "new.vel", "new.dir", "new.v6", "new.v6", "rotation", "m3.new", "m6.new", "m36.new", "m63.new", "new.unit", "new.zero", "new.zero6"], ops: ALGEBRA },
    { begin: ["new.pos", "new.vel", "new.dir", "new.burn", "new.epoch", "new.lla", "gcrf", "hcw", "ijk", "itrf", "coe"], ops: SPACE },
    { begin: ["new.pos", "new.vel", "new.epoch", "new.dir", "new.burn", "gcrf", "hcw", "hill", "rk4", "filter", "sobs"], ops: SPACE.concat(MOTION).concat(MOTION) },
    { begin: ["new.pos", "new.vel", "new.epoch", "gcrf", "craft", "new.pos", "new.vel", "gcrf", "craft", "gcrf", "craft", "new.burn", "new.lla", "site"], ops: MOTION },
    { begin: ["new.pos", "new.vel", "new.epoch", "gcrf", "craft", "craft", "craft", "new.dir", "new.burn", "new.zero", "hcw", "hill", "filter", "filter"], ops: MOTION }]
  pure def rowNamed(n: str): Row = ROWS.foldl(SOURCES[0], (acc, r) => if (r.n == n) r else acc)
  pure def newestArgs(p: Pool, r: Row): List[int] = r.a.foldl([], (acc, k) => {
    val l = ofKind(p, k)
    acc.append(l[l.length() - 1])
  })
  /// the first possible of forty candidates; some are in-place edits, and what adds no object is favoured
  pure def gRow(u: int, p: Pool, ops: List[Row]): { r: Row, at: List[int], done: bool } =
    range(0, 40).foldl({ r: SOURCES[0], at: [], done: false }, (acc, n) =>
      if (acc.done) acc
      else {
        // often what was made last is edited next
        val r = if (n == 0 and draw(u, 99) % 5 == 0) change("poke", [p[p.length() - 1].k])
          else if (draw(u, 500 + n) % 4 == 0) POKES[draw(u, 150 + n) % POKES.length()] else ops[draw(u, 100 + n) % ops.length()]
        val at = gArgs(u + n, p, r)
        if (possible(at) and (r.r == "" or draw(u, 400 + n) % 2 == 0)) { r: r, at: at, done: true } else acc
      })
  pure def opCase(u: int, p: Pool, r: Row, at: List[int]): Case = {
    val t = touched(aimed(p, r, at), r, at)
    caseS(r.n, at.foldl([r.r], (acc, i) => acc.append(digit(i))),
      range(0, 6).foldl([], (acc, n) => acc.append(dr(u, 200 + n, 20, -S, S))),
      // the classes' defaults, the equality of a copy, and every object that was there before
      range(0, p.length()).foldl([oB(true), if (r.c) oB(true) else oX], (acc, i) =>
        acc.append(if (not(member(t, i))) oB(true) else if (r.n == "poke") oB(false) else oX)))
  }
  pure def srpCase(u: int): Case = {
    val k = dr(u, 300, 20, ten(2), S)
    caseS("copy.srp", ["known:srp"], [k], [oB(true), oE(k), oB(true), oE(0)])
  }
  action start = {
    nondet u = oneOf(0.to(2^64))
    val t = THEMES[draw(u, 1) % THEMES.length()]
    val p0 = t.begin.foldl({ p: [], c: [srpCase(u)], n: 0 }, (acc, name) => {
      val r = rowNamed(name)
      val at = newestArgs(acc.p, r)
      { p: perform(acc.p, r, at, 1000 * (acc.n + 1)), c: acc.c.append(opCase(u + acc.n, acc.p, r, at)), n: acc.n + 1 }
    })
    all { pool' = p0.p, before' = p0.p, hit' = [], clock' = 100, theme' = draw(u, 1) % THEMES.length(), cases' = [caseS("reset", [], [], [])].concat(p0.c) }
  }
  action act = {
    nondet u = oneOf(0.to(2^64))
    val g = gRow(u, pool, THEMES[theme].ops)
    val q = perform(pool, g.r, g.at, 1000 * clock)
    all { pool' = q, before' = pool, hit' = touched(aimed(pool, g.r, g.at), g.r, g.at), clock' = clock + 1, theme' = theme,
      cases' = [opCase(u, pool, g.r, g.at)] }
  }
  action init = start
  action step = if (pool.length() >= LIMIT or clock > 160) start else act
  /// only what an operation is documented to change changes
  val laws = range(0, imin(before.length(), pool.length())).foldl(true, (ok, i) =>
    ok and (pool[i].tok == before[i].tok or member(hit, i) or clock == 100))
}
