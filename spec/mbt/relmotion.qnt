// -*- mode: Bluespec; -*-
/// Behaviours for C15 (Hill coordinates), C16 (Hill flow), C17 (filter).
module hillframe {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import relative.* from "../relative"
  import gen.* from "../gen"
  var cases: List[Case]
  var pair: (PV, PV)

  /// a state away from the pole of the origin's orbit
  pure def near(o: PV, u: int, k: int): PV = {
    val c = draw(u, k) % 4
    val d = if (c == 0) dr(u, k + 1, 20, ten(2), S) else if (c == 1) dr(u, k + 1, 20, S, I(300)) else dr(u, k + 1, 20, I(300), I(3000))
    { r: vgrid(vadd(o.r, gVec(u, k + 2, d, 30)), 30), v: vgrid(vadd(o.v, gVec(u, k + 12, dr(u, k + 24, 30, 0, ten(1)), 40)), 40) }
  }
  pure def sinLat(o: PV, s: PV): int = iabs(dot(unit(vcross(o.r, o.v)), unit(s.r)))
  pure def any_(o: PV, u: int, k: int): PV = {
    val s = gState(u, k, 60)
    if (sinLat(o, s) > D(99, 2)) near(o, u, k + 60) else s
  }
  pure def cosLat(o: PV, s: PV): int = sqrt(S - sq(sinLat(o, s)))
  /// the two states may carry different epochs: the origin's counts
  pure def to_(o: PV, s: PV, t: int, t2: int): Case = {
    val h = toHill(o, s)
    val c = cosLat(o, s)
    val tr = div(mul(mag(o.r), D(2, 14)), c) + mul(mag(s.r), ten(14))
    val tv = div(mul(mul(div(mag(o.r), mag(s.r)), mag(s.v)) + mag(o.v), ten(13)), sq(c))
    case("hcw.to", vl(o.r).concat(vl(o.v)).concat(vl(s.r)).concat(vl(s.v)).concat([t, t2]),
      oV(h.r, tr).concat(oV(h.v, tv)).concat([oE(t)]).concat(oV(h.r, tr)))
  }
  pure def from_(o: PV, h: PV, t: int, t2: int): Case = {
    val s = fromHill(o, h)
    case("hcw.from", vl(o.r).concat(vl(o.v)).concat(vl(h.r)).concat(vl(h.v)).concat([t, t2]),
      oV(s.r, mul(mag(o.r) + mag(s.r), D(2, 14))).concat(oV(s.v, mul(mag(o.v) + mag(s.v) + mag(h.v), ten(13)))).concat([oE(t)]))
  }
  pure def loop(o: PV, s: PV, t: int, t2: int): Case = {
    val c = cosLat(o, s)
    case("hcw.loop", vl(o.r).concat(vl(o.v)).concat(vl(s.r)).concat(vl(s.v)).concat([t, t2]),
      oV(s.r, div(mul(mag(o.r) + mag(s.r), D(4, 14)), c)).concat(oV(s.v, div(mul(mag(o.v) + mag(s.v), D(5, 13)), mul(c, c)))).append(oE(t)))
  }
  pure def zero(o: PV, t: int): Case = case("hcw.zero", vl(o.r).concat(vl(o.v)).append(t),
    oRs([0, 0, 0], mul(mag(o.r), D(2, 15))).concat(oRs([0, 0, 0], mul(mag(o.v), D(2, 14))))
    .concat(oV(o.r, mul(mag(o.r), D(2, 15)))).concat(oV(o.v, mul(mag(o.v), D(2, 14)))))
  pure def frame(o: PV): Case = case("hcw.frame", vl(o.r).concat(vl(o.v)), oRs(ml(ric(o)), ten(14)))
  action go = {
    nondet u = oneOf(0.to(2^64))
    val o = if (dchance(u, 1, 1, 3)) gState(u, 2, 70) else gCircular(u, 2)
    val t = gEpoch(u, 40)
    val t2 = dpick(u, 45, [t, t, gEpoch(u, 46), 0])
    val s = near(o, u, 50)
    val w = any_(o, u, 80)
    val h = { r: (dr(u, 200, 20, -I(3000), I(3000)), dsgn(u, 201, dr(u, 202, 20, 0, mul(I(3), mag(o.r)))), dsgn(u, 203, dr(u, 204, 20, 0, mul(D(14, 1), mag(o.r))))),
              v: gVec(u, 210, dr(u, 220, 20, 0, S), 40) }
    all {
      pair' = (o, w),
      cases' = [to_(o, s, t, t2), to_(o, w, t, t), from_(o, h, t, t2), loop(o, s, t, t2), loop(o, w, t, t), zero(o, t), frame(o)],
    }
  }
  action init = go
  action step = go
  val laws = {
    val o = pair._1
    val s = pair._2
    val b = fromHill(o, toHill(o, s))
    val f = ric(o)
    // the rates are the time derivatives of the coordinates along straight motion of both
    val dt = S / 2^30
    val h0 = toHill(o, o)
    and {
      vinf(vsub(b.r, s.r)) < ten(20), vinf(vsub(b.v, s.v)) < ten(20),
      vinf(h0.r) < ten(30), vinf(h0.v) < ten(30),
      iabs(det(f) - S) < ten(30), iabs(dot(f._1, f._3)) < ten(30), iabs(dot(f._1, f._2)) < ten(30),
      dot(f._2, o.v) > 0,
    }
  }
}

module hillflow {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import relative.* from "../relative"
  import gen.* from "../gen"
  var cases: List[Case]
  var x: Vec
  var n: int
  var hcfg: int
  var err: int
  var hops: int

  pure def see(y: Vec, e: int, sz: int, w: int): List[Out] =
    oRs(y.slice(0, 3), e).concat(oRs(y.slice(3, 6), mul(e, w) + ten(17))).concat(oRs(y.slice(0, 3), e))
    .concat(oRs(y.slice(3, 6), mul(e, w) + ten(17))).append(oE(sz))
  pure def vec6(u: int, k: int): Vec =
    if (dchance(u, k, 1, 6)) range(0, 6).foldl([], (acc, i) => acc.append(if (i == draw(u, k + 1) % 6) (if (i < 3) S else ten(3) / 2^20 * 2^20) else 0))
    else vl(gVec(u, k + 2, dlog(u, k + 12, -8, 3), 40)).concat(vl(gVec(u, k + 20, dlog(u, k + 30, 5, 16), 50)))
  /// error after a flow of dt: rounding of the matrix entries against the state
  pure def grow(y: Vec, w: int, e: int, dt: int): int = {
    val a = mul(w, iabs(dt))
    val size_ = gdot(y.foldl([], (acc, v) => acc.append(iabs(v))), [S, S, S, div(S, w), div(S, w), div(S, w)])
    mul(e, I(8) + 7 * a) + mul(mul(size_, I(8) + 7 * a), D(1, 14))
  }
  action start = {
    nondet u = oneOf(0.to(2^64))
    // the Hill equations do not know the size of the Earth
    val sma = if (dchance(u, 5, 1, 8)) dr(u, 6, 20, I(500), I(6600)) else gWide(u, 1)
    val y0 = vec6(u, 10)
    val y = y0.foldl([], (acc, v) => acc.append(grid(v, 50)))
    all {
      n' = meanMotion(sma), x' = y, hcfg' = I(600), err' = mul(gmax([y]), ten(15)) + ten(17), hops' = 0,
      cases' = [case("hill.new", [sma].concat(y), see(y, ten(15), I(600), S).append(oR(meanMotion(sma), mul(meanMotion(sma), ten(14)))))],
    }
  }
  pure def gTime(u: int, k: int): int = {
    val c = draw(u, k) % 6
    if (c == 0) 0 else if (c == 5) dsgn(u, k + 1, dlog(u, k + 2, 1, 30)) else if (c == 1) dsgn(u, k + 1, dr(u, k + 2, 10, 0, I(60)))
    else if (c == 2) dsgn(u, k + 1, dr(u, k + 2, 10, I(20000), I(170000)))
    else dsgn(u, k + 1, dr(u, k + 2, 10, I(60), I(20000)))
  }
  action by = {
    nondet u = oneOf(0.to(2^64))
    val t = gTime(u, 1)
    val F = hill(n, t)
    val y = gmv(F, x)
    val e = grow(x, n, err, t)
    all {
      x' = y, n' = n, hcfg' = hcfg, err' = e, hops' = hops + 1,
      cases' = [case("hill.matrix", [t], range(0, 36).foldl([], (acc, i) => acc.append({
                  val v = F[i / 6][i % 6]
                  oR(v, mul(iabs(v), ten(11)) + mul(if (i / 6 < 3 and i % 6 >= 3) div(S, n) else if (i / 6 >= 3 and i % 6 < 3) n else S, mul(I(1) + mul(n, iabs(t)), ten(14))))}))),
                case("hill.by", [t], see(y, e, hcfg, n))],
    }
  }
  action one = {
    val y = gmv(hill(n, hcfg), x)
    val e = grow(x, n, err, hcfg)
    all { x' = y, n' = n, hcfg' = hcfg, err' = e, hops' = hops + 1, cases' = [case("hill.step", [], see(y, e, hcfg, n))] }
  }
  action configure = {
    nondet u = oneOf(0.to(2^64))
    val z = if (dchance(u, 3, 1, 6)) 0 else if (dchance(u, 4, 1, 5)) dsgn(u, 1, dlog(u, 2, 1, 20)) else dsgn(u, 1, dr(u, 2, 5, S, I(2000)))
    all { x' = x, n' = n, hcfg' = z, err' = err, hops' = hops, cases' = [case("hill.size", [z], see(x, err, z, n))] }
  }
  action init = start
  action step = if (hops >= 6) start else any { by, by, by, one, configure }
  pure def close(a: Mat, b: Mat, t: int): bool = gmax(gsub(a, b)) <= t
  val laws = {
    val t = 3 * hcfg
    val dt = S / 2^40
    val a = hill(n, t)
    val later = hill(n, t + dt)
    val sooner = hill(n, t - dt)
    val ga = gmm(hillGenerator(n), a)
    and {
      close(gmm(a, hill(n, -t)), gid(6), ten(20)),
      close(gmm(a, hill(n, hcfg)), hill(n, 4 * hcfg), ten(20)),
      // the flow solves the Hill equations: d/dt Phi = A Phi, Phi(0) = I
      close(hill(n, 0), gid(6), ten(30)),
      range(0, 6).foldl(true, (ok, i) => ok and range(0, 6).foldl(true, (k, j) => k and
        iabs((later[i][j] - sooner[i][j]) * 2^39 - ga[i][j]) <= ten(15))),
    }
  }
}

module filtering {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import relative.* from "../relative"
  import kalman.* from "../kalman"
  import gen.* from "../gen"
  var cases: List[Case]
  var f: Filter
  var prior: Filter
  /// bound on the rounding error carried by the estimate of the code
  var er: Vec
  var obsr: PV
  var hops: int

  pure def sig(p: Mat, i: int): int = sqrt(imax(p[i][i], 0))
  /// how well the rounding of the code lets the filter be predicted
  pure def tX(a: Filter, pr: Filter, i: int, loose: int): int =
    mul(sig(pr.p, i) + iabs(a.x[i] - pr.x[i]), 1000 * loose) + (if (i < 3) ten(9) else ten(12))
  pure def absM(m: Mat): Mat = m.foldl([], (acc, r) => acc.append(r.foldl([], (row, x) => row.append(iabs(x)))))
  /// the error carried through prediction and update, plus what this step adds
  pure def carry(e: Vec, a: Filter, pr: Filter, dt: int, s: V3, loose: int): Vec = {
    val k = gainOf(pr.p, s)
    val ikh = range(0, 6).foldl([], (acc, i) => acc.append(range(0, 6).foldl([], (row, j) => row.append(
      (if (i == j) S else 0) - (if (j < 3) k[i][j] else 0)))))
    val m = absM(gmm(ikh, hill(pr.n, dt)))
    vecAdd(gmv(m, e), range(0, 6).foldl([], (acc, i) => acc.append(tX(a, pr, i, loose))))
  }
  pure def see(a: Filter, pr: Filter, loose: int, b: Sight, e: Vec): List[Out] =
    range(0, 6).foldl([], (acc, i) => acc.append(oR(a.x[i], e[i])))
    .concat(range(0, 36).foldl([], (acc, k) => {
      val i = k / 6
      val j = k % 6
      acc.append(oR(a.p[i][j], mul(mul(sig(a.p, i), sig(a.p, j)), 1000 * loose) + mul(mul(sig(pr.p, i), sig(pr.p, j)), ten(12))))
    }))
    .concat([oE(b.t), oE(b.dr), oE(b.da)])
    .concat(range(0, 6).foldl([], (acc, i) => acc.append(oR(a.x[i], e[i]))))
  pure def gCov(u: int, k: int): List[int] = range(0, 6).foldl([], (acc, i) => acc.append(
    if (i < 3) dlog(u, k + i, -4, 6) else dlog(u, k + i, 10, 22)))
  pure def gNoise(u: int, k: int): List[int] = range(0, 6).foldl([], (acc, i) => acc.append(
    if (i < 3) dlog(u, k + i, 14, 40) else dlog(u, k + i, 30, 50)))

  action start = {
    nondet u = oneOf(0.to(2^64))
    val o = gCircular(u, 1)
    val sma = grid(toElements(o).a, 20)
    val t = gEpoch12(u, 30)
    val x = vl(gVec(u, 40, dr(u, 50, 20, S, I(100)), 40)).concat(vl(gVec(u, 52, dlog(u, 62, 6, 12), 50)))
    val x1 = x.foldl([], (acc, v) => acc.append(grid(v, 46)))
    val own = dchance(u, 70, 1, 2)
    val p = if (own) diag(gCov(u, 71)) else P_DEFAULT
    val q = if (own) diag(gNoise(u, 81)) else Q_DEFAULT
    val s = { x: x1, p: p, q: q, n: meanMotion(sma), t: t }
    all {
      f' = s, prior' = s, obsr' = o, hops' = 0, er' = [0, 0, 0, 0, 0, 0],
      cases' = [caseS("kf.new", [if (own) "own" else "default"], [sma, t].concat(x1).concat(gCov(u, 71)).concat(gNoise(u, 81)),
        oRs(x1, ten(15)).concat(oRs(gflat(p), ten(15))).append(oE(t)))],
    }
  }
  /// a spacecraft takes up a neighbour: the estimate starts at the neighbour's Hill state, on its own orbit
  action acquire = {
    nondet u = oneOf(0.to(2^64))
    val o = gCircular(u, 1)
    val t = gEpoch12(u, 30)
    val nb = fromHill(o, { r: gVec(u, 40, dr(u, 50, 20, S, I(100)), 40), v: gVec(u, 52, dlog(u, 62, 4, 12), 50) })
    val seed = { r: vgrid(nb.r, 30), v: vgrid(nb.v, 40) }
    val h = toHill(o, seed)
    val x = vl(h.r).concat(vl(h.v))
    val s = { x: x, p: P_DEFAULT, q: Q_DEFAULT, n: meanMotion(toElements(o).a), t: t }
    val e = [ten(9), ten(9), ten(9), ten(12), ten(12), ten(12)]
    all {
      f' = s, prior' = s, obsr' = o, hops' = 0, er' = e,
      cases' = [case("kf.acquire", vl(o.r).concat(vl(o.v)).concat(vl(seed.r)).concat(vl(seed.v)).append(t),
        range(0, 6).foldl([], (acc, i) => acc.append(oR(x[i], e[i]))).concat(oRs(gflat(P_DEFAULT), ten(15))).append(oE(t)).append(oB(true)))],
    }
  }
  /// the observer drifts along its orbit; what it sees is near the current prediction
  action sight = {
    nondet u = oneOf(0.to(2^64))
    val c = draw(u, 1) % 7
    // observations may also come late: from before the last one
    val k = if (c == 0) 0 else if (c == 6) -di(u, 2, 1, 60) else if (c <= 3) di(u, 2, 1, 12) else if (c == 4) di(u, 2, 13, 120) else di(u, 2, 120, 3000)
    val t = f.t + k * S / 4096
    val oe = toElements(obsr)
    val o0 = toCartesian({ ...oe, M: oe.M + mul(meanMotion(oe.a), k * S / 4096 * SECONDS_IN_DAY) })
    val o = { r: vgrid(o0.r, 30), v: vgrid(o0.v, 40) }
    val pr = predicted(f, t)
    // sighted point: the prediction displaced by up to a few sigma, far wild ones included
    val nd = gVec(u, 10, mul(sig(pr.p, 0) + ten(3), dpick(u, 20, [ten(1), S, 3 * S, 40 * S])), 30)
    val h = { r: vadd(lv(pr.x, 0), nd), v: V0 }
    val far = mag(h.r) > mag(o.r) / 2
    val los = vgrid(if (far) vscale(unit(h.r), I(100)) else vsub(fromHill(o, h).r, o.r), 30)
    val los1 = if (mag(los) < ten(1)) (I(3), -I(4), I(5)) else los
    // ordinary instruments, and very accurate ones (the last of a history: rounding in the covariance is not carried)
    val fine = dchance(u, 32, 1, 8)
    val b = { o: o, los: los1, dr: if (fine) dlog(u, 30, 7, 14) else dr(u, 30, 30, ten(2), I(2)), da: if (fine) dlog(u, 31, 12, 24) else dr(u, 31, 40, ten(6), ten(3)), t: t }
    val s = spread(b)
    val weak = imin(iabs(s._1), imin(iabs(s._2), iabs(s._3)))
    val loose = div(D(3, 11), imax(weak, ten(9))) + ten(8)
    val post = process(f, b)
    val e = carry(er, post, pr, (t - f.t) * SECONDS_IN_DAY, s, loose)
    all {
      f' = post, prior' = pr, obsr' = o, er' = e, hops' = if (fine or weak < ten(5)) 99 else hops + 1,
      cases' = [case("kf.process", vl(o.r).concat(vl(o.v)).concat(vl(los1)).concat([b.dr, b.da, t]), see(post, pr, loose, b, e))],
    }
  }
  /// looking ahead or back changes nothing that is remembered
  action peek = {
    nondet u = oneOf(0.to(2^64))
    val dt = dr(u, 1, 20, I(-2000), I(9000))
    val t = f.t + dt / SECONDS_IN_DAY
    val m = hill(f.n, dt)
    val x = gmv(m, f.x)
    val p = gadd(gmm(gmm(m, f.p), gT(m)), f.q)
    val e = gmv(absM(m), er)
    val floor_ = gmv(absM(m), f.x.foldl([], (acc, v) => acc.append(mul(iabs(v), ten(13)))))
    all {
      f' = f, prior' = f, obsr' = obsr, er' = er, hops' = hops,
      cases' = [case("kf.peek", [dt], range(0, 6).foldl([], (acc, i) => acc.append(oR(x[i], 2 * e[i] + floor_[i] + ten(13))))
        .concat(range(0, 36).foldl([], (acc, k) => acc.append(oR(p[k / 6][k % 6], mul(mul(sig(p, k / 6), sig(p, k % 6)), ten(5)) + ten(18)))))
        .append(oE(f.t)))],
    }
  }
  /// the process noise is reconfigured on the way
  action noise = {
    nondet u = oneOf(0.to(2^64))
    val d = gNoise(u, 1)
    all { f' = { ...f, q: diag(d) }, prior' = { ...f, q: diag(d) }, obsr' = obsr, er' = er, hops' = hops, cases' = [case("kf.noise", d, [oE(f.t)])] }
  }
  action act = {
    nondet w = oneOf(0.to(9))
    if (w == 0) peek else if (w == 1) noise else sight
  }
  action begin = {
    nondet w = oneOf(0.to(2))
    if (w == 0) acquire else start
  }
  action init = begin
  action step = if (hops >= 30) begin else act
  /// Symmetric, positive on the diagonal and on every principal plane, and the
  /// measured variances never grow in an update.
  val laws = range(0, 6).foldl(true, (ok, i) => ok and f.p[i][i] > 0 and (hops == 0 or f.p[i][i] <= prior.p[i][i] + ten(40))
    and range(0, 6).foldl(true, (k, j) => k and iabs(f.p[i][j] - f.p[j][i]) <= ten(30)
      and (i == j or mul(f.p[i][i], f.p[j][j]) + ten(40) > sq(f.p[i][j]))))
}
