// -*- mode: Bluespec; -*-
/// Behaviours for C24: simulated observations.  The specification predicts the
/// distribution of the disturbed direction; the code's draws are judged by
/// statistics with envelopes of at least six and a half standard deviations.
module noise {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import timesys.* from "../timesys"
  import celestial.* from "../celestial"
  import orbit.* from "../orbit"
  import inertial.* from "../inertial"
  import relative.* from "../relative"
  import optics.* from "../optics"
  import gen.* from "../gen"
  var cases: List[Case]
  var n: int

  /// standard deviation of the mean of k independent draws of unit variance
  pure def sem(k: int): int = sqrt(I(1) / k)
  pure def meanTol(k: int): int = 13 * sem(k) / 2
  pure def varTol(k: int): int = mul(I(15) / 2, mul(sqrt(I(2)), sem(k)))
  pure val HALF_NORMAL: int = sqrt(div(I(2), PI))
  /// the share of a probability among k draws: p itself, seven and a half of its standard deviations
  pure def share(p: int, k: int): Out = oR(p, mul(I(15) / 2, mul(sqrt(mul(p, S - p)), sem(k))))
  /// shares of normal draws beyond one, two and three sigma (the last: Poisson, between 12 and 120 of 20000)
  pure def tails(k: int): List[Out] = [share(D(317311, 6), k), share(D(455003, 7), k), if (k >= 20000) oR(D(33, 4), D(27, 4)) else oX]
  /// range: mean, variance, lag-1; angle: mean, mean square, lag-1 of the square;
  /// azimuth: first and second harmonics; range against angle and azimuth
  pure def spread(k: int, ranged: bool, angled: bool): List[Out] = {
    val m = meanTol(k)
    val az = mul(m, sqrt(S / 2)) + ten(3)
    (if (ranged) [oR(0, m), oR(S, varTol(k)), oR(0, m)] else [oX, oX, oX])
    .concat(if (angled) [oR(HALF_NORMAL, m), oR(S, varTol(k)), oR(0, 3 * m)] else [oX, oX, oX])
    .concat(if (angled) [oR(0, az), oR(0, az), oR(0, az), oR(0, az)] else [oX, oX, oX, oX])
    .concat(if (ranged and angled) [oR(0, m), oR(0, az), oR(0, az)] else [oX, oX, oX])
    .concat(if (ranged) tails(k) else [oX, oX, oX]).concat(if (angled) tails(k) else [oX, oX, oX])
  }
  /// direction of the disturbed vector, favouring the axes
  pure def gVector(u: int, k: int): V3 = {
    val r = dpick(u, k, [dr(u, k + 1, 20, S, I(100)), dr(u, k + 1, 20, I(100), I(50000)), dr(u, k + 1, 30, ten(2), S)])
    val z = if (dchance(u, k + 2, 1, 2)) S else -S
    val c = draw(u, k + 3) % 6
    if (c == 0) (0, 0, mul(r, z))
    else if (c == 1) vgrid(vscale((dlog(u, k + 4, 10, 40), dsgn(u, k + 5, dlog(u, k + 6, 10, 40)), z), r), 50)
    else gVec(u, k + 7, r, 40)
  }
  pure def vectorCase(u: int, k: int): Case = {
    val v = gVector(u, 1)
    val r = mag(v)
    val sr = mul(r, dpick(u, 30, [dr(u, 31, 30, D(1, 3), D(12, 2)), dlog(u, 31, 7, 30)]))
    val sa = dpick(u, 32, [dr(u, 33, 30, D(1, 3), D(25, 2)), dlog(u, 33, 5, 18)])
    val kind = dpick(u, 34, ["both", "both", "range", "angle"])
    val ranged = kind != "angle"
    val angled = kind != "range"
    caseS("spread", [kind], vl(v).concat([grid(sr, 90), sa, I(k)]),
      spread(k, ranged, angled).concat([
        // what is not disturbed stays
        if (ranged) oX else oR(0, ten(12)), if (angled) oX else oR(0, D(1, 7))]))
  }
  pure def zeroCase(u: int): Case = {
    val v = gVector(u, 1)
    case("still", vl(v), oV(v, mul(mag(v), ten(13))).concat(oV(v, mul(mag(v), ten(13)))).concat(oV(v, mul(mag(v), ten(13)))).concat([oB(true)]))
  }
  type Scene = { p: PV, t: int, r: V3, cam: Cam, pa: int, width: int, sr: int, sight: V3 }
  pure def gScene(u: int): Scene = {
    val p = gCircular(u, 1)
    val sight0 = gVector(u, 40)
    val d0 = mag(sight0)
    val far = if (d0 < S) vscale(unit(sight0), I(50)) else sight0
    val r = vgrid(vadd(p.r, far), 30)
    val sight = vsub(r, p.r)
    val d = mag(sight)
    val pixels = I(di(u, 80, 500, 9000))
    val fov = dr(u, 81, 40, D(1, 3), D(1, 1))
    val cam = { pixels: pixels, fov: fov }
    // a target wide enough that the range error is at most an eighth of the range
    val least = 4 * rangeError(cam, d, S)
    val w = imax(div(least, d) * 2, ten(3))
    val width = grid(w + mul(w, dr(u, 82, 20, 0, I(20))), 60)
    { p: p, t: gEpoch(u, 83), r: r, cam: cam, pa: dpick(u, 84, [dr(u, 85, 40, ten(3), ten(1)), dlog(u, 85, 6, 18)]), width: width,
      sr: rangeError(cam, d, 2 * width), sight: sight }
  }
  pure def args(x: Scene): List[int] = vl(x.p.r).concat(vl(x.p.v)).append(x.t).concat(vl(x.r)).concat([x.cam.pixels, x.cam.fov, x.pa, x.width])
  pure def wide(u: int): str = if (dchance(u, 86, 1, 2)) "wfov" else "nfov"
  /// the statistics of a camera's observations
  pure def cameraCase(u: int, k: int): Case = {
    val x = gScene(u)
    caseS("camera", [wide(u)], args(x).append(I(k)), spread(k, true, true))
  }
  /// one observation: what it reports
  pure def reportCase(u: int): Case = {
    val x = gScene(u)
    caseS("report", [wide(u)], args(x),
      oEs(vl(x.p.r)).concat(oEs(vl(x.p.v))).concat([oE(x.t), oE(x.t), oR(x.sr, mul(x.sr, ten(9)) + 2^60), oE(x.pa),
        // range and angles are those of the reported direction, no more than ten sigma from the truth
        oR(0, ten(9)), oR(0, ten(9)), oR(0, ten(9)), oL(I(10), 0), oL(I(10), 0), oB(true)]))
  }
  /// with (almost) perfect cameras and pointing the observation is the truth
  pure def truthCase(u: int): Case = {
    val x0 = gScene(u)
    val x = { ...x0, cam: { ...x0.cam, pixels: 2^150 * S }, pa: 0 }
    caseS("truth", [wide(u)], args(x), oV(x.sight, mul(mag(x.sight), ten(13)) + ulps(4, mag(x.p.r))).append(oR(mag(x.sight), mul(mag(x.sight), ten(13)) + ulps(4, mag(x.p.r)))))
  }
  /// a processed observation carries the camera's errors into the filter
  pure def processCase(u: int): Case = {
    val x0 = gScene(u)
    val x = { ...x0, pa: imin(x0.pa, D(1, 2)) }
    caseS("process", [wide(u)], args(x), [oE(x.t), oR(x.sr, mul(x.sr, ten(9)) + 2^60), oE(x.pa), if (mag(x.sight) < I(1000)) oL(I(12), 0) else oX])
  }
  action act = {
    nondet u = oneOf(0.to(2^64))
    val k = dpick(u, 99, [20000, 4000])
    all { n' = k, cases' = [vectorCase(u, k), zeroCase(u), zeroCase(u + 1), cameraCase(u, 4000), reportCase(u), reportCase(u + 1), reportCase(u + 2), truthCase(u), truthCase(u + 1), processCase(u)] }
  }
  action init = act
  action step = act
  /// the envelopes shrink with the number of draws and stay below half a sigma
  val laws = and { meanTol(n) < D(2, 1), varTol(n) < D(2, 1), meanTol(4 * n) < meanTol(n) }
}
