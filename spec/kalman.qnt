// -*- mode: Bluespec; -*-
/// The Kalman filter of relative motion, in the textbook (non-Joseph) form.
module kalman {
  import real.* from "./real"
  import linalg.* from "./linalg"
  import celestial.* from "./celestial"
  import orbit.* from "./orbit"
  import relative.* from "./relative"
  import timesys.* from "./timesys"

  /// estimate, covariance, process noise, mean motion of the origin, epoch
  type Filter = { x: Vec, p: Mat, q: Mat, n: int, t: int }
  /// observer (position, velocity), line of sight with range, one-sigma range and angle errors, epoch
  type Sight = { o: PV, los: V3, dr: int, da: int, t: int }

  pure def diag(l: List[int]): Mat =
    range(0, l.length()).foldl([], (acc, i) => acc.append(
      range(0, l.length()).foldl([], (row, j) => row.append(if (i == j) l[i] else 0))))
  pure val P_DEFAULT: Mat = diag([D(5, 1), D(5, 1), D(5, 1), D(5, 5), D(5, 5), D(5, 5)])
  pure val Q_DEFAULT: Mat = diag([ten(16), ten(16), ten(16), ten(16), ten(16), ten(16)])

  /// measured relative position: Hill coordinates of the sighted point
  pure def measured(b: Sight): V3 = toHill(b.o, { r: vadd(b.o.r, b.los), v: b.o.v }).r
  /// one-sigma displacement of the sighted point, in Hill coordinates about the observer
  pure def spread(b: Sight): V3 = {
    val rng = mag(b.los)
    val ra = atan2(b.los._2, b.los._1)
    val dec = atan2(b.los._3, isqrt(b.los._1 * b.los._1 + b.los._2 * b.los._2))
    val p = sincos(ra + b.da)
    val q = sincos(dec + b.da)
    val moved = vscale((mul(q._2, p._2), mul(q._2, p._1), q._1), rng + b.dr)
    toHill(b.o, { r: vadd(b.o.r, vsub(moved, b.los)), v: b.o.v }).r
  }
  pure def top3(m: Mat): M3 = (lv(m[0], 0), lv(m[1], 0), lv(m[2], 0))

  pure def predicted(f: Filter, t: int): Filter = {
    val phi = hill(f.n, (t - f.t) * SECONDS_IN_DAY)
    { ...f, x: gmv(phi, f.x), p: gadd(gmm(gmm(phi, f.p), gT(phi)), f.q), t: t }
  }
  pure def gainOf(p: Mat, s: V3): Mat = {
    val c = top3(p)
    // innovation covariance
    val w = inv3(((c._1._1 + sq(s._1), c._1._2, c._1._3), (c._2._1, c._2._2 + sq(s._2), c._2._3),
                  (c._3._1, c._3._2, c._3._3 + sq(s._3))))
    // first three columns of the covariance times the inverse
    gmm(p.foldl([], (acc, r) => acc.append([r[0], r[1], r[2]])), m3g(w))
  }
  pure def updated(f: Filter, z: V3, s: V3): Filter = {
    val inn = vsub(z, lv(f.x, 0))
    val k = gainOf(f.p, s)
    { ...f, x: vecAdd(f.x, gmv(k, vl(inn))),
      p: gsub(f.p, gmm(k, [f.p[0], f.p[1], f.p[2]])) }
  }
  pure def process(f: Filter, b: Sight): Filter = updated(predicted(f, b.t), measured(b), spread(b))
}
