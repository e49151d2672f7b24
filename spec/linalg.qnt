// -*- mode: Bluespec; -*-
/// Vectors and matrices of the model, in coordinate-free form where possible.
module linalg {
  import real.* from "./real"

  type V3 = (int, int, int)
  type M3 = (V3, V3, V3)
  /// general matrices and vectors, row major
  type Vec = List[int]
  type Mat = List[Vec]

  pure val V0: V3 = (0, 0, 0)
  pure val EX: V3 = (S, 0, 0)
  pure val EY: V3 = (0, S, 0)
  pure val EZ: V3 = (0, 0, S)

  pure def vl(v: V3): List[int] = [v._1, v._2, v._3]
  pure def lv(l: List[int], i: int): V3 = (l[i], l[i + 1], l[i + 2])
  pure def oV(v: V3, t: int): List[Out] = oRs(vl(v), t)
  pure def vgrid(v: V3, bits: int): V3 = (grid(v._1, bits), grid(v._2, bits), grid(v._3, bits))

  pure def vadd(a: V3, b: V3): V3 = (a._1 + b._1, a._2 + b._2, a._3 + b._3)
  pure def vsub(a: V3, b: V3): V3 = (a._1 - b._1, a._2 - b._2, a._3 - b._3)
  pure def vneg(a: V3): V3 = (-a._1, -a._2, -a._3)
  pure def vscale(a: V3, k: int): V3 = (mul(a._1, k), mul(a._2, k), mul(a._3, k))
  pure def vdivi(a: V3, n: int): V3 = (a._1 / n, a._2 / n, a._3 / n)
  pure def dot(a: V3, b: V3): int = (a._1 * b._1 + a._2 * b._2 + a._3 * b._3) / S
  pure def vcross(a: V3, b: V3): V3 = (
    (a._2 * b._3 - a._3 * b._2) / S,
    (a._3 * b._1 - a._1 * b._3) / S,
    (a._1 * b._2 - a._2 * b._1) / S)
  pure def mag(a: V3): int = isqrt(a._1 * a._1 + a._2 * a._2 + a._3 * a._3)
  pure def vinf(a: V3): int = imax(iabs(a._1), imax(iabs(a._2), iabs(a._3)))
  pure def unit(a: V3): V3 = {
    // scale first so that short vectors keep their precision
    val m = mag(a)
    (div(a._1, m), div(a._2, m), div(a._3, m))
  }
  /// angle between two vectors in [0, pi]
  pure def angle(a: V3, b: V3): int = {
    val p = unit(a)
    val q = unit(b)
    atan2(mag(vcross(p, q)), dot(p, q))
  }
  /// v turned by th about the axis (Rodrigues)
  pure def rotate(v: V3, axis: V3, th: int): V3 = {
    val u = unit(axis)
    val p = sincos(th)
    vadd(vadd(vscale(v, p._2), vscale(vcross(u, v), p._1)), vscale(u, mul(dot(u, v), S - p._2)))
  }

  pure def mv(m: M3, v: V3): V3 = (dot(m._1, v), dot(m._2, v), dot(m._3, v))
  pure def mT(m: M3): M3 = (
    (m._1._1, m._2._1, m._3._1), (m._1._2, m._2._2, m._3._2), (m._1._3, m._2._3, m._3._3))
  pure def mm(a: M3, b: M3): M3 = {
    val t = mT(b)
    ((dot(a._1, t._1), dot(a._1, t._2), dot(a._1, t._3)),
     (dot(a._2, t._1), dot(a._2, t._2), dot(a._2, t._3)),
     (dot(a._3, t._1), dot(a._3, t._2), dot(a._3, t._3)))
  }
  pure def ml(m: M3): List[int] = vl(m._1).concat(vl(m._2)).concat(vl(m._3))
  pure def det(m: M3): int = dot(m._1, vcross(m._2, m._3))
  pure val I3: M3 = (EX, EY, EZ)
  /// frame rotations (passive): components of a fixed vector in the turned frame
  pure def R1(th: int): M3 = { val p = sincos(th) (EX, (0, p._2, p._1), (0, -p._1, p._2)) }
  pure def R2(th: int): M3 = { val p = sincos(th) ((p._2, 0, -p._1), EY, (p._1, 0, p._2)) }
  pure def R3(th: int): M3 = { val p = sincos(th) ((p._2, p._1, 0), (-p._1, p._2, 0), EZ) }

  // ---- general matrices --------------------------------------------------
  pure def gdot(a: Vec, b: Vec): int =
    range(0, a.length()).foldl(0, (s, i) => s + a[i] * b[i]) / S
  pure def gcol(m: Mat, j: int): Vec = m.foldl([], (acc, r) => acc.append(r[j]))
  pure def gT(m: Mat): Mat = range(0, m[0].length()).foldl([], (acc, j) => acc.append(gcol(m, j)))
  pure def gmv(m: Mat, v: Vec): Vec = m.foldl([], (acc, r) => acc.append(gdot(r, v)))
  pure def gmm(a: Mat, b: Mat): Mat = {
    val t = gT(b)
    a.foldl([], (acc, r) => acc.append(t.foldl([], (row, c) => row.append(gdot(r, c)))))
  }
  pure def vecAdd(a: Vec, b: Vec): Vec =
    range(0, a.length()).foldl([], (acc, i) => acc.append(a[i] + b[i]))
  pure def vecSub(a: Vec, b: Vec): Vec =
    range(0, a.length()).foldl([], (acc, i) => acc.append(a[i] - b[i]))
  pure def gadd(a: Mat, b: Mat): Mat =
    range(0, a.length()).foldl([], (acc, i) => acc.append(vecAdd(a[i], b[i])))
  pure def gsub(a: Mat, b: Mat): Mat =
    range(0, a.length()).foldl([], (acc, i) => acc.append(vecSub(a[i], b[i])))
  pure def gid(n: int): Mat =
    range(0, n).foldl([], (acc, i) => acc.append(
      range(0, n).foldl([], (row, j) => row.append(if (i == j) S else 0))))
  pure def gflat(m: Mat): List[int] = cat(m)
  pure def gof(l: List[int], off: int, rows: int, cols: int): Mat =
    range(0, rows).foldl([], (acc, i) => acc.append(l.slice(off + i * cols, off + (i + 1) * cols)))
  pure def gmax(m: Mat): int = gflat(m).foldl(0, (a, x) => imax(a, iabs(x)))
  pure def m3g(m: M3): Mat = [vl(m._1), vl(m._2), vl(m._3)]
  pure def gm3(m: Mat): M3 = (lv(m[0], 0), lv(m[1], 0), lv(m[2], 0))
  /// inverse of a 3x3 matrix by the reciprocal basis of its rows
  pure def inv3(m: M3): M3 = {
    val d = det(m)
    val c1 = vcross(m._2, m._3)
    val c2 = vcross(m._3, m._1)
    val c3 = vcross(m._1, m._2)
    mT(((div(c1._1, d), div(c1._2, d), div(c1._3, d)),
        (div(c2._1, d), div(c2._2, d), div(c2._3, d)),
        (div(c3._1, d), div(c3._2, d), div(c3._3, d))))
  }
}
