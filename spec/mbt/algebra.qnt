// -*- mode: Bluespec; -*-
/// Behaviours for C08: every operation on vectors and matrices.
module algebra {
  import real.* from "../real"
  import linalg.* from "../linalg"
  import gen.* from "../gen"

  var cases: List[Case]
  var u0: int

  /// n entries; sparse, integer, mixed-magnitude or generic
  pure def entries(u: int, k: int, n: int): List[int] = {
    val mode = draw(u, k) % 8
    val tiny = S / 2^di(u, k + 2, 8, 30)
    val huge = S * 2^di(u, k + 2, 8, 30)
    tab(n, i => {
      val j = k + 1 + 3 * i
      if (mode == 0) I(di(u, j, -9, 9))
      else if (mode == 1) (if (dchance(u, j, 1, 2)) 0 else I(di(u, j + 1, -9, 9)))
      else if (mode == 2) dsgn(u, j, dlog(u, j + 1, -12, 12))
      else if (mode == 6) mul(dr(u, j, 20, -S, S), tiny)
      else if (mode == 7) mul(dr(u, j, 20, -S, S), huge)
      else dr(u, j, 20, I(-1000), I(1000))
    })
  }
  pure def v3(u: int, k: int): V3 = lv(entries(u, k, 3), 0)
  pure def amag(l: List[int]): int = l.foldl(0, (s, x) => imax(s, iabs(x)))
  /// tolerance of a sum of n products of entries bounded by a and b
  pure def tp(n: int, a: List[int], b: List[int]): int = ulps(4 * n, mul(amag(a), amag(b)))

  pure def vec3(u: int): List[Case] = {
    val p = entries(u, 100, 3)
    val q = entries(u, 120, 3)
    val k = dr(u, 140, 20, I(-50), I(50))
    val a = lv(p, 0)
    val b = lv(q, 0)
    [case("v3.plus", p.concat(q), oV(vadd(a, b), ulps(2, amag(p) + amag(q)))),
     case("v3.minus", p.concat(q), oV(vsub(a, b), ulps(2, amag(p) + amag(q)))),
     case("v3.dot", p.concat(q), [oR(dot(a, b), tp(3, p, q))]),
     case("v3.cross", p.concat(q), oV(vcross(a, b), tp(3, p, q))),
     case("v3.magnitude", p, [oR(mag(a), ulps(6, mag(a)))]),
     case("v3.scaled", p.append(k), oV(vscale(a, k), ulps(8, mul(amag(p), k)))),
     case("v3.copy", p, oEs(p))]
  }
  pure def directions(u: int): List[Case] = {
    val a = gVec(u, 200, dlog(u, 199, -16, 8), 40)
    val a1 = if (a == V0) EX else a
    val c = draw(u, 230) % 6
    val b0 = gVec(u, 210, dlog(u, 198, -16, 8), 40)
    val b1 = if (b0 == V0) EY else b0
    // parallel, opposite, nearly so, perpendicular, generic
    val b = if (c == 0) vscale(a1, I(di(u, 231, 1, 7)))
            else if (c == 1) vscale(a1, I(-di(u, 231, 1, 7)))
            else if (c == 2) vadd(vscale(a1, I(2)), vgrid(vscale(b1, div(ten(7), S)), 40))
            else b1
    val th = if (dchance(u, 232, 1, 5)) grid((draw(u, 233) % 9 - 4) * HALF_PI, 44) else if (dchance(u, 234, 1, 3)) dsgn(u, 235, dlog(u, 233, 1, 40)) else dr(u, 233, 30, I(-8), I(8))
    val an = angle(a1, b)
    val sn = sin(an)
    val ta = imin(D(2, 7), div(5 * ten(14), imax(sn, ten(12))))
    val l = vl(a1)
    val rt = rotate(a1, b, th)
    [case("v3.normalized", l, oV(unit(a1), ten(14))),
     case("v3.angle", l.concat(vl(b)), [oR(an, ta), oG(0, 0), oL(PI, ten(14))]),
     case("v3.rotate", l.concat(vl(b)).append(th), oV(rt, ulps(60, mag(a1))).concat([oR(mag(a1), ulps(60, mag(a1)))])),
     case("v3.rotation_matrix", vl(b).append(th),
          oRs(ml(mT((rotate(EX, b, th), rotate(EY, b, th), rotate(EZ, b, th)))), ten(14)))]
  }
  pure def mat3(u: int): List[Case] = {
    val p = entries(u, 300, 9)
    val q = entries(u, 330, 9)
    val x = entries(u, 360, 3)
    val w = entries(u, 370, 18)
    val A = gof(p, 0, 3, 3)
    val B = gof(q, 0, 3, 3)
    val W = gof(w, 0, 3, 6)
    val k = dr(u, 390, 20, I(-50), I(50))
    val mp = amag(p)
    val d = det(gm3(A))
    val m2 = mul(mp, mp)
    val m3 = mul(m2, mp)
    val base = [
      case("m3.diagonal", p, oEs([p[0], p[4], p[8]])),
      case("m3.columns", p, oEs(gflat(gT(A)))),
      case("m3.mv", p.concat(x), oRs(gmv(A, x), tp(3, p, x))),
      case("m3.scaled", p.append(k), oRs(lmap(p, y => mul(y, k)), ulps(8, mul(mp, k)))),
      case("m3.transpose", p, oEs(gflat(gT(A)))),
      case("m3.plus", p.concat(q), oRs(gflat(gadd(A, B)), ulps(2, mp + amag(q)))),
      case("m3.determinant", p, [oR(d, ulps(40, m3))]),
      case("m3.mm36", p.concat(w), oRs(gflat(gmm(A, W)), tp(3, p, w)))]
    val adj = gm3(A)
    val c1 = vcross(adj._2, adj._3)
    val c2 = vcross(adj._3, adj._1)
    val c3 = vcross(adj._1, adj._2)
    val more = [
      case("m3.cofactor", p, oRs(vl(c1).concat(vl(c2)).concat(vl(c3)), ulps(8, m2))),
      case("m3.adjugate", p, oRs(ml(mT((c1, c2, c3))), ulps(8, m2)))]
    val inv = if (mul(iabs(d), I(20)) < m3 or d == 0) []
              else [case("m3.inverse", p, oRs(ml(inv3(adj)), ulps(4000, div(m2, iabs(d)))))]
    base.concat(more).concat(inv)
  }
  pure def mat6(u: int): List[Case] = {
    val p = entries(u, 400, 36)
    val q = entries(u, 510, 36)
    val x = entries(u, 620, 6)
    val y = entries(u, 640, 6)
    val w = entries(u, 660, 18)
    val z = entries(u, 720, 18)
    val t = entries(u, 780, 9)
    val v = entries(u, 810, 3)
    val A = gof(p, 0, 6, 6)
    val B = gof(q, 0, 6, 6)
    val W = gof(w, 0, 3, 6)
    val Z = gof(z, 0, 6, 3)
    val T = gof(t, 0, 3, 3)
    [case("v6.plus", x.concat(y), oRs(vecAdd(x, y), ulps(2, amag(x) + amag(y)))),
     case("v6.minus", x.concat(y), oRs(vecSub(x, y), ulps(2, amag(x) + amag(y)))),
     case("v6.dot", x.concat(y), [oR(gdot(x, y), tp(6, x, y))]),
     case("v6.copy", x, oEs(x)),
     case("v6.from", x, oEs(x)),
     case("m36.columns", w, oEs(gflat(gT(W)))),
     case("m36.mv", w.concat(x), oRs(gmv(W, x), tp(6, w, x))),
     case("m36.transpose", w, oEs(gflat(gT(W)))),
     case("m36.mm63", w.concat(z), oRs(gflat(gmm(W, Z)), tp(6, w, z))),
     case("m63.columns", z, oEs(gflat(gT(Z)))),
     case("m63.transpose", z, oEs(gflat(gT(Z)))),
     case("m63.mm3", z.concat(t), oRs(gflat(gmm(Z, T)), tp(3, z, t))),
     case("m63.mv", z.concat(v), oRs(gmv(Z, v), tp(3, z, v))),
     case("m63.mm36", z.concat(w), oRs(gflat(gmm(Z, W)), tp(3, z, w))),
     case("m6.identity", [], oEs(gflat(gid(6)))),
     case("m6.diagonal", p, oEs(tab(6, i => A[i][i]))),
     case("m6.columns", p, oEs(gflat(gT(A)))),
     case("m6.transpose", p, oEs(gflat(gT(A)))),
     case("m6.mv", p.concat(x), oRs(gmv(A, x), tp(6, p, x))),
     case("m6.mm63", p.concat(z), oRs(gflat(gmm(A, Z)), tp(6, p, z))),
     case("m6.mm", p.concat(q), oRs(gflat(gmm(A, B)), tp(6, p, q))),
     case("m6.plus", p.concat(q), oRs(gflat(gadd(A, B)), ulps(2, amag(p) + amag(q)))),
     case("m6.minus", p.concat(q), oRs(gflat(gsub(A, B)), ulps(2, amag(p) + amag(q))))]
  }
  action go = {
    nondet u = oneOf(0.to(2^64))
    all {
      u0' = u,
      cases' = vec3(u).concat(directions(u)).concat(directions(u / 3 + 1)).concat(mat3(u)).concat(
        if (dchance(u, 1, 1, 3)) mat6(u) else []),
    }
  }
  action init = go
  action step = go
  /// laws of the model's algebra
  val laws = {
    val a = v3(u0, 100)
    val b = v3(u0, 120)
    val c = nonZero(gDir(u0, 50))
    val th = dr(u0, 60, 30, I(-8), I(8))
    val t = mul(imax(S, mul(vinf(a), vinf(b))), ten(40))
    and {
      iabs(dot(a, vcross(a, b))) <= mul(imax(S, vinf(a)), t) + t,
      vinf(vadd(vcross(a, b), vcross(b, a))) <= t,
      iabs(mag(rotate(a, c, th)) - mag(a)) <= ten(30) + mul(ten(30), mag(a)),
      vinf(vsub(rotate(rotate(a, c, th), c, -th), a)) <= ten(30) + mul(ten(30), mag(a)),
      iabs(dot(rotate(a, c, th), c) - dot(a, c)) <= ten(30) + mul(ten(30), mag(a)),
    }
  }
}
