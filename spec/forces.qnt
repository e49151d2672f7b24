// -*- mode: Bluespec; -*-
/// Accelerations acting on an inertial state.
module forces {
  import real.* from "./real"
  import linalg.* from "./linalg"
  import timesys.* from "./timesys"
  import celestial.* from "./celestial"

  // ---- geopotential -------------------------------------------------------
  // fully normalised coefficients, degree and order 4 (GGM03S)
  pure val CN: List[List[int]] = [
    [S], [0, 0],
    [-D(484165143790815, 18), -D(206615509074176, 24), D(243938357328313, 20)],
    [D(957161207093473, 21), D(203046201047864, 20), D(904787894809528, 21), D(721321757121568, 21)],
    [D(539965866638991, 21), -D(536157389388867, 21), D(350501623962649, 21), D(990856766672321, 21),
     -D(188519633023033, 21)]]
  pure val SN: List[List[int]] = [
    [0], [0, 0],
    [0, D(138441389137979, 23), -D(140027370385934, 20)],
    [0, D(248200415856872, 21), -D(619005475177618, 21), D(141434926192941, 20)],
    [0, -D(473567346518086, 21), D(662480026275829, 21), -D(200956723567452, 21), D(308803882149194, 21)]]
  pure def fact(n: int): int = range(1, n + 1).foldl(1, (a, k) => a * k)
  /// un-normalising factor sqrt((2 - d0m)(2n+1)(n-m)!/(n+m)!)
  pure def norm(n: int, m: int): int =
    isqrt((if (m == 0) 1 else 2) * (2 * n + 1) * fact(n - m) * S * S / fact(n + m))
  pure def un(c: List[List[int]]): List[List[int]] =
    range(0, 5).foldl([], (acc, n) => acc.append(
      range(0, n + 1).foldl([], (row, m) => row.append(mul(c[n][m], norm(n, m))))))
  pure val CU: List[List[int]] = un(CN)
  pure val SU: List[List[int]] = un(SN)

  pure def ix(n: int, m: int): int = n * (n + 1) / 2 + m
  /// Cunningham's V and W up to degree and order 5, flat list of (V, W)
  pure def vw(p: V3): List[(int, int)] = {
    val r2 = dot(p, p)
    val rho = div(sq(RE), r2)
    val x0 = div(mul(RE, p._1), r2)
    val y0 = div(mul(RE, p._2), r2)
    val z0 = div(mul(RE, p._3), r2)
    val start = [(div(RE, mag(p)), 0)]
    range(1, 6).foldl(start, (acc, n) =>
      range(0, n + 1).foldl(acc, (l, m) =>
        if (m == n) {
          val d = l[ix(n - 1, n - 1)]
          l.append(((2 * n - 1) * (mul(x0, d._1) - mul(y0, d._2)),
                    (2 * n - 1) * (mul(x0, d._2) + mul(y0, d._1))))
        } else {
          val a = l[ix(n - 1, m)]
          val b = if (n - 2 >= m) l[ix(n - 2, m)] else (0, 0)
          l.append((((2 * n - 1) * mul(z0, a._1) - (n + m - 1) * mul(rho, b._1)) / (n - m),
                    ((2 * n - 1) * mul(z0, a._2) - (n + m - 1) * mul(rho, b._2)) / (n - m)))
        }))
  }
  /// acceleration of degrees lo..4 at an Earth-fixed position, Earth-fixed axes
  pure def geoDegrees(p: V3, lo: int): V3 = {
    val t = vw(p)
    val k = div(MU, sq(RE))
    val s = range(lo, 5).foldl(V0, (acc, n) =>
      range(0, n + 1).foldl(acc, (s, m) => {
        val c = CU[n][m]
        val w = SU[n][m]
        if (m == 0)
          vadd(s, (-mul(c, t[ix(n + 1, 1)]._1), -mul(c, t[ix(n + 1, 1)]._2),
                   -(n + 1) * mul(c, t[ix(n + 1, 0)]._1)))
        else {
          val up = t[ix(n + 1, m + 1)]
          val dn = t[ix(n + 1, m - 1)]
          val f = (n - m + 2) * (n - m + 1)
          val md = t[ix(n + 1, m)]
          vadd(s, (
            (-mul(c, up._1) - mul(w, up._2) + f * (mul(c, dn._1) + mul(w, dn._2))) / 2,
            (-mul(c, up._2) + mul(w, up._1) + f * (-mul(c, dn._2) + mul(w, dn._1))) / 2,
            (n - m + 1) * (-mul(c, md._1) - mul(w, md._2))))
        }
      }))
    vscale(s, k)
  }
  /// the potential of degrees lo..4 (used by the laws of the specification)
  pure def geoPotential(p: V3, lo: int): int = {
    val t = vw(p)
    mul(div(MU, RE), range(lo, 5).foldl(0, (a, n) => range(0, n + 1).foldl(a, (s, m) =>
      s + mul(CU[n][m], t[ix(n, m)]._1) + mul(SU[n][m], t[ix(n, m)]._2))))
  }

  pure def aGravity(r: V3, v: int): V3 = itrfToGcrf(geoDegrees(gcrfToItrf(r, v), 2), v)
  pure def aEarth(r: V3): V3 = {
    val m = mag(r)
    vscale(r, -div(div(div(MU, m), m), m))
  }
  pure def aThird(mu: int, s: V3, r: V3): V3 = {
    val d = vsub(s, r)
    val dm = mag(d)
    val sm = mag(s)
    vsub(vscale(unit(d), div(div(mu, dm), dm)), vscale(unit(s), div(div(mu, sm), sm)))
  }
  pure def aMoon(r: V3, v: int): V3 = aThird(MU_MOON, moonPosition(v), r)
  pure def aSun(r: V3, v: int): V3 = aThird(MU_SUN, sunPosition(v), r)
  /// radiation pressure at one astronomical unit, away from the Sun
  pure def aSrp(r: V3, v: int, k: int): V3 =
    vscale(unit(vsub(sunPosition(v), r)), -mul(SUN_P, k) / 1000)

  type Env = { pert: bool, srp: int }
  pure def acceleration(r: V3, v: int, thrust: V3, env: Env): V3 = {
    val two = vadd(thrust, aEarth(r))
    if (not(env.pert)) two
    else vadd(vadd(two, vadd(aMoon(r, v), aSun(r, v))), vadd(aGravity(r, v), if (env.srp == 0) V0 else aSrp(r, v, env.srp)))
  }
}
