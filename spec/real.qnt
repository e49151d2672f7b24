// -*- mode: Bluespec; -*-
/// Fixed-point reals for the openspace specification.
///
/// Every real quantity of the model (km, km/s, days, radians, kg, ...) is an
/// unbounded integer counting units of 2^-192.  The elementary functions are
/// accurate to better than 1e-30, i.e. some fourteen decimal digits beyond the
/// IEEE doubles of the implementation, so the model is an oracle for it.
module real {
  /// one
  pure val S: int = 2^192

  /// pi, 2 pi, ... to the resolution of the representation
  /// floor(pi * 2^192)
  pure val PI: int = 19720096697726538562396133364228268891463450865190089732560
  pure val TWO_PI: int = 2 * PI
  pure val HALF_PI: int = PI / 2
  pure val QUARTER_PI: int = PI / 4
  /// floor(ln 2 * 2^192)
  pure val LN2: int = 4350955369971217654477563090224794165364344896676135745069
  pure val LN10: int = 14453560883108425870374435737727394665043423914827363902522

  pure def iabs(a: int): int = if (a < 0) -a else a
  pure def imax(a: int, b: int): int = if (a < b) b else a
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def isign(a: int): int = if (a > 0) 1 else if (a < 0) -1 else 0

  /// floor division (the built-in one truncates)
  pure def fdiv(a: int, b: int): int =
    if (a >= 0) a / b else -((-a + b - 1) / b)
  /// a - b*floor(a/b)
  pure def fmod(a: int, b: int): int = a - b * fdiv(a, b)

  /// integer n as a real
  pure def I(n: int): int = n * S
  /// rational n/d as a real
  pure def Q(n: int, d: int): int = fdiv(n * S, d)
  /// decimal n * 10^-k as a real
  pure def D(n: int, k: int): int = fdiv(n * S, 10^k)

  pure def mul(a: int, b: int): int = a * b / S
  pure def div(a: int, b: int): int = a * S / b
  pure def sq(a: int): int = a * a / S
  pure def cube(a: int): int = mul(sq(a), a)

  pure val POW2: List[int] = [2^512, 2^256, 2^128, 2^64, 2^32, 2^16, 2^8, 2^4, 2^2, 2]

  /// power of two p with p*p > n >= 0
  pure def rootGuess(n: int): int =
    POW2.foldl(1, (g, p) => { val h = g * p  if (h * h <= n) h else g }) * 2

  /// floor-ish integer square root (error at most one unit)
  pure def isqrt(n: int): int =
    if (n <= 0) 0 else {
      range(0, 9).foldl(rootGuess(n), (g, _) => (g + n / g) / 2)
    }

  pure def sqrt(a: int): int = isqrt(a * S)

  /// cube root of a non-negative real
  pure def cbrt(a: int): int =
    if (a <= 0) 0 else {
      val n = a * S * S
      val g0 = POW2.foldl(1, (g, p) => { val h = g * p  if (h * h * h <= n) h else g }) * 2
      range(0, 14).foldl(g0, (g, _) => (2 * g + n / (g * g)) / 3)
    }

  /// Taylor sum for |x| <= pi/4
  pure def sinSmall(x: int): int = {
    val x2 = sq(x)
    range(1, 17).foldl((x, x), (acc, k) => {
      val t = -mul(acc._2, x2) / ((2 * k) * (2 * k + 1))
      (acc._1 + t, t)
    })._1
  }
  pure def cosSmall(x: int): int = {
    val x2 = sq(x)
    range(1, 17).foldl((S, S), (acc, k) => {
      val t = -mul(acc._2, x2) / ((2 * k - 1) * (2 * k))
      (acc._1 + t, t)
    })._1
  }

  /// (sin x, cos x)
  pure def sincos(x: int): (int, int) = {
    val k = fdiv(x + QUARTER_PI, HALF_PI)
    val r = x - (k * PI) / 2
    val s = sinSmall(r)
    val c = cosSmall(r)
    val m = fmod(k, 4)
    if (m == 0) (s, c)
    else if (m == 1) (c, -s)
    else if (m == 2) (-s, -c)
    else (-c, s)
  }
  pure def sin(x: int): int = sincos(x)._1
  pure def cos(x: int): int = sincos(x)._2
  pure def tan(x: int): int = { val p = sincos(x) div(p._1, p._2) }

  /// angle of (x, y) in (-pi, pi]; the sine of the residual angle is added
  /// repeatedly, which converges cubically
  pure def atan2(y: int, x: int): int =
    if (x == 0 and y == 0) 0
    else if (y == 0) (if (x > 0) 0 else PI)
    else {
      val r = isqrt(x * x + y * y)
      val cx = div(x, r)
      val sy = div(y, r)
      val g0 =
        if (x >= 0) (if (y >= 0) QUARTER_PI else -QUARTER_PI)
        else (if (y >= 0) 3 * QUARTER_PI else -3 * QUARTER_PI)
      range(0, 4).foldl(g0, (g, _) => {
        val p = sincos(g)
        val e = mul(sy, p._2) - mul(cx, p._1)
        // asin(e) = e + e^3/6 + ...
        g + e + cube(e) / 6
      })
    }
  pure def asin(x: int): int = atan2(x, isqrt(imax(0, S * S - x * x)))
  pure def acos(x: int): int = atan2(isqrt(imax(0, S * S - x * x)), x)

  /// angle in [0, 2 pi)
  pure def wrap(a: int): int = fmod(a, TWO_PI)
  /// angle in [-pi, pi)
  pure def wrapPi(a: int): int = fmod(a + PI, TWO_PI) - PI

  pure def rad(deg: int): int = mul(deg, PI) / 180
  /// arcseconds to radians
  pure def arcsec(a: int): int = mul(a, PI) / 648000

  pure def exp(x: int): int = {
    val k = fdiv(x + LN2 / 2, LN2)
    val r = x - k * LN2
    val s = range(1, 30).foldl((S, S), (acc, n) => {
      val t = mul(acc._2, r) / n
      (acc._1 + t, t)
    })._1
    if (k >= 0) s * 2^k else s / 2^(-k)
  }

  /// natural logarithm of a positive real
  pure def ln(x: int): int = {
    // x = m * 2^k with m in [1, 2)
    val up = POW2.foldl((x, 0), (acc, p) =>
      if (acc._1 / p >= S) (acc._1 / p, acc._2 + log2p(p)) else acc)
    val dn = POW2.foldl(up, (acc, p) =>
      if (acc._1 < S and acc._1 * p < 2 * S) (acc._1 * p, acc._2 - log2p(p)) else acc)
    val m = dn._1
    // ln m = 2 atanh((m-1)/(m+1))
    val z = div(m - S, m + S)
    val z2 = sq(z)
    val a = range(1, 36).foldl((z, z), (acc, n) => {
      val t = mul(acc._2, z2)
      (acc._1 + t / (2 * n + 1), t)
    })._1
    2 * a + dn._2 * LN2
  }
  pure def log2p(p: int): int =
    if (p == 2^512) 512 else if (p == 2^256) 256 else if (p == 2^128) 128
    else if (p == 2^64) 64 else if (p == 2^32) 32 else if (p == 2^16) 16
    else if (p == 2^8) 8 else if (p == 2^4) 4 else if (p == 2^2) 2 else 1
  pure def log10(x: int): int = div(ln(x), LN10)

  /// real power of an integer exponent
  pure def powi(x: int, n: int): int = range(0, n).foldl(S, (a, _) => mul(a, x))

  // ---- lists -------------------------------------------------------------
  // lmap and tab must not be nested in one another (the simulator keeps one set
  // of registers per definition), so library code uses foldl directly.
  pure def lmap(l: List[a], f: (a) => b): List[b] =
    l.foldl([], (acc, x) => acc.append(f(x)))
  pure def tab(n: int, f: (int) => b): List[b] =
    range(0, n).foldl([], (acc, i) => acc.append(f(i)))
  pure def cat(ls: List[List[a]]): List[a] = ls.foldl([], (acc, l) => acc.concat(l))

  // ---- seeded choices ----------------------------------------------------
  // The generators of the model draw one raw integer non-deterministically per
  // step and derive any number of structured choices from it with these.
  /// the k-th derived draw of u, in [0, 2^60)
  pure def draw(u: int, k: int): int = {
    // cubes modulo the prime 2^127 - 1: draws with different k are independent
    val m = 2^127 - 1
    val a = ((u + 1) * 11400714819323198485 + (k + 1) * 240294673668970197278517305487531) % m
    val b = a * a % m * a % m + (k + 1)
    (b * b % m * b % m) % 2^60
  }
  /// integer in [lo, hi]
  pure def di(u: int, k: int, lo: int, hi: int): int = lo + draw(u, k) % (hi - lo + 1)
  /// real in [lo, hi] on the dyadic grid 2^-bits
  pure def dr(u: int, k: int, bits: int, lo: int, hi: int): int = {
    val g = S / 2^bits
    val n = (hi - lo) / g
    fdiv(lo, g) * g + (draw(u, k) % (n + 1)) * g
  }
  /// real uniform-ish in exponent: magnitude 2^-kmax .. 2^(1-kmin), 21-bit mantissa
  pure def dlog(u: int, k: int, kmin: int, kmax: int): int = {
    val d = draw(u, k)
    val e = kmin + d % (kmax - kmin + 1)
    val base = if (e >= 0) S / 2^e else S * 2^(-e)
    base + base / 2^20 * ((d / 4096) % (2^20))
  }
  pure def dsgn(u: int, k: int, x: int): int = if (draw(u, k) % 2 == 0) x else -x
  pure def dpick(u: int, k: int, l: List[a]): a = l[draw(u, k) % l.length()]
  /// true with probability n/d
  pure def dchance(u: int, k: int, n: int, d: int): bool = draw(u, k) % d < n
  /// x rounded to the dyadic grid 2^-bits (exactly representable as a double
  /// while |x| * 2^bits < 2^53)
  pure def grid(x: int, bits: int): int = { val g = S / 2^bits  fdiv(x + g / 2, g) * g }

  // ---- observations ------------------------------------------------------
  /// One observable the model predicts: value, tolerance and kind
  ///   R  real, |code - v| <= t
  ///   A  angle modulo 2 pi that the code must return in [0, 2 pi]
  ///   Z  like A, and strictly below 2 pi (inputs for which rounding cannot reach 2 pi)
  ///   a  angle modulo 2 pi
  ///   P  angle modulo 2 pi that the code must return in [-pi, pi]
  ///   B  boolean (v is 0 or 1)
  ///   L  code <= v + t        G  code >= v - t
  ///   E  equal as doubles (v is exactly representable)
  ///   X  not predicted
  type Out = { v: int, t: int, k: str }
  /// One call into the implementation: operation, real arguments, symbolic
  /// arguments and the predicted observations
  type Case = { op: str, a: List[int], s: List[str], e: List[Out] }

  pure def oR(v: int, t: int): Out = { v: v, t: t, k: "R" }
  pure def oA(v: int, t: int): Out = { v: v, t: t, k: "A" }
  /// an angle of exact inputs: exactly zero must be reported as zero, not as a full turn
  pure def oZ(v: int, t: int): Out = { v: v, t: t, k: if (v == 0 or (v > ten(12) and v < TWO_PI - ten(12))) "Z" else "A" }
  pure def oa(v: int, t: int): Out = { v: v, t: t, k: "a" }
  pure def oP(v: int, t: int): Out = { v: v, t: t, k: "P" }
  pure def oB(b: bool): Out = { v: if (b) 1 else 0, t: 0, k: "B" }
  pure def oE(v: int): Out = { v: v, t: 0, k: "E" }
  pure def oL(v: int, t: int): Out = { v: v, t: t, k: "L" }
  pure def oG(v: int, t: int): Out = { v: v, t: t, k: "G" }
  pure val oX: Out = { v: 0, t: 0, k: "X" }
  /// a whole list with one tolerance
  pure def oRs(vs: List[int], t: int): List[Out] = vs.foldl([], (acc, v) => acc.append(oR(v, t)))
  pure def oEs(vs: List[int]): List[Out] = vs.foldl([], (acc, v) => acc.append(oE(v)))
  pure def case(op: str, a: List[int], e: List[Out]): Case = { op: op, a: a, s: [], e: e }
  pure def caseS(op: str, s: List[str], a: List[int], e: List[Out]): Case = { op: op, a: a, s: s, e: e }

  /// n * 10^-k, used to write tolerances
  pure def ten(k: int): int = S / 10^k
  /// n units in the last place of a double of magnitude x (plus a floor of 2^-180)
  pure def ulps(n: int, x: int): int = iabs(x) * n / 2^52 + 2^12
}
