// -*- mode: Bluespec; -*-
/// Behaviours for C01 (calendar) and C02 (Earth rotation angle).
module calendar {
  import real.* from "../real"
  import timesys.* from "../timesys"

  /// The model walks the calendar: an odometer that never consults a formula.
  var date: Date
  var day: int
  var cases: List[Case]

  pure val ANCHORS: List[Date] = [
    { y: 1858, m: 11, d: 17 }, { y: 2000, m: 2, d: 25 }, { y: 1900, m: 2, d: 24 }, { y: 2100, m: 2, d: 25 },
    { y: 1999, m: 12, d: 27 }, { y: 2024, m: 2, d: 24 }, { y: 2023, m: 2, d: 24 }, { y: 2020, m: 12, d: 28 },
    { y: 1600, m: 2, d: 23 }, { y: 2400, m: 2, d: 23 }, { y: 1970, m: 1, d: 1 }]

  /// a random valid date; months, month ends and century years are favoured
  pure def someDate(u: int): Date = {
    val y0 = di(u, 1, 1583, 2600)
    val y = if (dchance(u, 2, 1, 5)) y0 / 100 * 100 else if (dchance(u, 3, 1, 5)) y0 / 4 * 4 else y0
    val y1 = imax(1583, y)
    val m = if (dchance(u, 4, 1, 4)) dpick(u, 5, [1, 2, 3, 12]) else di(u, 5, 1, 12)
    val n = monthLength(y1, m)
    val d = if (dchance(u, 6, 1, 3)) dpick(u, 7, [1, 2, n - 1, n]) else di(u, 7, 1, n)
    { y: y1, m: m, d: d }
  }
  /// resolution of a double day count
  pure def tolDay(v: int): int = ulps(4, v) + ulps(4, S)

  pure def gregorian(c: Date, dn: int, h: int, mi: int, sec: int): Case = {
    val v = I(dn) + I(h) / 24 + I(mi) / 1440 + sec / SECONDS_IN_DAY
    case("gregorian", [I(c.y), I(c.m), I(c.d), I(h), I(mi), sec], [
      oR(v, tolDay(v)), oR(julian(v), tolDay(julian(v))), oR(centuries(v), tolDay(julian(v)) / 36525 + ten(15))])
  }
  pure def someTime(u: int): (int, int, int) = {
    val h = if (dchance(u, 11, 1, 4)) dpick(u, 12, [0, 1, 12, 22, 23]) else di(u, 12, 0, 23)
    val mi = if (dchance(u, 13, 1, 4)) dpick(u, 14, [0, 1, 30, 58, 59]) else di(u, 14, 0, 59)
    val s = if (dchance(u, 15, 1, 3)) I(dpick(u, 16, [0, 1, 30, 59])) else dr(u, 16, 30, 0, I(60) - S / 2^30)
    (h, mi, s)
  }
  /// arithmetic on epochs: shifting is exact addition, and additive
  pure def shift(u: int): Case = {
    val v = if (dchance(u, 29, 1, 4)) dr(u, 21, 30, I(-90000), I(230000)) else dr(u, 21, 30, I(30000), I(90000))
    val a = if (dchance(u, 22, 1, 3)) I(di(u, 23, -4000, 4000)) else if (dchance(u, 25, 1, 3)) grid(dsgn(u, 23, dlog(u, 26, 8, 29)), 30)
            else dr(u, 23, 30, I(-500), I(500))
    val b = if (dchance(u, 27, 1, 3)) grid(dsgn(u, 24, dlog(u, 28, 8, 29)), 30) else dr(u, 24, 30, I(-3), I(3))
    case("shift", [v, a, b], [oR(v + a, tolDay(v + a)), oR(v + a + b, tolDay(v + a)), oR(v, tolDay(v) + ulps(1, v + a)), oE(v),
                              oR(v + a + MJD_ZERO, tolDay(J2000))])
  }
  pure def hms(u: int): Case = {
    val h = dr(u, 31, 20, I(-30), I(60))
    val m = dr(u, 32, 20, I(-100), I(100))
    val s = dr(u, 33, 20, I(-100), I(100))
    val v = h / 24 + m / 1440 + s / 86400
    val a = rad(h) + rad(m) / 60 + rad(s) / 3600
    case("hms", [h, m, s], [oR(v, ulps(8, I(4))), oR(a, ulps(16, I(4)))])
  }

  action emit(c: Date, dn: int, u: int): bool = {
    val t = someTime(u)
    cases' = [
      gregorian(c, dn, 0, 0, 0), gregorian(c, dn, t._1, t._2, t._3),
      { val r = someDate(u) gregorian(r, dayNumber(r), t._1, t._2, t._3) },
      { val r = someDate(u / 3 + 17) gregorian(r, dayNumber(r), 23, 59, I(59)) },
      shift(u), hms(u)]
  }
  action init = {
    nondet u = oneOf(0.to(2^64))
    val a = ANCHORS[u % 11]
    all { date' = a, day' = dayNumber(a), emit(a, dayNumber(a), u) }
  }
  /// the next day, or a jump to a random date
  action step = {
    nondet u = oneOf(0.to(2^64))
    val jump = dchance(u, 41, 1, 12)
    val r = if (dchance(u, 42, 1, 2)) someDate(u / 5 + 3) else ANCHORS[u % 11]
    val nd = if (jump) r else tomorrow(date)
    val nn = if (jump) dayNumber(r) else day + 1
    all { date' = nd, day' = nn, emit(nd, nn, u) }
  }
  /// laws of the specification: the odometer and the rule book agree, dates stay valid
  val laws = and {
    dayNumber(date) == day,
    date.m >= 1, date.m <= 12, date.d >= 1, date.d <= monthLength(date.y, date.m),
  }
}

module sidereal {
  import real.* from "../real"
  import timesys.* from "../timesys"
  var now: int
  var cases: List[Case]

  /// an epoch in the domain, favouring midnights (UTC and TDT), noon and J2000
  pure def someEpoch(u: int): int = {
    val base = if (dchance(u, 7, 1, 8)) di(u, 1, -4000, 150000) else di(u, 1, 30000, 90000)
    val k = di(u, 2, 0, 9)
    if (k == 0) I(base)
    else if (k == 1) grid(I(base) + UTC_TDT, 30)
    else if (k == 2) grid(I(base) + UTC_TDT, 30) + dsgn(u, 3, S / 2^30 * di(u, 4, 1, 40))
    else if (k == 3) I(base) + S / 2
    else if (k == 4) I(51544) + S / 2 + dr(u, 5, 30, -S, S)
    else if (k == 5) dr(u, 6, 30, I(51000), I(60000))
    else dr(u, 6, 30, I(30000), I(90000))
  }
  // 2^-37 day of rounding in the epoch times the rotation rate, with slack
  pure val TOL: int = ten(9)
  pure def gha(v: int): Case = case("gha", [v], [oA(greenwich(v), TOL)])
  /// the advance of the angle over an interval
  pure def advanceBy(v: int, d: int): Case =
    case("gha2", [v, d], [oa(mul(EARTH_RATE, d), ten(8) + mul(ten(8), iabs(d)) / 4)])

  action go(v: int, u: int): bool = all {
    now' = v,
    cases' = [gha(v), gha(someEpoch(u / 7 + 5)), gha(someEpoch(u / 11 + 9)),
              advanceBy(v, dr(u, 21, 20, I(-2), I(2))), advanceBy(someEpoch(u / 13), dr(u, 22, 25, -S / 50, S / 50))],
  }
  action init = { nondet u = oneOf(0.to(2^64)) go(someEpoch(u), u) }
  action step = {
    nondet u = oneOf(0.to(2^64))
    go(if (dchance(u, 31, 1, 3)) someEpoch(u) else now + dr(u, 32, 30, -S, S), u)
  }
  /// laws: range, continuity over the UTC midnight, one turn per sidereal day
  val laws = and {
    greenwich(now) >= 0, greenwich(now) < TWO_PI,
    {
      val midnight = fdiv(now, S) * S + UTC_TDT
      iabs(wrapPi(greenwich(midnight + ten(9)) - greenwich(midnight - ten(9)))) < ten(7)
    },
    iabs(wrapPi(greenwich(now + D(99726956633, 11)) - greenwich(now))) < ten(7),
  }
}
