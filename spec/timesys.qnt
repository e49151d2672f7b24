// -*- mode: Bluespec; -*-
/// Calendars, day counts and the rotation angle of the Earth.
module timesys {
  import real.* from "./real"

  pure val SECONDS_IN_DAY: int = 86400
  pure val MJD_ZERO: int = D(24000005, 1)
  pure val J2000: int = I(2451545)
  pure val CENTURY: int = 36525

  // ---- Gregorian calendar as a rule book ---------------------------------
  pure def isLeap(y: int): bool = fmod(y, 4) == 0 and (fmod(y, 100) != 0 or fmod(y, 400) == 0)
  pure val MONTH_LENGTHS: List[int] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
  pure def monthLength(y: int, m: int): int =
    if (m == 2 and isLeap(y)) 29 else MONTH_LENGTHS[m - 1]
  type Date = { y: int, m: int, d: int }
  pure def tomorrow(c: Date): Date =
    if (c.d < monthLength(c.y, c.m)) { ...c, d: c.d + 1 }
    else if (c.m < 12) { y: c.y, m: c.m + 1, d: 1 }
    else { y: c.y + 1, m: 1, d: 1 }
  /// days from 1858-11-17 (MJD 0) to the first of January of year y: whole
  /// years, plus one day per leap year passed
  pure def leapsBefore(y: int): int = {
    val p = y - 1
    fdiv(p, 4) - fdiv(p, 100) + fdiv(p, 400)
  }
  pure def yearStart(y: int): int = 365 * (y - 1858) + leapsBefore(y) - leapsBefore(1858) - 320
  pure def monthStart(y: int, m: int): int =
    range(1, m).foldl(0, (s, k) => s + monthLength(y, k))
  /// MJD of midnight of a calendar date
  pure def dayNumber(c: Date): int = yearStart(c.y) + monthStart(c.y, c.m) + c.d - 1

  /// MJD of an instant
  pure def mjd(c: Date, h: int, mi: int, sec: int): int =
    I(dayNumber(c)) + I(h) / 24 + I(mi) / 1440 + sec / SECONDS_IN_DAY

  pure def julian(v: int): int = v + MJD_ZERO
  pure def centuries(v: int): int = (julian(v) - J2000) / CENTURY
  pure def daysSinceJ2000(v: int): int = julian(v) - J2000

  /// terrestrial dynamic time leads UTC by this many days
  pure val UTC_TDT: int = D(69184, 3) / SECONDS_IN_DAY

  /// Greenwich mean sidereal angle in [0, 2 pi) (Curtis 5.50-5.52)
  pure def greenwich(v: int): int = {
    val utc = v - UTC_TDT
    val day = fdiv(utc, S) * S
    val frac = utc - day
    val j = (julian(day) - J2000) / CENTURY
    val th0 = D(1004606184, 7) + mul(D(3600077004, 5), j) + mul(D(387933, 9), sq(j))
    wrap(rad(th0 + mul(D(36098564724, 8), frac)))
  }
  /// the rate of the Greenwich angle, radians per day
  pure val EARTH_RATE: int = rad(D(36098564724, 8))
}
