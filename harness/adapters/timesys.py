from core import Context as Ctx  # noqa: F401
from openspace.math.functions import Conversions
from openspace.time import Epoch


def gregorian(ctx, s, a):
    y, m, d, h, mi = (int(x) for x in a[:5])
    sec = a[5]
    if sec == int(sec):
        sec = int(sec)
    e = Epoch.from_gregorian(y, m, d, h, mi, sec)
    return [e.value, e.julian_value(), e.julian_centuries_past_j2000()]


def shift(ctx, s, a):
    e = Epoch(a[0])
    p = e.plus_days(a[1])
    q = p.plus_days(a[2])
    back = p.plus_days(-a[1])
    return [p.value, q.value, back.value, e.value, p.julian_value()]


def hms(ctx, s, a):
    return [Conversions.hms_to_decimal_day(*a), Conversions.dms_to_radians(*a)]


def gha(ctx, s, a):
    return [Epoch(a[0]).greenwich_hour_angle()]


def gha2(ctx, s, a):
    e = Epoch(a[0])
    return [e.plus_days(a[1]).greenwich_hour_angle() - e.greenwich_hour_angle()]


OPS = {"gregorian": gregorian, "shift": shift, "hms": hms, "gha": gha, "gha2": gha2}
