"""Input domains shared by the generators."""
from __future__ import annotations

import pandas as pd

from core import ix_of, rat, u_of, uarr

TZS = ["none", "Europe/Berlin", "UTC", "Europe/London", "America/New_York", "Asia/Kolkata", "Australia/Sydney", "Asia/Tokyo"]
BASE = ["15min", "h", "D", "MS", "QS", "YS"]
MON = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"]
QS = [f"QS-{m}" for m in MON]
YS = [f"YS-{m}" for m in MON]
ALLF = ["15min", "h", "D", "MS", "QS", "YS", *QS, *YS]
HSODS = [0, 0, 6 * 3600, 5 * 3600, 18 * 3600, 23 * 3600]
QSODS = [0, 6 * 3600, 6 * 3600 + 1800, 16200, 4 * 3600 + 900, 22 * 3600 + 2700]
# days around which something happens: year ends, leap days, changes to and from summer time in the zones above
DAYS = ["2024-02-28", "2024-02-29", "2023-12-31", "2024-01-01", "2023-03-25", "2023-03-26", "2023-03-27", "2023-10-28", "2023-10-29", "2023-10-30",
        "2024-03-09", "2024-03-10", "2024-11-02", "2024-11-03", "2023-04-01", "2023-10-01", "2022-06-15", "2025-04-05", "2025-04-06",
        "2025-10-04", "2025-10-05", "2020-01-01", "2021-12-30", "2020-12-31", "2024-03-31", "2024-10-27", "2022-03-27", "2022-10-30"]


def rank(f):
    return {"15": 1, "h": 2, "D": 3, "MS": 4, "QS": 5, "YS": 6}[f[:2]]


def local(day, sod, tz):
    t = pd.Timestamp(day) + pd.Timedelta(seconds=sod)
    return t if tz == "none" else t.tz_localize(tz)


def floorday(f, day):
    """First day of the f-period containing (or following) the day; input generation only."""
    d = pd.Timestamp(day)
    if rank(f) <= 3:
        return d
    return pd.tseries.frequencies.to_offset(f).rollback(d)


def period_starts(f, tz, sod, day, n):
    """Index dict of n f-periods (n days for shorter-than-daily f), starting at the f-period containing day."""
    d = floorday(f, day)
    if rank(f) <= 2:
        a, b = local(d, sod, tz), local(d + pd.Timedelta(days=n), sod, tz)
        i = pd.date_range(a, b, freq=f, inclusive="left")
    else:
        off = {3: pd.DateOffset(days=1), 4: pd.DateOffset(months=1), 5: pd.DateOffset(months=3), 6: pd.DateOffset(years=1)}[rank(f)]
        i = pd.DatetimeIndex([local(d + k * off, sod, tz) for k in range(n)])
    return {"f": f, "tz": tz, "u": uarr(i)}


def right_of(ix):
    """End instant of the last period of an index dict (input generation only)."""
    t = pd.Timestamp((ix["u"][-1] + 946684800) * 10**9)
    if ix["tz"] != "none":
        t = t.tz_localize("UTC").tz_convert(ix["tz"])
    off = {1: pd.Timedelta(minutes=15), 2: pd.Timedelta(hours=1), 3: pd.DateOffset(days=1), 4: pd.DateOffset(months=1),
           5: pd.DateOffset(months=3), 6: pd.DateOffset(years=1)}[rank(ix["f"])]
    return u_of(t + off)
