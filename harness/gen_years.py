"""Sessions that map data onto another year (C29)."""
from __future__ import annotations

import pandas as pd

from dom import rank
from gen_peak import lineof, mk, span
from ops_years import hols
from plans import gen, model

model("C29", "MC_Laws", "MC_Laws_Year", thorough="MC_Laws_Year_thorough", big=True)

H = 3600
ZS = ["none", "none", "Europe/Berlin", "Europe/Berlin", "UTC", "America/New_York", "Australia/Sydney", "Asia/Kolkata", "Europe/London"]
HC = ["", "", "DE", "NL", "US", "DE"]


def months_span(rng, f, tz, sod, y, m, n):
    a = pd.Timestamp(y, m, 1)
    return span(f, tz, sod, str(a.date()), str((a + pd.DateOffset(months=n)).date()))


def hl(hc, *years):
    ys = set()
    for y in years:
        ys |= {y - 1, y, y + 1}
    return hols(hc or None, ys)


def shape(rng, f):
    """Month and number of months that fit the frequency."""
    r = rank(f)
    if r == 6:
        return 1, 12 * rng.choice([1, 2, 3])
    if r == 5:
        return rng.choice([1, 4, 7, 10]), 3 * rng.choice([1, 2, 3, 4, 5, 8])
    if r == 4:
        return rng.randint(1, 12), rng.choice([1, 2, 3, 6, 12, 12, 13, 18, 24, 25])
    if r == 3:
        return rng.randint(1, 12), rng.choice([1, 1, 1, 2, 3, 4, 12])
    return rng.choice([2, 3, 10, 11, 4, 12, 1]), 1


@gen("C29")
def frames(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(420)):
        f = rng.choice(["D"] * 6 + ["MS"] * 4 + ["QS", "QS-JAN", "QS-FEB", "YS", "YS-APR", "h", "h"])
        tz, sod = rng.choice(ZS), rng.choice([0, 0, 6 * H, 5 * H])
        hc = rng.choice(HC)
        y = rng.choice([2019, 2020, 2021, 2022, 2023, 2024])
        m, n = shape(rng, f)
        if f == "QS-FEB":
            m = rng.choice([2, 5, 8, 11])
        if f == "YS-APR":
            m = 4
        ix = months_span(rng, f, tz, sod, y, m, n)
        obj = rng.choice(["series", "series", "pint", "df", "dfpint"])
        c = rng.random()
        if c < 0.12:
            yield [{"op": "year", "api": "index_with_year", "ix": ix, "year": rng.randint(2016, 2030)}]
        elif c < 0.7:
            year = rng.randint(2016, 2030)
            api = rng.choice(["index", "frame", "frame"])
            default = api == "frame" and hc == "" and rng.random() < 0.5
            yield [{"op": "year", "api": api, "to": "year", "ix": ix, "year": year, "hc": hc, "hol": hl(hc, *range(y, y + n // 12 + 2), *range(year, year + n // 12 + 2)), "obj": obj, "default": default}]
        else:
            y2 = rng.choice([y, y + 1, y - 1, y + 2, 2028])
            m2, n2 = shape(rng, f) if rng.random() < 0.5 else (m, n)
            if rank(f) == 3 and rng.random() < 0.5:
                n2, m2 = n, m
            if f == "QS-FEB":
                m2 = rng.choice([2, 5, 8, 11])
            if f == "YS-APR":
                m2 = 4
            tz2 = tz if rng.random() < 0.95 else rng.choice([z for z in ZS if z != tz])
            f2 = f if rng.random() < 0.95 else rng.choice([x for x in ["D", "MS", "h"] if x != f])
            if f2 in ("D", "h"):
                n2 = min(n2, 2)
            t = months_span(rng, f2, tz2, sod, y2, m2, n2)
            api = rng.choice(["index", "frame"])
            yield [{"op": "year", "api": api, "to": "index", "ix": ix, "t": t, "hc": hc, "hol": hl(hc, *range(y, y + n // 12 + 2), *range(y2, y2 + n2 // 12 + 2)), "obj": obj, "default": hc == "" and rng.random() < 0.5}]


@gen("C29")
def days(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(160)):
        f = rng.choice(["D"] * 9 + ["h", "MS"])
        tz, sod = rng.choice(ZS), rng.choice([0, 0, 6 * H, 23 * H])
        y = rng.randint(2018, 2028)
        ix = months_span(rng, f, tz, sod, y, rng.choice([3, 10, 11, 12, 1, 4, 5]), 1 if f == "h" else rng.choice([1, 1, 2, 3]))
        hc = rng.choice(HC)
        default = rng.random() < 0.25
        hol = hl("DE" if default else hc, y)
        yield [{"op": "charix", "ix": ix, "hc": hc, "hol": [h for h in hol if h["y"] in (y, y + 1)], "default": default, "pos": bool(hc) and rng.random() < 0.5}]


@gen("C29")
def lines(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(160)):
        f = rng.choice(["MS", "MS", "MS", "D", "D", "QS-JAN", "YS-JAN"])
        tz, sod = rng.choice(ZS), rng.choice([0, 0, 6 * H])
        y = rng.choice([2019, 2020, 2021, 2022, 2023, 2024])
        m, n = shape(rng, f)
        if f == "D":
            m, n = rng.choice([2, 2, 3, 10, 4, 12]), 1
        if f == "MS":
            m, n = rng.choice([(1, 12), (2, 1), (1, 3), (2, 13), (11, 4)])
        ix = months_span(rng, f, tz, sod, y, m, n)
        g = mk(ctx, ix, f)
        kind = rng.choice(["vol", "pri", "rev", "rev", "all", "all"])
        a = lineof(g, kind, ix)
        hc = rng.choice(HC)
        year = rng.randint(2016, 2030)
        g.act("mapyear", a=a, year=year, hc=hc, hol=hl(hc, *range(y, y + n // 12 + 2), *range(year, year + n // 12 + 2)), pub=rng.random() < 0.5, out=g.name())
        yield g.s


@gen("C29")
def long_days(ctx):
    """Daily values that touch three or more calendar years."""
    rng = ctx.rng
    for _ in range(ctx.n(16)):
        tz, sod = rng.choice(ZS), rng.choice([0, 0, 6 * H])
        y, (m, n) = rng.randint(2018, 2026), rng.choice([(12, 14), (11, 15), (12, 15), (10, 16), (12, 26)])
        hc = rng.choice([h for h in HC if h])
        ix = months_span(rng, "D", tz, sod, y, m, n)
        hol = hl(hc, *range(y, y + 4))
        if rng.random() < 0.5:
            yield [{"op": "charix", "ix": ix, "hc": hc, "hol": hol, "default": False, "pos": False}]
            continue
        y2 = rng.choice([y + 1, y + 1, y + 3, 2017])
        if rng.random() < 0.6:      # long source, short target, or the other way round
            t = months_span(rng, "D", tz, sod, y2, rng.choice([1, 3, 5, 10, 12]), rng.choice([1, 2, 3]))
        else:
            t, ix = ix, months_span(rng, "D", tz, sod, y2, 1, 12)
        yield [{"op": "year", "api": "index", "to": "index", "ix": ix, "t": t, "hc": hc, "hol": hl(hc, *range(y, y + 4), y2, y2 + 1), "obj": "series", "default": False}]
