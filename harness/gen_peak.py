"""Sessions for peak definitions, decomposition, hedging and conversion of base, peak and offpeak values (C15, C16, C27, C28)."""
from __future__ import annotations

import pandas as pd

from core import uarr
from dom import DAYS, TZS, local, period_starts, rank, right_of
from gen_line import G, reg, UN
from plans import gen, model

model("C27", "MC_Laws", "MC_Laws_Peak", thorough="MC_Laws_Peak_thorough", big=True)
model("C15", "MC_Laws", "MC_Laws_Po")
model("C16", "MC_Laws", "MC_Laws_Hedge")
model("C28", "MC_Laws", "MC_Laws_Bpo")

H = 3600
GERMAN = {"l": 8 * H, "r": 20 * H, "wdg": False, "wd": []}
TIMES = [(8 * H, 20 * H), (7 * H, 23 * H), (-1, -1), (-1, -1), (-1, 6 * H), (20 * H, -1), (2 * H, 5 * H), (1 * H, 3 * H), (3 * H, 24 * H), (0, 2 * H), (H, 2 * H),
         (2 * H, 3 * H), (7 * H + 1800, 19 * H + 900), (2 * H + 900, 2 * H + 2700), (0, 12 * H), (12 * H, 0), (900, 86400 - 900)]
WDS = [None, None, [1, 2, 3, 4, 5], [6, 7], [7], [1, 2, 3, 4, 5, 6, 7], [1, 3, 5], [6], [3, 2], [1, 2, 3, 4, 5, 6]]
BADT = [(8 * H + 300, 20 * H), (8 * H, 20 * H + 60), (8 * H, 20 * H + 30), (8 * H + 1, -1), (10, -1), (1800 + 20, 20 * H)]


def definition(rng, grain=None, bad=0.0):
    if (not grain or grain <= 2) and rng.random() < 0.12:
        return {**GERMAN, "named": True}
    while True:
        if rng.random() < bad:
            l, r = rng.choice(BADT)
        else:
            l, r = rng.choice(TIMES)
        wd = rng.choice(WDS if rng.random() > bad else [[], [8], [0]])
        d = {"l": l, "r": r, "wdg": wd is not None, "wd": wd or [], "as": rng.choice(["list", "tuple", "set"]), "expl": rng.random() < 0.5, "mod": rng.random() < 0.8}
        ll, rr = max(l, 0), 86400 if r <= 0 else r
        if grain:
            g = 3 if (ll, rr) == (0, 86400) else 2 if ll % H == 0 and rr % H == 0 else 1
            if g < grain or ((ll, rr) == (0, 86400) and wd and set(wd) == set(range(1, 8))):
                continue
        return d


def span(f, tz, sod, d0, d1):
    """Index dict of all f-periods from day d0 to day d1."""
    a, b = local(d0, sod, tz), local(d1, sod, tz)
    i = pd.date_range(a, b, freq=f, inclusive="left")
    return {"f": f, "tz": tz, "u": uarr(i)}


MONTHS = ["2024-02-01", "2023-03-01", "2023-10-01", "2024-11-01", "2024-03-01", "2025-04-01", "2023-12-01", "2024-01-01", "2022-06-01", "2021-02-01"]
QUARTERS = ["2024-01-01", "2023-10-01", "2022-04-01", "2025-01-01"]


def around(rng, f, tz, sod, per, hourly=True):
    """Index that covers some full periods, with loose ends: f shorter than per."""
    off = {"MS": pd.DateOffset(months=1), "QS": pd.DateOffset(months=3), "YS": pd.DateOffset(years=1), "D": pd.DateOffset(days=1)}[per[:2].rstrip("-")]
    start = pd.Timestamp(rng.choice({"M": MONTHS, "Q": QUARTERS, "Y": ["2024-01-01", "2023-01-01"], "D": DAYS}[per[0]]))
    n = 1 if f != "D" or per[0] == "Y" else rng.choice([1, 2, 3])
    if per == "D":
        n = rng.choice([1, 2, 3])
    c = rng.random()
    lo = 0 if c < 0.5 else rng.choice([0, -2, -1, 1, -3])
    hi = 0 if c < 0.5 else rng.choice([0, 1, 3, -1, 2])
    d0, d1 = start + pd.Timedelta(days=lo), start + n * off + pd.Timedelta(days=hi)
    return span(f, tz, sod, str(d0.date()), str(max(d1, d0 + pd.Timedelta(days=1)).date()))


def zone(rng):
    return rng.choice(["none", "Europe/Berlin", "Europe/Berlin", *TZS])


def small(rng, n, lo=1, hi=40, zero=0.1):
    """Few distinct values: keeps sums small."""
    p = [[rng.randint(lo, hi) * rng.choice([1, 1, 1, -1]), rng.choice([1, 1, 2])] for _ in range(4)]
    if rng.random() < 0.5:
        p.append([0, 1])
    if rng.random() < 0.08:
        p = p[:1]
    return [rng.choice(p) for _ in range(n)]


# ------------------------------------------------------------------ C27
@gen("C27")
def peakfns(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1300, 16000)):
        tz, sod = zone(rng), rng.choice([0, 0, 0, 6 * H, 5 * H, 23 * H])
        f = rng.choice(["15min", "h", "h", "h", "D", "D", "MS", "QS", "YS"])
        d = definition(rng, bad=0.06)
        n = {1: rng.choice([1, 2]), 2: rng.randint(1, 8), 3: rng.randint(1, 20)}.get(rank(f), rng.randint(1, 3))
        yield [{"op": "peakfn", "d": d, "ix": period_starts(f, tz, sod, rng.choice(DAYS), n)}]
    for _ in range(ctx.n(1100, 12000)):
        tz, sod = zone(rng), rng.choice([0, 0, 0, 6 * H, 5 * H, 23 * H])
        f = rng.choice(["15min", "h", "D", "D", "MS", "MS", "QS", "YS"])
        d = definition(rng, grain=1)
        allday = max(d["l"], 0) == 0 and d["r"] <= 0
        if sod and allday and rank(f) > 2:
            sod = 0          # days that start at another time are not days of the week
        if rank(f) >= 5 and not allday and rng.random() < 0.6:
            f = "MS"
        n = {1: 1, 2: rng.randint(1, 4), 3: rng.randint(1, 20), 4: rng.randint(1, 5), 5: rng.randint(1, 2)}.get(rank(f), 1)
        yield [{"op": "peakdur", "d": d, "part": rng.choice(["peak", "offpeak"]), "ix": period_starts(f, tz, sod, rng.choice(DAYS), n)}]


# ------------------------------------------------------------------ C15
def mk(ctx, ix, f):
    g = G(ctx, freqs={"D": 1})
    g.tz, g.f, g.ix = ix["tz"], f, ix
    return g


def lineof(g, kind, ix, vols=True):
    rng = g.rng
    n = len(ix["u"])
    dims = {"vol": [["w"], ["q"]], "pri": [["p"]], "rev": [["r"]], "all": [["w", "p"], ["q", "p"], ["w", "r"]]}[kind]

    def flat():
        items = [{"d": d, "un": rng.choice(UN[d][:2]), "sc": False, "ix": ix, "v": small(rng, n)} for d in rng.choice(dims)]
        nm = g.name()
        g.act("new", items=items, form="dict", out=nm)
        return nm
    if rng.random() < 0.75 or n > 900:
        return flat()
    ch = {k: reg(flat()) for k in rng.sample(["A", "B", "C"], 2)}
    nm = g.name()
    g.act("nest", ch=ch, bad=False, out=nm)
    return nm


@gen("C15")
def po(ctx):
    rng = ctx.rng
    for j in range(ctx.n(330, 4000)):
        big = j % 4 == 0
        f = rng.choice(["h", "h", "h", "15min"]) if big else "D"
        per = rng.choice(["MS", "MS", "MS", "QS"]) if big else rng.choice(["MS", "MS", "QS", "QS", "YS"])
        if f == "15min":
            per = "MS"
        tz, sod = zone(rng), rng.choice([0, 0, 0, 6 * H, 5 * H])
        d = definition(rng, grain={"15min": 1, "h": 2, "D": 3}[f])
        if rng.random() < 0.08:
            d = definition(rng, grain=1)
        ix = around(rng, f, tz, sod, per)
        g = mk(ctx, ix, f)
        L = lineof(g, rng.choice(["vol", "pri", "rev", "all", "all"]), ix)
        a = g.act("po", a=L, d=d, f=per if rng.random() > 0.05 else rng.choice(["D", "h"]), pos=rng.random() < 0.5)
        if a["f"] == "MS" and rng.random() < 0.4:
            a["default"] = True
        yield g.s
    for _ in range(ctx.n(40, 400)):       # lines with longer periods cannot be decomposed
        tz, sod = zone(rng), 0
        f = rng.choice(["MS", "QS-JAN", "YS-JAN"])
        ix = period_starts(f, tz, sod, rng.choice(DAYS), rng.randint(1, 4))
        g = mk(ctx, ix, f)
        L = lineof(g, rng.choice(["vol", "pri", "rev", "all"]), ix)
        g.act("po", a=L, d=definition(rng, grain=1), f=rng.choice(["MS", "QS", "YS"]))
        yield g.s


# ------------------------------------------------------------------ C16
@gen("C16")
def hedges(ctx):
    rng = ctx.rng
    for j in range(ctx.n(330, 4000)):
        big = j % 3 == 0
        f = rng.choice(["h", "h", "h", "15min"]) if big else "D"
        per = rng.choice(["D", "D", "MS", "MS", "QS"]) if big else rng.choice(["D", "MS", "MS", "QS", "YS"])
        if f == "15min":
            per = rng.choice(["D", "D", "MS"])
        pk = big and per != "D" and rng.random() < 0.7
        if rng.random() < 0.04:
            pk = not pk
        tz, sod = zone(rng), rng.choice([0, 0, 0, 6 * H, 5 * H])
        d = definition(rng, grain={"15min": 1, "h": 2, "D": 3}[f])
        if rng.random() < 0.06:
            d = definition(rng, grain=1)
        ix = around(rng, f, tz, sod, per)
        ixp = ix
        c = rng.random()
        if c < 0.3:
            ixp = around(rng, f, tz, sod, per)
        elif c < 0.36:
            ixp = around(rng, rng.choice(["h", "D"]), zone(rng), rng.choice([0, 6 * H]), per)
        g = mk(ctx, ix, f)
        L = lineof(g, rng.choice(["vol", "vol", "all", "vol", "all", "vol", "all", "pri", "rev"]) if rng.random() < 0.3 else rng.choice(["vol", "all"]), ix)
        P = lineof(g, "pri" if rng.random() < 0.85 else rng.choice(["all", "vol", "rev"]), ixp)
        a = g.act("hedge", a=L, b=reg(P), how=rng.choice(["val", "vol"]) if rng.random() > 0.03 else "other", pk=pk, d=d if pk else dict(d), f=per if rng.random() > 0.05 else rng.choice(["h", "QS-FEB", "MS", "D"]),
                  api=rng.choice(["line", "line", "line", "two"]), units=rng.choice(["both", "both", "none", "w", "p"]), pos=rng.random() < 0.5, out=g.name())
        if a["api"] == "line" and a["how"] == "val" and not pk and a["f"] == "MS" and rng.random() < 0.5:
            a["default"] = True
        yield g.s


# ------------------------------------------------------------------ C28
PARTS = ["base", "peak", "offpeak"]
UNS = ["none", "none", "MW", "Eur/MWh", "Eur", "MWh"]


def cols(rng, n, allow=("two", "two", "two", "three", "one")):
    c = rng.choice(allow)
    ks = PARTS if c == "three" else rng.sample(PARTS, 2 if c == "two" else 1)
    ks = list(ks)
    rng.shuffle(ks)
    return ks, {k: [[rng.randint(-5, 60), rng.choice([1, 1, 2])] for _ in range(n)] for k in ks}


@gen("C28")
def conversions(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(700, 8000)):
        tz, sod = zone(rng), rng.choice([0, 0, 0, 6 * H])
        d = definition(rng, grain=1)
        if max(d["l"], 0) == 0 and d["r"] <= 0:
            sod = 0
        f = rng.choice(["MS", "MS", "QS", "YS"])
        if f == "YS" and rng.random() < 0.7:
            f = "D"
        ix = period_starts(f, tz, sod, rng.choice(DAYS), 1 if f == "YS" else rng.randint(1, 3))
        ks, c = cols(rng, len(ix["u"]))
        sm = rng.random() < 0.4
        yield [{"op": "bpo", "d": d, "ix": ix, "c": c, "order": ks, "sum": sm, "un": rng.choice(UNS), "extra": rng.random() < 0.2, "default": not sm and rng.random() < 0.5}]
    for j in range(ctx.n(240, 3000)):
        big = j % 4 == 0
        f = rng.choice(["h", "h", "15min"]) if big else "D"
        per = rng.choice(["MS", "MS", "QS"]) if big else rng.choice(["MS", "MS", "QS", "QS", "YS"])
        tz, sod = zone(rng), rng.choice([0, 0, 0, 6 * H])
        d = definition(rng, grain={"15min": 1, "h": 2, "D": 3}[f])
        ix = around(rng, f, tz, sod, per if f != "15min" else "MS")
        yield [{"op": "decompose", "d": d, "ix": ix, "v": small(rng, len(ix["u"])), "un": rng.choice(UNS), "f": per if rng.random() > 0.05 else "D", "sum": rng.random() < 0.4}]
    for j in range(ctx.n(240, 3000)):
        g = rng.choice(["MS", "MS", "MS", "QS", "YS"])
        f = rng.choice(["D", "D", "h"]) if g == "MS" else "D"
        if j % 24 == 0:
            f, g = "15min", "MS"
        tz, sod = zone(rng), rng.choice([0, 0, 0, 6 * H])
        d = definition(rng, grain={"15min": 1, "h": 2, "D": 3}[f])
        if rng.random() < 0.05:
            d = definition(rng, grain=1)
        if max(d["l"], 0) == 0 and d["r"] <= 0:
            sod = 0
        ix = period_starts(g, tz, sod, rng.choice(DAYS), 1 if f != "D" or g == "YS" else rng.randint(1, 2))
        ks, c = cols(rng, len(ix["u"]), ("two", "two", "two", "two", "three", "one"))
        yield [{"op": "reconstruct", "d": d, "ix": ix, "c": c, "order": ks, "sum": rng.random() < 0.4, "un": rng.choice(UNS), "f": f}]
    for _ in range(ctx.n(200, 2400)):
        tz, sod = zone(rng), rng.choice([0, 0, 0, 6 * H])
        d = definition(rng, grain=1)
        if max(d["l"], 0) == 0 and d["r"] <= 0:
            sod = 0
        g = rng.choice(["MS", "MS", "QS", "QS", "YS"])
        n = {"MS": rng.randint(1, 7), "QS": rng.randint(1, 4), "YS": 1}[g]
        ix = period_starts(g, tz, sod, rng.choice(DAYS), n)
        ks, c = cols(rng, n, ("two", "two", "two", "two", "three", "one"))
        yield [{"op": "convert", "d": d, "ix": ix, "c": c, "order": ks, "sum": rng.random() < 0.4, "un": rng.choice(UNS), "f": rng.choice(["MS", "QS", "QS", "YS", "YS", "D"])}]
