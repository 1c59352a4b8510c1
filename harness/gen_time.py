"""Sessions for C20, C21, C22, C30."""
from __future__ import annotations

from core import ix_of, u_of
from dom import ALLF, BASE, DAYS, HSODS, MON, QS, QSODS, TZS, YS, local, period_starts, rank, right_of
from plans import gen, model

import pandas as pd

model("C20 C21 C22", "MC_Time", "MC_Time", thorough="MC_Time_thorough")
model("C20", "MC_Time", "MC_Time_sim", sim=(600, 6000), depth=8)


def daysecs(rng):
    d = rng.choice(DAYS)
    t = rng.choice([0, 1, 30, 900, 6 * 3600 - 1, 6 * 3600, 16200, 86399, 3600, 5400, 7200, 7230, 8100, 9000, 9930, 10800, 11700, rng.randrange(86400), 900 * rng.randrange(96)])
    return d, t


def instant(rng, tz):
    """A random instant, often at a critical one; both instants of a repeated hour."""
    d, t = daysecs(rng)
    if tz == "none":
        return u_of(local(d, t, tz))
    t = (pd.Timestamp(d) + pd.Timedelta(seconds=t)).tz_localize(tz, ambiguous=rng.random() < 0.5, nonexistent=pd.Timedelta("1h"))
    return u_of(t)


@gen("C20")
def stamps(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(9000)):
        tz = rng.choice(TZS)
        sod = rng.choice([-1, *QSODS])
        f = rng.choice(BASE if rng.random() < 0.8 else ALLF)
        u = instant(rng, tz)
        s = []
        for op in ("floor", "ceil", "isb"):
            a = {"op": op, "tz": tz, "u": u, "f": f, "sod": sod}
            if op != "isb":
                a["n"] = rng.choice([0, 0, 1, -1, 2, -3])
            s.append(a)
        yield s
    for _ in range(ctx.n(2400)):
        tz, f, sod = rng.choice(TZS), rng.choice(ALLF), rng.choice(QSODS)
        ix = period_starts(f, tz, sod, rng.choice(DAYS), 1)
        u = rng.choice(ix["u"])
        yield [{"op": "right", "tz": tz, "u": u, "f": f}, {"op": "dur", "tz": tz, "u": u, "f": f}]
    for _ in range(ctx.n(1600)):
        tz, f = rng.choice(TZS), rng.choice(ALLF)
        sod = rng.choice(HSODS if rank(f) <= 2 else QSODS)
        ix = period_starts(f, tz, sod, rng.choice(DAYS), rng.randint(1, 3) if rank(f) == 1 else rng.randint(1, 5))
        s = [{"op": "ixright", "ix": ix}, {"op": "ixdur", "ix": ix}]
        for g in rng.sample(ALLF, 1) + rng.sample(BASE, 1):
            s.append({"op": "ixisb", "ix": ix, "f": g})
        yield s


@gen("C21")
def trims(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(3000)):
        tz, f = rng.choice(TZS), rng.choice(BASE)
        sod = rng.choice(HSODS if rank(f) <= 2 else QSODS)
        n = rng.choice([1, 2, 3, 4]) if rank(f) == 1 else rng.choice([1, 2, 5, 32, 33]) if rank(f) == 2 else rng.choice([1, 2, 3, 5, 14, 30, 31, 32, 62, 100, 370] if rank(f) == 3 else [1, 2, 3, 4, 5, 12, 13, 15, 26] if rank(f) < 6 else [1, 2, 3, 8])
        ix = period_starts(f, tz, sod, rng.choice(DAYS), n)
        g = rng.choice([x for x in BASE if rank(x) >= rank(f)] + BASE[2:] + QS[:3] + YS[:4])
        yield [{"op": "trim", "ix": ix, "f": g, "how": rng.choice(["index", "index", "series", "frame"])}]
    for _ in range(ctx.n(1600)):
        tz, f = rng.choice(TZS), rng.choice([*BASE, "QS-FEB", "YS-APR"])
        sod = rng.choice(HSODS if rank(f) <= 2 else QSODS)
        ix = period_starts(f, tz, sod, rng.choice(DAYS), rng.randint(2, 4))
        s = [{"op": "sodget", "ix": ix, "how": h} for h in ("time", "str", "timedelta")]
        new = rng.choice([x for x in (HSODS if rank(f) == 2 else QSODS)])
        s.append({"op": "sodset", "ix": ix, "sod": new})
        yield s
    for _ in range(ctx.n(2400)):
        tz, f = rng.choice(TZS), rng.choice([*BASE, "QS-FEB", "YS-APR", "QS-DEC"])
        sod = rng.choice(HSODS if rank(f) <= 2 else QSODS)
        ix = period_starts(f, tz, sod, rng.choice(DAYS), rng.randint(2, 3) if rank(f) <= 2 else rng.randint(3, 9))
        ru = ix["u"][1:] + [right_of(ix)]
        yield [{"op": "rtl", "ix": ix, "ru": ru, "known": True}]
        known = rank(f) <= 2
        if known or rank(f) == 3 and len(ru) > 3:
            yield [{"op": "rtl", "ix": ix, "ru": ru, "known": False}]


ALIASES = ["15min", "h", "D", "MS", "QS", "YS", *QS, *YS]
BAD = ["30min", "min", "5min", "2h", "3h", "2D", "7D", "W", "W-MON", "ME", "QE", "YE", "QE-FEB", "YE-MAR", "s", "2MS", "2QS", "2YS", "3QS-FEB", "2YS-APR", "4QS", "B", "BMS", "BQS", "BYS", "45min", "15s", "SMS", "1ms", "ns", "12h"]


@gen("C22")
def freqs(ctx):
    for f in ALIASES:
        for g in ALIASES:
            if ctx.mine():
                yield [{"op": "updown", "f": f, "g": g},
                       {"op": "longenough", "which": "long", "strict": False, "f": f, "g": g}, {"op": "longenough", "which": "long", "strict": True, "f": f, "g": g},
                       {"op": "longenough", "which": "short", "strict": False, "f": f, "g": g}, {"op": "longenough", "which": "short", "strict": True, "f": f, "g": g},
                       {"op": "longenough", "which": "equal", "strict": False, "f": f, "g": g},
                       {"op": "extreme", "which": "longest", "fs": [f, g]}, {"op": "extreme", "which": "shortest", "fs": [f, g]}]
    for f in ALIASES:
        if ctx.mine():
            yield [{"op": "validfreq", "f": f, "valid": True}]
    for f in BAD:
        if ctx.mine():
            yield [{"op": "validfreq", "f": f, "valid": False}]
    rng = ctx.rng
    for _ in range(ctx.n(800)):
        fs = rng.sample(ALIASES, rng.randint(1, 5))
        yield [{"op": "extreme", "which": w, "fs": fs} for w in ("longest", "shortest")]
    for _ in range(ctx.n(1200)):
        tz, f = rng.choice(TZS), rng.choice(ALIASES)
        sod = rng.choice(HSODS if rank(f) <= 2 else QSODS)
        n = rng.randint(1, 3) if rank(f) <= 2 else rng.randint(1, 9)
        ix = period_starts(f, tz, sod, rng.choice(DAYS), n)
        yield [{"op": "guess", "ix": ix, "can": len(ix["u"]) >= 4, "how": rng.choice(["index", "frame"])}]


@gen("C22")
def setfreqs(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1200)):
        tz, f = rng.choice(TZS), rng.choice([*BASE, *BASE, *ALIASES])
        sod = rng.choice(HSODS if rank(f) <= 2 else QSODS)
        ix = period_starts(f, tz, sod, rng.choice(DAYS), 1 if rank(f) <= 2 else rng.randint(1, 9))
        if rank(f) <= 2 or rng.random() < 0.3:
            ix["u"] = ix["u"][: rng.randint(1, 9)]
        if rng.random() < 0.15 and len(ix["u"]) > 2:                         # a period is missing
            del ix["u"][rng.randrange(1, len(ix["u"]) - 1)]
            ix = {**ix, "f": "None"}
        g = f if rng.random() < 0.5 else rng.choice([*BASE, *ALIASES])
        yield [{"op": "setfreq", "ix": {**ix, "f": "None"}, "f": g, "dt": rng.random() < 0.95, "how": rng.choice(["series", "frame"])}]
    LEN = [900, 3600, 82800, 86400, 90000, 84600, 88200]
    for d in (28, 29, 30, 31, 89, 90, 91, 92, 365, 366):
        LEN += [86400 * d + k for k in (0, 3600, -3600, 1800)]
    NO = [0, 1, 60, 300, 1800, 7200, 10800, 43200, 2 * 86400, 7 * 86400, 14 * 86400, 25 * 86400, 40 * 86400, 60 * 86400, 100 * 86400, 182 * 86400, 730 * 86400, -3600]
    for x in LEN + NO:
        if ctx.mine():
            yield [{"op": "fromtd", "sec": x}]


@gen("C14", "C22")
def indices(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1400)):
        tz, f = rng.choice(TZS), rng.choice([*BASE, "QS-FEB", "YS-APR"])
        sod = rng.choice(HSODS if rank(f) <= 2 else QSODS)
        n = {1: [1, 2], 2: [1, 2, 3, 32], 3: [1, 2, 5, 31, 62, 100, 370], 4: [1, 2, 3, 4, 7, 15], 5: [1, 2, 3, 4, 9], 6: [1, 2, 3]}[rank(f)]
        ix = period_starts(f, tz, sod, rng.choice(DAYS), rng.choice(n))
        g = rng.choice([*BASE, "QS-FEB", "YS-APR", "QS-NOV", "YS-JUL"])
        days = (ix["u"][-1] - ix["u"][0]) // 86400 + {4: 31, 5: 92, 6: 366}.get(rank(f), 1)
        if days * {1: 96, 2: 24}.get(rank(g), 1) > 2500:
            continue
        yield [{"op": "chgix", "ix": ix, "f": g, **({"default": True} if g == "MS" and rng.random() < 0.5 else {})}]


@gen("C30")
def products(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(6000)):
        tz, kind = rng.choice(TZS), rng.choice("dmqys")
        sod = rng.choice([-1, *QSODS])
        yield [{"op": "product", "tz": tz, "u": instant(rng, tz), "kind": kind, "n": rng.choice([1, 1, 2, 3, 4, 5, 0, -1, -2]), "sod": sod}]
    for _ in range(ctx.n(5000)):
        tz = rng.choice(TZS)
        sods = rng.choice(QSODS), rng.choice(QSODS)
        if rng.random() < 0.8:
            sods = sods[0], sods[0]
        a, b = [side(rng, tz, s) for s in sods]
        which = rng.choice(["both"] * 4 + ["l", "l", "r", "r", "none"])
        a, b = {"t": "none"} if which in ("r", "none") else a, {"t": "none"} if which in ("l", "none") else b
        yield [{"op": "leftright", "tz": tz, "sod": rng.choice([-1, sods[0]]), "l": a, "rr": b, "full": rng.random() < 0.5}]
    for _ in range(ctx.n(1500)):
        tz, sod = rng.choice(TZS), rng.choice([-1, *QSODS])
        yield [{"op": "mkstamp", "tz": tz, "sod": sod, "l": side(rng, tz, rng.choice(QSODS)), "full": rng.random() < 0.5}]


def side(rng, tz, sod):
    """A period boundary, as timestamp or as something that can be turned into one."""
    if rng.random() < 0.6:
        z = tz if rng.random() < 0.9 else rng.choice(TZS)
        return {"t": "ts", "tz": z, "u": period_starts(rng.choice(["D", "MS", "QS", "YS"]), z, sod, rng.choice(DAYS), 1)["u"][0]}
    w = period_starts(rng.choice(["D", "MS", "QS", "YS"]), "none", 0, rng.choice(DAYS), 1)["u"][0]
    form = rng.choice(["str", "short", "short", "date", "datetime", "np"])
    return {"t": "raw", "w": w + (sod if form in ("str", "datetime", "np") and rng.random() < 0.5 else 0), "form": form}
