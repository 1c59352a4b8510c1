"""Sessions for the tools on series and tables (C23, C24, C25, C26, C33)."""
from __future__ import annotations

import itertools

from dom import BASE, DAYS, TZS, period_starts, rank, right_of
from plans import gen, model

model("C26", "MC_Laws", "MC_Laws_Wavg", thorough="MC_Laws_Wavg_thorough", big=True)
model("C33", "MC_Laws", "MC_Laws_Fill", thorough="MC_Laws_Fill_thorough", big=True)
model("C23", "MC_Laws", "MC_Laws_Isect", thorough="MC_Laws_Isect_thorough", big=True)
model("C25", "MC_Laws", "MC_Laws_Zone", thorough="MC_Laws_Zone_thorough", big=True)

NAN = [0, 0]
WS = [[0, 1], [0, 1], [1, 1], [1, 1], [-1, 1], [2, 1], [-2, 1], [1, 2], [3, 1], [5, 2]]
VS = [[10, 1], [20, 1], [30, 1], [10, 1], [-15, 1], [0, 1], [7, 2], [100, 1]]


def vals(rng, n, nan=0.15, uni=0.25):
    if rng.random() < uni:
        v = rng.choice(VS)
        return [NAN if rng.random() < nan / 2 else v for _ in range(n)]
    return [NAN if rng.random() < nan else rng.choice(VS) for _ in range(n)]


def ws(rng, n):
    c = rng.random()
    if c < 0.12:
        return [[0, 1]] * n
    if c < 0.27:
        w = rng.choice([x for x in WS if x[0]])
        return [w] * n
    w = [rng.choice(WS) for _ in range(n)]
    if c < 0.5 and n > 1:                  # make the sum zero
        from fractions import Fraction as F
        s = sum(F(*x) for x in w[:-1])
        w[-1] = [-s.numerator, s.denominator]
        rng.shuffle(w)
    return w


def one_wavg(rng, v, w, **kw):
    return {"op": "wavg", "v": v, "w": w, "un": rng.choice(["none", "none", "Eur/MWh"]), "wun": rng.choice(["none", "none", "MWh"]), "lab": rng.choice(["int", "str", "dt"]),
            "wform": rng.choice(["list", "tuple", "array"] if w["t"] == "list" else ["dict", "series"]), "api": rng.choice(["general", "series"]), "kw": rng.random() < 0.5, **kw}


def mapping(rng, w, n, extra=0.08, fewer=0.3):
    ks = list(range(1, n + 1))
    k = len(w)
    rng.shuffle(ks)
    if rng.random() < extra:
        ks[0] = n + rng.randint(1, 2)
    m = k if rng.random() > fewer else rng.randint(1, k)
    return {"t": "map", "k": ks[:m], "w": w[:m]}


@gen("C26")
def wavgs(ctx):
    rng = ctx.rng
    # all combinations of few values and weights
    V = [NAN, [10, 1], [20, 1]]
    W = [[0, 1], [1, 1], [-1, 1], [2, 1]]
    for n in ((1, 2) if not ctx.thorough else (1, 2, 3)):
        for v in itertools.product(V, repeat=n):
            for w in itertools.product(W, repeat=n):
                if ctx.mine():
                    yield [one_wavg(rng, list(v), {"t": "map", "k": list(range(1, n + 1)), "w": list(w)}),
                           {"op": "wavgdf", "v": [[x] for x in v], "fac": [[1, 1]] * n, "uns": ["none"] * n, "un": ["none"] * n, "axis": 1, "lab": "str", "wun": "none",
                            "w": {"t": "map", "k": list(range(1, n + 1)), "w": list(w)}, "wform": "series", "api": "general"}]
    for _ in range(ctx.n(1600)):
        n = rng.randint(1, 5)
        v = vals(rng, n)
        c = rng.random()
        if c < 0.1:
            w = {"t": "none"}
        elif c < 0.4:
            w = {"t": "list", "w": ws(rng, n if rng.random() < 0.9 else max(1, n + rng.choice([-1, 1])))}
        else:
            w = mapping(rng, ws(rng, n), n)
        yield [one_wavg(rng, v, w)]
    for _ in range(ctx.n(1100)):
        nr, nc = rng.randint(1, 4), rng.randint(1, 4)
        axis = rng.choice([0, 1])
        pint = rng.random() < 0.35
        if not pint:
            uns, fac, un = ["none"] * nc, [[1, 1]] * nc, ["none"] * nc
        elif axis == 1 or rng.random() < 0.5:
            uns = [rng.choice(["Eur/MWh", "Eur/MWh", "ct/kWh"]) for _ in range(nc)]
            un = ["Eur/MWh"] * nc
            fac = [[10, 1] if u == "ct/kWh" else [1, 1] for u in uns]
        else:
            uns = [rng.choice(["Eur/MWh", "Eur", "MW"]) for _ in range(nc)]
            un, fac = uns, [[1, 1]] * nc
        n = nr if axis == 0 else nc
        c = rng.random()
        nan = 0.15
        if c < 0.1:
            w, nan = {"t": "none"}, 0
        elif c < 0.25:
            w = {"t": "list", "w": ws(rng, n if rng.random() < 0.92 else n + 1)}
        elif c < 0.6:
            w = mapping(rng, ws(rng, n), n)
        else:
            rows = rng.sample(range(1, nr + 1), nr if rng.random() < 0.7 else rng.randint(1, nr))
            cols = rng.sample(range(1, nc + 1), nc if rng.random() < 0.7 else rng.randint(1, nc))
            if rng.random() < 0.05:
                rows = [*rows, nr + 1]
            w = {"t": "frame", "rows": rows, "cols": cols, "w": None}
            if axis == 1:          # rows with each their own sort of weights
                byrow = [ws(rng, len(cols)) for _ in rows]
                w["w"] = [[byrow[i][j] for i in range(len(rows))] for j in range(len(cols))]
            else:
                w["w"] = [ws(rng, len(rows)) for _ in cols]
        if axis == 1:
            byrow = [vals(rng, nc, nan, 0.4) for _ in range(nr)]
            v = [[byrow[r][c] for r in range(nr)] for c in range(nc)]
        else:
            v = [vals(rng, nr, nan, 0.4) for _ in range(nc)]
        yield [{"op": "wavgdf", "v": v, "fac": fac, "uns": uns, "un": un, "axis": axis, "lab": rng.choice(["int", "str", "dt"]), "wun": rng.choice(["none", "none", "MWh"]),
                "w": w, "wform": rng.choice(["list", "tuple"] if w["t"] == "list" else ["dict", "series"]), "api": rng.choice(["general", "frame"])}]


# ------------------------------------------------------------------ gaps
@gen("C33")
def gaps(ctx):
    rng = ctx.rng
    # every pattern of missing values up to a length, every maximum
    for n in range(1, 8 if not ctx.thorough else 10):
        for pat in itertools.product([0, 1], repeat=n):
            if ctx.mine():
                mg = rng.randint(0, 4)
                yield [fill(rng, pat, mg)]
    for _ in range(ctx.n(800)):
        n = rng.randint(4, 24)
        p = rng.choice([0.2, 0.5, 0.7])
        yield [fill(rng, [rng.random() < p for _ in range(n)], rng.choice([0, 1, 2, 2, 3, 5, 9]))]


def fill(rng, pat, maxgap):
    n = len(pat)
    xkind = rng.choice(["int", "none", "Europe/Berlin"])
    if xkind == "int":
        x = list(range(n)) if rng.random() < 0.5 else sorted(rng.sample(range(3 * n + 5), n))
    else:
        ix = period_starts(rng.choice(["15min", "h", "D", "MS"]), xkind, 0, rng.choice(DAYS), 25)
        x = ix["u"][:n]
    frame = rng.random() < 0.3
    cols = [pat] if not frame else [pat, [rng.random() < 0.4 for _ in range(n)]]
    given = maxgap != 2 or rng.random() < 0.5
    return {"op": "fill", "x": x, "xkind": xkind, "v": [[NAN if g else rng.choice([[rng.randint(-50, 50), 1], [rng.randint(-9, 9), 4]]) for g in c] for c in cols], "maxgap": maxgap, "given": given,
            "frame": frame, "names": ["a", "b"][: len(cols)], "un": "none" if rng.random() < 0.8 else "MW"}


# ------------------------------------------------------------------ intersections
@gen("C23")
def intersections(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(2600)):
        n = rng.choice([1, 2, 2, 2, 2, 3, 3, 4])
        api = rng.choice(["indexable", "indexable", "frames", "flex", "indices"])
        f0, tz0, sod0 = rng.choice(BASE), rng.choice(TZS), rng.choice([0, 0, 0, 6 * 3600])
        igf, igt, igs = (rng.random() < 0.35 for _ in range(3)) if api != "indices" else (False, False, False)
        day = rng.choice(DAYS)
        types = {"indexable": ["series", "frame", "line", "line", "state"], "frames": ["series", "frame"], "flex": ["index"], "indices": ["index"]}[api]
        name = rng.choice(["", "x"])
        objs = []
        for _ in range(n):
            f = f0 if not igf and rng.random() < 0.97 else rng.choice(BASE)
            tz = tz0 if not igt and rng.random() < 0.97 else rng.choice(TZS)
            sod = sod0 if not igs and rng.random() < 0.97 else rng.choice([0, 6 * 3600, 5 * 3600])
            objs.append(isect_obj(rng, f, tz, sod, day, rng.choice(types), name if api == "indices" else rng.choice(["", "a", "b"])))
        if rng.random() < 0.04 and api in ("frames", "flex"):
            objs[0]["ix"]["u"], objs[0]["v"] = [], [[] for _ in objs[0]["v"]]
        yield [{"op": "isect", "objs": objs, "igf": igf, "igt": igt, "igs": igs, "api": api, "explicit": rng.random() < 0.3}]


SPAN = {"15min": 3, "h": 4, "D": 70, "MS": 14, "QS": 7, "YS": 3}


def isect_obj(rng, f, tz, sod, day, t, name):
    import pandas as pd
    base = pd.Timestamp(day)
    back = {1: 1, 2: 2, 3: 40, 4: 200, 5: 400, 6: 700}[rank(f)]
    start = base - pd.Timedelta(days=rng.randint(0, back))
    if start.year < 2010:
        start = base
    ix = period_starts(f, tz, sod, str(start.date()), rng.randint(1, SPAN[f]))
    if t != "series":
        name = name if t == "index" else ""
    nc = {"index": 0, "frame": 2}.get(t, 1)
    v = [[[rng.randint(-9, 99), 1] for _ in ix["u"]] for _ in range(nc)]
    return {"t": t, "ix": ix, "v": v, "name": name}


# ------------------------------------------------------------------ time zones
DSTDAYS = ["2024-03-30", "2024-10-26", "2023-03-25", "2023-10-28", "2024-03-09", "2024-11-02", "2024-04-06", "2024-10-05", "2022-06-15", "2023-12-31"]


def column(rng, n):
    return [[rng.randint(-99, 999), 1] for _ in range(n)]


def shape(rng):
    frame = rng.random() < 0.35
    return {"frame": frame, "names": ["a", "b"] if frame else [rng.choice(["", "s"])], "copies": [1, 2] if frame else [1]}


def dstframe(rng, tz=None, f=None, sods=(0, 0, 0, 6 * 3600)):
    f = f or rng.choice(["15min", "h", "h", "D", "D", "MS", "QS", "YS"])
    tz = tz or rng.choice(TZS)
    ix = period_starts(f, tz, rng.choice(sods), rng.choice(DSTDAYS), rng.randint(1, 3) if rank(f) <= 2 else rng.randint(3, 6))
    return ix


@gen("C25")
def zones(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(2600)):
        ix = dstframe(rng)
        v = column(rng, len(ix["u"]))
        how = rng.choice(["aware", "aware", "agnostic"])
        tz = rng.choice(TZS[1:]) if rng.random() < 0.85 or ix["tz"] == "none" else ix["tz"]
        yield [{"op": "force", "ix": ix, "v": v, "how": how, "tz": tz, "floating": rng.random() < 0.6, "dflt": rng.random() < 0.5,
                "given": rng.random() < 0.7 or len(ix["u"]) < 4 or (rank(ix["f"]) >= 3 and len(ix["u"]) < 4), **shape(rng)}]


@gen("C24")
def standardized(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(2400)):
        c = rng.random()
        ix = dstframe(rng, sods=(0, 0, 0, 6 * 3600, 5 * 3600))
        given = rng.random() < 0.5
        how = "plain"
        bound = "left"
        if c < 0.3:
            given = damage(rng, ix, given)
        elif c < 0.45 and ix["tz"] != "none":
            how, given = "walls", False
        elif c < 0.6:
            bound = "right"
        if len(ix["u"]) < 4:
            if how == "walls" or not given and len(ix["u"]) == 0:
                continue
            given = given or not (len(ix["u"]) == 3 and c < 0.3)
            if bound == "left" and given and not fits(ix):
                continue
        if bound == "right":
            ru = ix["u"][1:] + [right_of(ix)]
            if rank(ix["f"]) > 2:
                given = True
        elif given and not fits(ix):
            continue
        v = column(rng, len(ix["u"]))
        force = rng.choice(["none", "aware", "agnostic"])
        tz = rng.choice(["none", *TZS]) if rng.random() < 0.6 else ix["tz"]
        if how == "walls":
            tz = ix["tz"]
        yield [{"op": "std", "ix": ix, "v": v, "given": given, "how": how, "bound": bound, "force": force, "forceword": "naive" if force == "agnostic" and rng.random() < 0.3 else force,
                "tz": tz, "floating": rng.random() < 0.7, "explicit": rng.random() < 0.3, "strings": False, **({"ru": ru} if bound == "right" else {}), **shape(rng)}]


def fits(ix):
    from core import ix_of
    try:
        ix_of(ix["f"], ix["tz"], ix["u"])
        return True
    except Exception:  # noqa: BLE001
        return False


def damage(rng, ix, given):
    """Spoil an index."""
    u = ix["u"]
    how = rng.choice(["gap", "first", "last", "shift", "minute", "double", "order", "second"])
    if how == "gap" and len(u) > 4:
        u.pop(rng.randint(1, len(u) - 2))
        return False
    if how == "first" and len(u) > 4:
        u.pop(0)
    elif how == "last" and len(u) > 4:
        u.pop()
    elif how == "shift":
        ix["u"] = [x + rng.choice([3600, 7200]) * 0 + 3600 for x in u] if rank(ix["f"]) <= 2 else [x + 86400 for x in u]
        return given and rank(ix["f"]) <= 2
    elif how in ("minute", "second"):
        ix["u"] = [x + (900 if how == "minute" else 1) for x in u]
    elif how == "double" and len(u) > 4:
        k = rng.randint(1, len(u) - 1)
        u.insert(k, u[k])
        return False
    elif how == "order" and len(u) > 4:
        u[1], u[2] = u[2], u[1]
        return False
    return given
