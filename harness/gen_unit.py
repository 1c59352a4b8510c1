"""Sessions on units (C36)."""
from __future__ import annotations

import itertools

from dom import ALLF, BASE, HSODS, TZS, DAYS, period_starts
from plans import gen

W = [[["megawatt", 1]], [["kilowatt", 1]], [["gigawatt", 1]], [["megawatthour", 1], ["hour", -1]], [["kilowatthour", 1], ["minute", -1]]]
EN = [[["megawatthour", 1]], [["kilowatthour", 1]], [["gigawatthour", 1]], [["megawatt", 1], ["hour", 1]], [["gigawatt", 1], ["minute", 1]], [["tonne_oil_equiv", 1]],
      [["tonne_coal_equiv", 1]]]
P = [[["euro", 1], ["megawatthour", -1]], [["eurocent", 1], ["kilowatthour", -1]], [["euro", 1], ["kilowatthour", -1]], [["kiloeuro", 1], ["gigawatthour", -1]],
     [["euro_per_MWh", 1]], [["cent_per_kWh", 1]], [["euro", 1], ["megawatt", -1], ["hour", -1]]]
R = [[["euro", 1]], [["kiloeuro", 1]], [["eurocent", 1]], [["megaeuro", 1]], [["euro_per_MWh", 1], ["gigawatthour", 1]]]
D = [[["hour", 1]], [["minute", 1]], [["second", 1]]]
T = [[["degC", 1]]]
ND = [[], [["eurocent", 1], ["euro", -1]], [["megawatthour", 1], ["kilowatthour", -1]], [["kilowatt", 1], ["megawatt", -1]]]
X = [[["euro", 1], ["megawatt", -1]], [["euro", 2]], [["megawatthour", 2]], [["euro", 1], ["hour", -1]], [["degC", 1], ["hour", -1]], [["hour", -1]]]
DIMS = {"w": W, "q": EN, "p": P, "r": R, "d": D, "t": T, "n": ND, "x": X}
VS = [[0, 1], [100, 1], [-300, 1], [1800, 1], [450, 1], [7200, 1], [-125, 2], [1, 1]]


def num(rng, nan=0.1):
    return [0, 0] if rng.random() < nan else rng.choice(VS)


def col(rng, n, form=None, dim=None):
    form = form or rng.choice(["ints", "floats", "pint", "pint", "objects", "objects"])
    if form in ("int", "ints"):
        return {"form": form, "m": [rng.choice([v for v in VS if v[1] == 1]) for _ in range(n)], "u": [[]] * n}
    if form in ("float", "floats", "text"):
        return {"form": form, "m": [num(rng) for _ in range(n)], "u": [[]] * n}
    dim = dim or rng.choice("wqprdtnx")
    us = DIMS[dim]
    if form in ("pint", "quantity"):
        return {"form": form, "m": [num(rng) for _ in range(n)], "u": [rng.choice(us)] * n}
    mixed = rng.random() < 0.25
    if dim == "x":
        us = [rng.choice(us)]
    u = [rng.choice(us) for _ in range(n)]
    if mixed:
        u = [rng.choice(DIMS[rng.choice("wqprd")]) for _ in range(n)]
    return {"form": form, "m": [num(rng) for _ in range(n)], "u": u}


def subject(rng):
    c = rng.random()
    base = {"lab": rng.choice(["int", "str", "dt"]), "names": []}
    if c < 0.03:
        return {"kind": "other", "what": rng.choice(["none", "str", "list"]), "cols": [], **base}
    if c < 0.3:
        return {"kind": "value", "cols": [col(rng, 1, rng.choice(["int", "float", "quantity", "quantity", "quantity"]))], **base}
    n = rng.randint(1, 4)
    if c < 0.75:
        return {"kind": "series", "cols": [col(rng, n)], **base}
    k = rng.randint(1, 3)
    return {"kind": "frame", "cols": [col(rng, n) for _ in range(k)], "lab": base["lab"], "names": rng.sample(["w", "q", "a", "b"], k)}


def other_unit(rng, c):
    """The same values in other units of the same dimensions."""
    from fractions import Fraction as F
    FAC = {"megawatt": 1, "kilowatt": F(1, 1000), "gigawatt": 1000, "megawatthour": 1, "kilowatthour": F(1, 1000), "gigawatthour": 1000, "hour": 1, "minute": F(1, 60),
           "second": F(1, 3600), "euro": 1, "kiloeuro": 1000, "megaeuro": 10**6, "eurocent": F(1, 100), "euro_per_MWh": 1, "cent_per_kWh": 10, "degC": 1,
           "tonne_oil_equiv": F(1163, 100), "tonne_coal_equiv": F(6978, 1000)}

    def fac(u):
        f = F(1)
        for n, k in u:
            f *= F(FAC[n]) ** k
        return f
    m, us = [], []
    for x, u in zip(c["m"], c["u"]):
        grp = next((g for k, g in DIMS.items() if k != "x" and u in g), [u])
        v = us[0] if us and c["form"] == "pint" else rng.choice(grp)
        y = F(*x) * fac(u) / fac(v) if x[1] else None
        m.append([0, 0] if y is None else [y.numerator, y.denominator])
        us.append(v)
    return {"form": c["form"], "m": m, "u": us}


def variant(rng, c):
    if c["form"] in ("pint", "objects", "quantity"):
        d = other_unit(rng, c)
        if any(abs(x[0]) > 10**8 or x[1] > 10**4 for x in d["m"]):
            d = c
    else:
        d = c
    r = rng.random()
    if r < 0.35:
        j = rng.randrange(len(d["m"]))
        m = list(d["m"])
        m[j] = ([2 * m[j][0], m[j][1]] if m[j][0] else [50, 1]) if m[j][1] and rng.random() < 0.8 else [0, 0] if m[j][1] else [1, 1]
        if c["form"] in ("int", "ints") and m[j][1] == 0:
            m[j] = [9, 1]
        d = {**d, "m": m}
    elif r < 0.45:
        n = len(d["m"])
        d = col(rng, n, "quantity" if c["form"] in ("int", "float", "quantity") else rng.choice(["floats", "pint"]))
    return d


@gen("C36")
def units(ctx):
    rng = ctx.rng
    for us in DIMS.values():
        for u in us:
            if ctx.mine():
                yield [{"op": "unitname", "u": u}]
    singles = [u for us in DIMS.values() for u in us if len(u) == 1]
    for a, b in itertools.product(singles, repeat=2):
        if ctx.mine():
            yield [{"op": "unitname", "u": [a[0], [b[0][0], k * b[0][1]]]} for k in (1, -1) if a[0][0] != b[0][0]] or [{"op": "unitname", "u": a}]
    for n in ["w", "q", "p", "r", "duration", "t", "nodim", "x", "W", "none", ""]:
        if ctx.mine():
            yield [{"op": "nameunit", "name": n}]
    for _ in range(ctx.n(1200)):
        e = subject(rng)
        yield [{"op": o, **e} for o in rng.sample(["udefault", "usplit", "uavoid"], 2)
               if not (o in ("uavoid",) and e["kind"] == "value") and not (e["kind"] == "other" and o == "uavoid")] or [{"op": "udefault", **e}]
    for _ in range(ctx.n(60)):     # what cannot be turned into numbers
        n = rng.randint(1, 3)
        yield [{"op": "uavoid", "kind": "series", "lab": "int", "names": [], "cols": [col(rng, n, "text")]},
               {"op": "uavoid", "kind": "frame", "lab": "int", "names": ["a", "b"], "cols": [col(rng, n), col(rng, n, "text")]}]
    for _ in range(ctx.n(900)):
        n = rng.randint(1, 3)
        a = col(rng, n, rng.choice(["floats", "ints", "pint", "pint", "pint"]))
        b = variant(rng, a)
        yield [{"op": "uclose", "a": a, "b": b, "nan": rng.random() < 0.5}]
    for _ in range(ctx.n(1200)):
        kind = rng.choice(["frame", "series", "series", "value"])
        n = 1 if kind == "value" else rng.randint(1, 3)
        k = rng.randint(1, 3) if kind == "frame" else 1
        names = rng.sample(["w", "q", "a", "b"], k) if kind == "frame" else ["s"]
        cs = [col(rng, n, rng.choice(["float", "int", "quantity"]) if kind == "value" else rng.choice(["floats", "pint", "pint", "objects"])) for _ in range(k)]
        ds = [variant(rng, c) if rng.random() < 0.8 else c for c in cs]
        bn = list(names)
        if kind == "frame" and rng.random() < 0.5:
            o = rng.sample(range(k), k)
            bn, ds = [bn[i] for i in o], [ds[i] for i in o]
        if kind == "frame" and rng.random() < 0.1:
            bn = [{"w": "x"}.get(b, b) for b in bn]
        if kind == "frame" and k > 1 and rng.random() < 0.1:
            bn, ds = bn[1:], ds[1:]
        lab = "int" if kind == "value" else rng.choice(["int", "dt"])
        yield [{"op": "uassert", "kind": kind, "an": names, "as": cs, "bn": bn, "bs": ds, "alab": lab, "blab": lab if kind == "value" or rng.random() < 0.9 else "str"}]
    for _ in range(ctx.n(300)):
        def ix(f, tz, sod, day):
            return period_starts(f, tz, sod, day, rng.randint(1, 2))
        f, tz, sod = rng.choice(["15min", "h", "D", "MS", "QS-JAN", "QS-APR", "YS-JAN", "QS-OCT", "YS-APR"]), rng.choice(TZS), rng.choice(HSODS[:5])
        a = ix(f, tz, sod, rng.choice(DAYS))
        c = rng.random()
        if c < 0.2:
            f = rng.choice(["h", "D", "MS", "QS-JAN", "QS-APR", "YS-JAN", "YS-APR"])
        elif c < 0.4:
            tz = rng.choice(TZS)
        elif c < 0.6:
            sod = rng.choice(HSODS)
        yield [{"op": "icompat", "a": a, "b": ix(f, tz, sod, rng.choice(DAYS))}]
