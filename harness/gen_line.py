"""Sessions with portfolio lines (C01-C14, C31, C32).

G builds random inputs and calls; it never computes results.  What a call must yield is decided by Lines.tla."""
from __future__ import annotations

import pandas as pd

from core import u_of
from dom import DAYS, HSODS, TZS, local, period_starts, rank, right_of
from plans import gen, model

# the laws of the specification, explored exhaustively, and scripts the specification generates
for _props, _law in (("C01 C03", "Consistent"), ("C05", "AddLaws"), ("C06", "ScaleLaws"), ("C07", "Refusals"), ("C08", "Flattening"), ("C09", "Children"),
                     ("C10", "Slicing"), ("C11", "Reindexing"), ("C12", "Concatenation"), ("C13 C14", "Conservation"), ("C31", "Equality")):
    model(_props, "MC_Lines", f"MC_Lines_{_law}", thorough=f"MC_Lines_{_law}_thorough")
    model(_props, "MC_Lines", "MC_Lines_sim", sim=(60, 1200), depth=12)

LF = ["15min", "h", "D", "MS", "QS-JAN", "YS-JAN"]
NAMES = ["A", "B", "C", "Ä b", "wind", "p2", "sub 1"]
UN = {"w": ["none", "MW", "MW", "kW", "GW"], "q": ["none", "MWh", "MWh", "kWh", "GWh"], "p": ["none", "Eur/MWh", "Eur/MWh", "ct/kWh", "Eur/kWh"],
      "r": ["none", "Eur", "Eur", "kEur", "ct"]}
DIMOF = {u: d for d, us in UN.items() for u in us if u != "none"}
KINDS = {"vol": [["w"], ["q"]], "pri": [["p"]], "rev": [["r"]], "all": [["w", "p"], ["q", "p"], ["w", "r"], ["q", "r"]]}
WEIGHTS = {"15min": 1, "h": 2, "D": 6, "MS": 6, "QS-JAN": 3, "YS-JAN": 2, "QS-FEB": 1, "YS-APR": 1}


def wchoice(rng, d):
    return rng.choices(list(d), list(d.values()))[0]


def reg(n):
    return {"t": "reg", "n": n}


def addq(v):
    return v if v[1] else [0, 0]


class G:
    def __init__(self, ctx, freqs=None, maxn=None, nan=0.0, zero=0.15):
        self.ctx, self.rng = ctx, ctx.rng
        self.nan, self.zero = nan, zero
        self.s, self.k, self.plain = [], 0, False
        rng = self.rng
        self.tz = rng.choice(["none", "Europe/Berlin", "Europe/Berlin", *TZS])
        self.f = wchoice(rng, freqs if freqs else WEIGHTS)
        self.sod = rng.choice(HSODS)
        self.day = rng.choice(DAYS)
        self.maxn = maxn
        self.ix = self.mk_ix()
        self.kind = {}      # name -> believed kind, for making sensible choices
        self.nest = set()
        self.ixs = {}       # name -> believed index

    # -------- indices
    def mk_ix(self, f=None, tz=None, sod=None, day=None, n=None):
        f = f or self.f
        r = rank(f)
        if n is None:
            n = 1 if r == 1 else self.rng.choice([1, 1, 2]) if r == 2 else self.rng.choice([1, 2, 3, 4, 5, 6]) if r < 6 else self.rng.randint(1, 4)
        if self.maxn:
            n = min(n, self.maxn)
        return period_starts(f, tz or self.tz, self.sod if sod is None else sod, day or self.day, n)

    def shifted(self, how=None):
        """An index of the same frequency, zone, start-of-day, in another position."""
        rng = self.rng
        how = how or rng.choice(["over", "over", "in", "out", "gone", "adj"])
        d = pd.Timestamp(self.day)
        r = rank(self.f)
        step = {1: pd.DateOffset(days=1), 2: pd.DateOffset(days=1), 3: pd.DateOffset(days=1), 4: pd.DateOffset(months=1), 5: pd.DateOffset(months=3), 6: pd.DateOffset(years=1)}[r]
        per = len(self.ix["u"]) if r > 2 else max(1, len(self.ix["u"]) // (96 if r == 1 else 24))
        lo, hi = {"over": (-2, 2), "in": (0, max(per - 1, 0)), "out": (-2, -1), "gone": (per + 1, per + 2), "adj": (per, per)}[how]
        k = rng.randint(lo, hi)
        n = rng.randint(1, 3) if r > 2 else rng.choice([1, 2]) if r == 2 else 1
        if how == "out":
            n = per + 4 if r > 1 else 2
        return self.mk_ix(day=str((d + k * step).date()) if r <= 3 else self.moved(k), n=n)

    def moved(self, k):
        months = {4: 1, 5: 3, 6: 12}[rank(self.f)]
        d = pd.Timestamp((self.ix["u"][0] + 946684800) * 10**9)
        if self.tz != "none":
            d = d.tz_localize("UTC").tz_convert(self.tz).tz_localize(None)
        return str((d + pd.DateOffset(months=months * k)).date())

    def foreign(self):
        """An index that differs in frequency, zone or start-of-day."""
        rng = self.rng
        c = rng.choice(["f", "tz", "sod"])
        if c == "f":
            fs = [f for f in LF if f != self.f and abs(rank(f) - rank(self.f)) <= 2 and rank(f) > 1]
            return self.mk_ix(f=rng.choice(fs))
        if c == "tz":
            return self.mk_ix(tz=rng.choice([t for t in TZS if t != self.tz]))
        return self.mk_ix(sod=rng.choice([s for s in [0, 6 * 3600, 5 * 3600, 18 * 3600] if s != self.sod]))

    # -------- values
    def num(self, d="x", frac=True):
        rng = self.rng
        if rng.random() < self.zero:
            return [0, 1]
        if self.nan and rng.random() < self.nan:
            return [0, 0]
        if d in "r":
            return [rng.choice([-1, 1, 1]) * rng.randint(1, 2000), 1]
        v = rng.choice([-1, 1, 1, 1]) * rng.randint(1, 60)
        return [v, rng.choice([1, 1, 2]) if frac else 1]

    def vals(self, d, n):
        if self.rng.random() < 0.04:
            return [[0, 1]] * n
        if n > 30:        # few distinct values keep the sums small
            p = [self.num(d, False) for _ in range(5)]
            return [self.rng.choice(p) for _ in range(n)]
        return [self.num(d) for _ in range(n)]

    def item(self, d, ix=None, un=None, sc=False, named=True):
        ix = ix or self.ix
        un = un or self.rng.choice(UN[d][:2] if self.plain else UN[d])
        it = {"d": d if named else "?", "un": un, "sc": sc}
        if sc:
            it["v"] = [self.num(d)]
        else:
            it["ix"], it["v"] = ix, self.vals(d, len(ix["u"]))
        return it

    def form(self, items, simple=False):
        rng = self.rng
        same = all(not i["sc"] for i in items) and all(i["ix"] == items[0]["ix"] for i in items)
        dims = [i["d"] for i in items]
        if any(d == "?" for d in dims):
            if len(items) == 1 and rng.random() < 0.7:
                base = "single"
            else:
                base = rng.choice(["list", "tuple", "gen"])
        else:
            base = rng.choice(["dict", "dict", "frame"] if same else ["dict", "dict", "seriesof"])
        mod = "" if simple else rng.choice(["", "", "", "+obj", "+int"])
        return base + mod

    # -------- session building
    def name(self):
        self.k += 1
        return f"x{self.k}"

    def act(self, op, **kw):
        a = {"op": op, **kw}
        self.s.append(a)
        return a

    def flat(self, kind=None, ix=None):
        rng = self.rng
        kind = kind or rng.choice(["vol", "pri", "rev", "all", "all"])
        ix = ix or self.ix
        items = [self.item(d, ix) for d in rng.choice(KINDS[kind])]
        n = self.name()
        self.act("new", items=items, form=self.form(items, True), out=n)
        self.kind[n], self.ixs[n] = kind, ix
        return n

    def nested(self, kind=None, ix=None, depth=None, names=None, ragged=False):
        rng = self.rng
        kind = kind or rng.choice(["vol", "pri", "rev", "all", "all"])
        depth = depth or rng.choice([1, 1, 1, 2])
        names = names or rng.sample(NAMES, rng.randint(1, 3))
        ch = {}
        for nm in names:
            cix = self.shifted("over") if ragged and rng.random() < 0.4 else (ix or self.ix)
            if depth > 1 and rng.random() < 0.6:
                ch[nm] = reg(self.nested(kind, cix, depth - 1))
            else:
                ch[nm] = reg(self.flat(kind, cix))
        n = self.name()
        self.act("nest", ch=ch, bad=False, out=n)
        self.kind[n], self.ixs[n] = kind, ix or self.ix
        self.nest.add(n)
        return n

    def line(self, kind=None, ix=None):
        return self.flat(kind, ix) if self.rng.random() < 0.5 else self.nested(kind, ix)

    def scalar(self, lo=-4, hi=8, un="none", allow0=True):
        v = [self.rng.randint(lo, hi), self.rng.choice([1, 1, 2, 4])]
        if not allow0 and v[0] == 0:
            v = [1, 2]
        return {"t": "items", "items": [{"d": "?", "un": un, "sc": True, "v": [v]}], "form": self.rng.choice(["single", "single", "single+int"])}

    def factors(self, ix=None, un=None, zero=True):
        """A dimensionless timeseries."""
        rng = self.rng
        ix = ix or self.ix
        n = len(ix["u"])
        pool = [[rng.randint(-3, 6), rng.choice([1, 2])] for _ in range(4)]
        v = [rng.choice(pool) for _ in range(n)]
        if not zero:
            v = [[1, 1] if x[0] == 0 else x for x in v]
        return {"t": "items", "items": [{"d": "?", "un": un or rng.choice(["none", "dimensionless"]), "sc": False, "ix": ix, "v": v}], "form": "single"}

    def bin(self, o, a, b, rev=False):
        out = self.name()
        x = self.act("bin", o=o, a=a, b=reg(b) if isinstance(b, str) else b, out=out)
        if rev:
            x["rev"] = True
        if o in ("add", "sub", "rsub"):
            self.kind[out] = self.kind.get(a)
        return out

    def un(self, op, a, **kw):
        out = self.name()
        self.act(op, a=a, **kw, out=out)
        self.kind[out] = self.kind.get(a)
        if a in self.nest:
            self.nest.add(out)
        self.ixs[out] = self.ixs.get(a, self.ix)
        return out

    def sel(self, a, op=None, step=1):
        """A selection of rows."""
        rng = self.rng
        op = op or rng.choice(["loc", "slice"])
        ix = self.ixs.get(a, self.ix)
        u = ix["u"]
        short = rank(ix["f"]) <= 2
        cand = sorted(set(([u[i] for i in range(0, len(u), 24 if rank(ix["f"]) == 2 else 96)] if short and rng.random() < 0.8 else u) + [right_of(ix)]))
        lo, hi = sorted([rng.choice(cand), rng.choice(cand)])
        if rng.random() < 0.15:
            lo -= rng.choice([1, 900, 3600, 5 * 86400])
        if rng.random() < 0.15:
            hi += rng.choice([1, 900, 3600, 5 * 86400])
        if op == "loc" and rng.random() < 0.7:
            hi -= rng.choice([0, 900 if rank(ix["f"]) == 1 else 3600])
        kw = {"lo": [lo] if rng.random() < 0.8 else [], "hi": [hi] if rng.random() < 0.8 else [], "how": "slice" if op == "loc" else "ts", "step": step, "holes": []}
        if op == "loc":
            kw["how"] = rng.choice(["slice", "slice", "mask", "index"])
            if kw["how"] != "slice" and rng.random() < 0.3:
                kw["holes"] = [rng.choice(u)]
            if kw["how"] == "slice" and step == 1 and rng.random() < 0.08:
                kw["step"] = 2
        return self.un(op, a, **kw)

    def strsel(self, a, op):
        """Selection with a date string, as documented ("2024", "2024-01")."""
        return None

    def asfreq(self, a, fs=None):
        rng = self.rng
        src = self.ixs.get(a, self.ix)["f"]
        fs = fs or [f for f in ["h", "D", "MS", "QS", "YS", "QS-FEB", "YS-APR"] if self.cheap(src, f, len(self.ixs.get(a, self.ix)["u"]))]
        return self.un("asfreq", a, f=rng.choice(fs))

    @staticmethod
    def cheap(f, g, n):
        """Does resampling n periods of f to g keep the number of rows small?"""
        size = {1: 1 / 96, 2: 1 / 24, 3: 1, 4: 30, 5: 91, 6: 365}
        return n * size[rank(f)] / size[rank(g)] <= 400

    def reindex(self, a, ix=None):
        x = self.un("reindex", a, ix=ix or (self.shifted() if self.rng.random() < 0.9 else self.foreign()))
        return x

    def concat(self, names):
        out = self.name()
        self.act("concat", **{"as": names}, out=out)
        return out

    def setchild(self, a, n, b):
        return self.un("setchild", a, n=n, b=reg(b) if isinstance(b, str) else b)

    def readall(self, a, names=()):
        self.act("names", a=a, ask=[*NAMES[:3], *names])
        self.act("bool", a=a)

    def table(self, a):
        rng = self.rng
        cols = rng.choice([["w", "q", "p", "r"], ["w"], ["q", "r"], ["p"], ["r", "w"], ["w", "p"], ["q", "p", "r"]])
        given = rng.random() < 0.6
        self.act("table", a=a, cols=cols if given else ["w", "q", "p", "r"], given=given, units=rng.random() < 0.5, levels=rng.choice([-1, -1, 0, 1, 2]),
                 colform=rng.choice(["list", "str", "gen"]), explicit=rng.random() < 0.5)

    def random_op(self, pool):
        """One random call on lines of the pool; returns the name of the result (or None)."""
        rng = self.rng
        a = rng.choice(pool)
        o = rng.choice(["add", "add", "sub", "scale", "scale", "neg", "mul", "div", "unite", "sel", "sel", "asfreq", "reindex", "flatten", "part", "child",
                        "setchild", "dropchild", "nest", "rdiv", "rsub", "split"])
        b = rng.choice(pool)
        if o in ("add", "sub", "mul", "div", "unite", "rdiv", "rsub"):
            same = [x for x in pool if self.kind.get(x) == self.kind.get(a)]
            if o in ("add", "sub", "rsub") and same and rng.random() < 0.9:
                b = rng.choice(same)
            return self.bin("rsub" if o == "rsub" else o, a, b)
        if o == "scale":
            return self.bin(rng.choice(["mul", "mul", "div"]), a, self.scalar(allow0=False) if rng.random() < 0.6 else self.factors(zero=False), rev=False)
        if o == "neg":
            return self.un("neg", a)
        if o in ("sel", "split"):
            return self.sel(a)
        if o == "asfreq":
            return self.asfreq(a)
        if o == "reindex":
            return self.reindex(a)
        if o == "flatten":
            r = self.un("flatten", a)
            self.nest.discard(r)
            return r
        if o == "part":
            k = rng.choice(["vol", "pri", "rev"])
            r = self.un("part", a, k=k)
            self.kind[r] = k
            if k == "pri" and self.kind.get(a) == "all":
                self.nest.discard(r)
            return r
        if o == "child":
            r = self.un("child", a, n=rng.choice(NAMES), how=rng.choice(["item", "attr"]))
            return r
        nn = [x for x in pool if x in self.nest]
        if o == "setchild" and nn:
            a = rng.choice(nn)
            same = [x for x in pool if self.kind.get(x) == self.kind.get(a)]
            return self.setchild(a, rng.choice(NAMES), rng.choice(same))
        if o == "dropchild" and nn:
            return self.un("dropchild", rng.choice(nn), n=rng.choice(NAMES))
        if o == "nest":
            same = [x for x in pool if self.kind.get(x) == self.kind.get(a)]
            out = self.name()
            self.act("nest", ch={nm: reg(rng.choice(same)) for nm in rng.sample(NAMES, 2)}, bad=False, out=out)
            self.kind[out] = self.kind.get(a)
            self.nest.add(out)
            self.ixs[out] = self.ixs.get(a, self.ix)
            return out
        return None


def history(ctx, n_ops, **kw):
    g = G(ctx, **kw)
    rng = g.rng
    pool = [g.line() for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.5:
        pool.append(g.line(g.kind[pool[0]], g.shifted("over")))
    for _ in range(n_ops):
        r = g.random_op(pool)
        if r:
            pool.append(r)
    return g, pool


@gen("C01")
def identities(ctx):
    for _ in range(ctx.n(640)):
        g, _ = history(ctx, ctx.rng.randint(2, 7), nan=0.0)
        yield g.s


@gen("C04")
def immutable(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(480)):
        g, pool = history(ctx, rng.randint(2, 6))
        for _ in range(rng.randint(1, 3)):
            a = rng.choice(pool)
            c = rng.choice(["set", "read", "table", "eq", "poke"])
            if c == "set":
                g.act("setattr", a=a, n=rng.choice(["df", "children", "index", "w", "kind", "foo"]), how=rng.choice(["set", "set", "del"]), same=rng.random() < 0.3)
            elif c == "read":
                g.act("bool", a=a)
            elif c == "table":
                g.table(a)
            elif c == "eq":
                g.act("eq", a=a, b=reg(rng.choice(pool)))
        yield g.s


BADUN = ["degC", "h", "tCO2", "MW/Eur", "dimensionless"]


@gen("C02")
def creation(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(2400)):
        g = G(ctx, freqs={"h": 1, "D": 8, "MS": 6, "QS-JAN": 3, "YS-JAN": 2, "QS-FEB": 1, "YS-APR": 1}, maxn=5)
        for _ in range(rng.randint(1, 4)):
            c = rng.random()
            dims = rng.sample("wqpr", rng.choice([1, 1, 2, 2, 2, 3, 4]))
            named = rng.random() < 0.75
            ixs = [g.ix, g.ix, g.ix, g.shifted("over"), g.shifted()]
            if c < 0.06:
                ixs.append(g.foreign())
            items = []
            for d in dims:
                sc = rng.random() < 0.2
                un = None if named else rng.choice([u for u in UN[d] if u != "none"])
                items.append(g.item(d, rng.choice(ixs), un, sc, named))
            if len(dims) > 1 and rng.random() < 0.55:
                items = consistent(g, dims, named, rng.random() < 0.35)
            if c < 0.03:
                i = rng.choice(items)
                i["un"] = rng.choice(BADUN + [u for d in UN for u in UN[d] if u != "none" and d != i["d"]])
            elif c < 0.05:
                items = [g.item("w", un="none", named=False)]
            elif c < 0.07:
                i = dict(items[0])
                items = items + [i]
                if named:
                    for i in items:
                        i["d"] = "?"
                        if i["un"] == "none":
                            i["un"] = "MW"
            elif c < 0.09:
                items = [dict(i, sc=True, v=i["v"][:1]) for i in items]
                for i in items:
                    i.pop("ix", None)
            names = [i["d"] for i in items]
            form = g.form(items)
            if "?" not in names and len(set(names)) < len(names):
                continue
            a = g.act("new", items=items, form=form, out=g.name())
            if rng.random() < 0.3:
                a["cls"] = "flat"
        if rng.random() < 0.1:
            u = list(g.ix["u"])
            off = rng.choice([1, 60, 900, 1800])
            bad = {"f": g.f, "tz": g.tz, "u": [x + off for x in u]} if g.tz in ("none", "UTC") else None
            if bad and rank(g.f) == 3:
                g.act("new", items=[g.item("w", bad)], form="dict", out=g.name())
        yield g.s


def consistent(g, dims, named, spoil):
    """Items whose values satisfy q = w * hours and r = p * q, possibly in other units, possibly spoiled in one place."""
    from fractions import Fraction as F
    rng = g.rng
    ix = g.ix
    u = ix["u"] + [right_of(ix)]
    n = len(ix["u"])
    h = [F(u[i + 1] - u[i], 3600) for i in range(n)]
    w = [F(*g.num("w")) for _ in range(n)]
    p = [F(*g.num("p")) for _ in range(n)]
    v = {"w": w, "q": [a * b for a, b in zip(w, h)], "p": p}
    v["r"] = [a * b for a, b in zip(v["q"], p)]
    fac = {"kW": 1000, "GW": F(1, 1000), "kWh": 1000, "GWh": F(1, 1000), "ct/kWh": F(1, 10), "Eur/kWh": F(1, 1000), "kEur": F(1, 1000), "ct": 100}
    k = rng.randrange(n) if spoil else None
    bad = rng.choice(dims)
    items = []
    for d in dims:
        un = rng.choice(UN[d] if named else [x for x in UN[d] if x != "none"])
        if un in ("ct", "kW", "kWh") and rank(g.f) > 4:
            un = "none" if named else {"ct": "Eur", "kW": "MW", "kWh": "MWh"}[un]
        x = list(v[d])
        if spoil and d == bad:
            x[k] += rng.choice([1, -1, F(1, 2), x[k] or 1])
        x = [a * fac.get(un, 1) for a in x]
        items.append({"d": d if named else "?", "un": un, "sc": False, "ix": ix, "v": [[a.numerator, a.denominator] for a in x]})
    return items


@gen("C03")
def nesting(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1000)):
        g = G(ctx, maxn=6)
        c = rng.random()
        if c < 0.55:
            a = g.nested(depth=rng.choice([1, 1, 2, 3]), ragged=rng.random() < 0.6)
            g.act("names", a=a, ask=NAMES)
            for n in rng.sample(NAMES, 2):
                g.un("child", a, n=n, how=rng.choice(["item", "attr"]))
        elif c < 0.75:                                   # children given as data
            kind = rng.choice(list(KINDS))
            ch = {}
            for nm in rng.sample(NAMES, rng.randint(1, 3)):
                items = [g.item(d, g.shifted() if rng.random() < 0.3 else g.ix) for d in rng.choice(KINDS[kind])]
                ch[nm] = {"t": "items", "items": items, "form": g.form(items, True)} if rng.random() < 0.6 else reg(g.flat(kind))
            same = all(b["t"] == "items" and b["form"] == "frame" for b in ch.values())
            g.act("nest", ch=ch, bad=False, out="n", **({"form": "frame", "cls": "nested"} if same and rng.random() < 0.7 and len({str(b["items"][0]["ix"]) for b in ch.values()}) == 1 else {"cls": rng.choice(["PfLine", "PfLine", "nested"])}))
            g.act("names", a="n", ask=NAMES)
        elif c < 0.9:                                    # refused: kinds, indices, names
            kind = rng.choice(list(KINDS))
            how = rng.choice(["kind", "foreign", "gone", "name", "key", "empty"])
            a = reg(g.flat(kind))
            b = reg(g.flat(rng.choice([k for k in KINDS if k != kind]) if how == "kind" else kind,
                           g.foreign() if how == "foreign" else g.shifted("gone") if how == "gone" else None))
            names = rng.sample(NAMES, 2)
            if how == "name":
                names[rng.randrange(2)] = rng.choice("wqpr")
            ch = {names[0]: a, names[1]: b} if how != "empty" else {}
            g.act("nest", ch=ch, bad=how == "key", **({"badkey": [rng.randint(0, 5)]} if how == "key" else {}), out="n", cls=rng.choice(["PfLine", "nested"]))
        else:
            g2, pool = history(ctx, rng.randint(2, 5), maxn=4)
            g = g2
            out = g.name()
            g.act("nest", ch={nm: reg(rng.choice(pool)) for nm in rng.sample(NAMES, 2)}, bad=False, out=out)
        yield g.s


@gen("C05")
def addition(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(640)):
        g = G(ctx, maxn=6)
        kind = rng.choice(["vol", "pri", "rev", "all", "all"])
        shared = rng.sample(NAMES, 2)
        mk = lambda ix: g.flat(kind, ix) if rng.random() < 0.45 else g.nested(kind, ix, names=(shared if rng.random() < 0.5 else rng.sample(NAMES, rng.randint(1, 3))))  # noqa: E731
        a = mk(g.ix)
        b = mk(g.ix if rng.random() < 0.5 else g.shifted("over"))
        if rng.random() < 0.3:
            c = g.un("child", a, n=shared[0], how="item")
        s = g.bin("add", a, b)
        d = g.bin("sub", a, b)
        nb = g.un("neg", b)
        e = g.bin("add", a, nb)
        g.act("eq", a=d, b=reg(e))
        if rng.random() < 0.5:
            t = g.bin("add", b, a)
        if rng.random() < 0.5:
            c = mk(g.ix if rng.random() < 0.7 else g.shifted("over"))
            x = g.bin(rng.choice(["add", "sub"]), s, c)
            y = g.bin("add", b, c)
            g.bin("add", a, y)
        z = rng.random()
        if z < 0.25:
            o = rng.choice(["add", "sub", "rsub"])
            g.bin(o, a, {"t": "items", "items": [{"d": "?", "un": rng.choice(["none", "dimensionless"]) if o != "rsub" else "none", "sc": True, "v": [[0, 1]]}], "form": rng.choice(["single", "single+int"])})
        elif z < 0.35:
            g.bin(rng.choice(["add", "sub", "rsub"]), a, {"t": "none"})
        elif z < 0.42:
            g.bin("add", a, {"t": "items", "items": [{"d": "?", "un": "none", "sc": True, "v": [[0, 1]]}], "form": "single+int"}, rev=True)
        elif z < 0.8:                                    # values with a unit, dictionaries, timeseries
            dims = rng.choice(KINDS[kind])
            sc = rng.random() < 0.5
            items = [g.item(d2, g.ix if rng.random() < 0.6 else g.shifted("over"), None, sc) for d2 in dims]
            if len(items) == 1 and rng.random() < 0.5:
                items[0]["d"] = "?"
                if items[0]["un"] == "none":
                    items[0]["un"] = {"w": "MW", "q": "MWh", "p": "Eur/MWh", "r": "Eur"}[dims[0]]
                form = "single"
            else:
                form = "dict"
            rev = not (items[0]["sc"] is False and form == "single") and rng.random() < 0.3
            o = rng.choice(["add", "add", "sub", "rsub"])
            if o == "rsub" and form == "single" or rev and form == "single":
                rev, o = False, "add"       # the other operand's own operator would be called
            g.bin(o, a, {"t": "items", "items": items, "form": form}, rev=rev and o == "add")
        elif z < 0.9:
            g.bin("rsub", a, b)
        yield g.s


@gen("C05")
def commonprice(ctx):
    """Sums whose energy is zero: the price is the common price of the summands that have energy."""
    rng = ctx.rng
    for _ in range(ctx.n(64)):
        g = G(ctx, maxn=6)
        n = len(g.ix["u"])
        pick = lambda v: [[rng.choice(v), 1] for _ in range(n)]  # noqa: E731
        wa, pa = pick([0, 0, 1, 5, 5, -7]), pick([3, 8, -2])
        wb = [[rng.choice([-x[0], -x[0], x[0], 0, 4]), 1] for x in wa]
        pb = [[rng.choice([x[0], x[0], 11]), 1] for x in pa]
        ns = []
        for w, p in ((wa, pa), (wb, pb), ([[-x[0], 1] for x in wb], pb)):
            x = g.name()
            g.act("new", items=[{"d": "w", "un": rng.choice(["MW", "none"]), "sc": False, "ix": g.ix, "v": w},
                                {"d": "p", "un": "Eur/MWh", "sc": False, "ix": g.ix, "v": p}], form="dict", out=x)
            g.kind[x], g.ixs[x] = "all", g.ix
            ns.append(x)
        for o, a, b in (("add", 0, 1), ("add", 1, 0), ("sub", 0, 2), ("sub", 0, 0), ("rsub", 2, 0)):
            g.bin(o, ns[a], ns[b])
            g.s[-1]["exact"] = True
        yield g.s


@gen("C06")
def scaling(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1100)):
        g = G(ctx, maxn=6)
        c = rng.random()
        if c < 0.5:
            a = g.line()
            for _ in range(rng.randint(1, 2)):
                x = rng.random()
                if x < 0.5:
                    b = g.scalar(un=rng.choice(["none", "none", "dimensionless"]))
                else:
                    b = g.factors(g.ix if rng.random() < 0.6 else g.shifted("over"))
                if rng.random() < 0.6:
                    a2 = g.bin("mul", a, b, rev=x < 0.5 and b["items"][0]["un"] == "none" and rng.random() < 0.3)
                else:
                    if x < 0.5 and b["items"][0]["v"][0][0] == 0:
                        b["items"][0]["v"][0][0] = 3
                    a2 = g.bin("div", a, b)
                if rng.random() < 0.6:
                    g.kind[a2] = g.kind[a]
                    a = a2
            if rng.random() < 0.3:
                g.un("neg", a)
        else:
            ks = rng.choice([("vol", "pri"), ("pri", "vol"), ("rev", "pri"), ("rev", "vol"), ("vol", "vol"), ("pri", "pri"), ("rev", "rev"), ("vol", "rev"), ("pri", "rev"), ("rev", "pri")])
            a = g.line(ks[0])
            b = g.line(ks[1], g.ix if rng.random() < 0.5 else g.shifted("over"))
            for o in rng.sample(["mul", "div", "unite", "rdiv"], 3):
                if set(ks) == {"vol", "pri"} and o == "mul" or ks[0] == "rev" and o == "div" or ks[0] == ks[1] and o == "div" or ks[0] != ks[1] and o == "unite" or rng.random() < 0.4:
                    g.bin(o, a, b)
            if rng.random() < 0.4:                       # data instead of a line
                d = {"vol": rng.choice("wq"), "pri": "p", "rev": "r"}[ks[1]]
                it = g.item(d, None, None, rng.random() < 0.5)
                g.bin(rng.choice(["mul", "div", "unite", "rdiv"]) if ks[0] != "vol" else rng.choice(["mul", "unite", "div"]), a, {"t": "items", "items": [it], "form": "dict"})
            if rng.random() < 0.3:                       # all there is in a complete line, taken apart and united
                x = g.line("all")
                k1, k2 = rng.sample(["vol", "pri", "rev"], 2)
                p1, p2 = g.un("part", x, k=k1), g.un("part", x, k=k2)
                g.bin("unite", p1, p2)
        yield g.s


@gen("C07")
def refused(ctx):
    rng = ctx.rng
    allk = ["vol", "pri", "rev", "all"]
    for o in ("add", "sub", "mul", "div", "unite", "rdiv", "rsub"):
        for k1 in allk:
            for k2 in allk:
                for shape in ("ff", "fn", "nf", "nn"):
                    for _ in range(1 if not ctx.thorough else 4):
                        if not ctx.mine():
                            continue
                        g = G(ctx, freqs={"D": 3, "MS": 3, "QS-JAN": 1, "h": 1}, maxn=3)
                        a = (g.flat if shape[0] == "f" else g.nested)(k1)
                        b = (g.flat if shape[1] == "f" else g.nested)(k2, g.shifted("over") if rng.random() < 0.3 else None)
                        g.bin(o, a, b)
                        yield g.s
    for _ in range(ctx.n(1100)):
        g = G(ctx, maxn=4)
        kind = rng.choice(allk)
        a = g.line(kind)
        c = rng.random()
        if c < 0.45:                                     # other frequency, zone or start-of-day
            o = rng.choice(["add", "sub", "mul", "div", "unite"])
            k2 = {"add": kind, "sub": kind, "mul": {"vol": "pri", "pri": "vol"}.get(kind, "pri"), "div": kind if kind != "all" else "vol", "unite": rng.choice(["vol", "pri", "rev"])}[o]
            for _ in range(2):
                ix = g.foreign()
                if rng.random() < 0.25:
                    ix = g.shifted("gone")
                if rng.random() < 0.3:
                    d = {"vol": ["w"], "pri": ["p"], "rev": ["r"], "all": ["q", "p"]}[k2]
                    g.bin(o, a, {"t": "items", "items": [g.item(x, ix) for x in d], "form": "dict"})
                else:
                    g.bin(o, a, g.line(k2, ix) if k2 != "all" or o in ("add", "sub") else g.line("vol", ix))
                if rng.random() < 0.2:
                    g.bin(rng.choice(["mul", "div"]), a, g.factors(ix))
        elif c < 0.75:                                   # numbers, units
            for _ in range(3):
                un = rng.choice(["none", "none", "dimensionless", "MW", "MWh", "Eur/MWh", "Eur", "degC", "h", "tCO2", "MW/Eur"])
                o = rng.choice(["add", "sub", "mul", "div", "unite"])
                b = g.scalar(un=un) if rng.random() < 0.6 else g.factors(un=un)
                if o == "div" or un not in ("none", "dimensionless"):
                    for v in b["items"][0]["v"]:
                        v[0] = v[0] or 2
                g.bin(o, a, b)
        elif c < 0.9:                                    # more than one quantity, ambiguous combinations
            dims = rng.sample("wqpr", 2)
            items = [g.item(d, None, None, rng.random() < 0.4) for d in dims]
            if rng.random() < 0.3:
                items[0] = {"d": "?", "un": rng.choice(["none", "dimensionless"]), "sc": True, "v": [[2, 1]]}
                items[1]["d"], items[1]["un"] = "?", {"w": "MW", "q": "MWh", "p": "Eur/MWh", "r": "Eur"}[dims[1]]
                form = "list"
            else:
                form = "dict"
            g.bin(rng.choice(["add", "sub", "mul", "div", "unite"]), a, {"t": "items", "items": items, "form": form})
        else:
            g.bin(rng.choice(["mul", "div", "add", "sub", "unite"]), a, {"t": "none"})
        yield g.s


@gen("C08")
def flattening(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(520)):
        g = G(ctx, maxn=6)
        kind = rng.choice(["vol", "pri", "rev", "all", "all"])
        names = rng.sample(NAMES, rng.randint(1, 3))
        a = g.nested(kind, names=names, depth=rng.choice([1, 2]))
        fa = g.un("flatten", a)
        g.act("eq", a=a, b=reg(fa))
        for o in rng.sample(["scale", "add", "sub", "slice", "loc", "reindex", "asfreq", "concat", "part", "neg"], 3):
            pair = []
            if o in ("add", "sub"):
                b = g.nested(kind, g.ix if rng.random() < 0.5 else g.shifted("over"), names=names)
                pair = [g.bin(o, a, b), g.bin(o, fa, g.un("flatten", b))]
            elif o == "scale":
                x = g.scalar(allow0=False) if rng.random() < 0.5 else g.factors(g.shifted("over") if rng.random() < 0.3 else g.ix)
                pair = [g.bin("mul", y, x) for y in (a, fa)]
            elif o in ("slice", "loc"):
                r = g.sel(a, o)
                last = g.s[-1]
                q = g.name()
                g.s.append({**last, "a": fa, "out": q})
                pair = [r, q]
            elif o == "reindex":
                ix = g.shifted()
                pair = [g.un("reindex", y, ix=ix) for y in (a, fa)]
            elif o == "asfreq":
                r = g.asfreq(a)
                q = g.name()
                g.s.append({**g.s[-1], "a": fa, "out": q})
                pair = [r, q]
            elif o == "neg":
                pair = [g.un("neg", a), g.un("neg", fa)]
            elif o == "part":
                k = rng.choice(["vol", "rev", "pri"])
                pair = [g.un("part", a, k=k), g.un("part", fa, k=k)]
            else:
                cut = rng.choice(g.ix["u"])
                for y in (a, fa):
                    kw = {"how": "ts", "step": 1, "holes": []}
                    x1 = g.un("slice", y, lo=[], hi=[cut], **kw)
                    x2 = g.un("slice", y, lo=[cut], hi=[], **kw)
                    pair.append(g.concat([x2, x1]))
            f1 = g.un("flatten", pair[0])
            g.act("eq", a=f1, b=reg(pair[1]))
        yield g.s


@gen("C09")
def children(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(640)):
        g = G(ctx, maxn=6)
        kind = rng.choice(["vol", "pri", "rev", "all", "all"])
        names = rng.sample(NAMES, rng.randint(1, 4))
        a = g.nested(kind, names=names, depth=rng.choice([1, 1, 2])) if rng.random() < 0.95 else g.flat(kind)
        known = list(names)
        for _ in range(rng.randint(2, 5)):
            o = rng.choice(["set", "set", "set", "drop", "drop", "read", "child", "bad"])
            if o == "set":
                n = rng.choice(NAMES) if rng.random() < 0.5 else rng.choice(known or NAMES)
                ix = g.ix if rng.random() < 0.5 else g.shifted()
                if rng.random() < 0.3:
                    items = [g.item(d, ix) for d in rng.choice(KINDS[kind])]
                    b = {"t": "items", "items": items, "form": g.form(items, True)}
                else:
                    b = g.line(kind, ix)
                a2 = g.setchild(a, n, b)
                known.append(n)
            elif o == "drop":
                n = rng.choice(known) if known and rng.random() < 0.7 else rng.choice(NAMES)
                a2 = g.un("dropchild", a, n=n)
            elif o == "bad":
                how = rng.choice(["kind", "foreign", "name", "gone", "none"])
                if how == "kind":
                    b = g.line(rng.choice([k for k in KINDS if k != kind]))
                elif how == "foreign":
                    b = g.line(kind, g.foreign())
                elif how == "gone":
                    b = g.line(kind, g.shifted("gone"))
                else:
                    b = {"t": "none"} if how == "none" else g.line(kind)
                g.setchild(a, rng.choice("wqpr") if how == "name" else rng.choice(NAMES), b)
                continue
            elif o == "child":
                g.un("child", a, n=rng.choice(known or NAMES) if rng.random() < 0.7 else rng.choice([*NAMES, "w", "zz"]), how="item")
                continue
            else:
                g.act("names", a=a, ask=[*NAMES, "w"])
                continue
            if rng.random() < 0.3:
                g.act("names", a=a, ask=NAMES)
            a = a2
        g.act("names", a=a, ask=NAMES)
        yield g.s


@gen("C10")
def selecting(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(900)):
        g = G(ctx)
        a = g.line()
        for _ in range(rng.randint(1, 3)):
            o = rng.choice(["loc", "slice"])
            if rng.random() < 0.25:
                strsel(g, a, o)
            else:
                g.sel(a, o)
        if rng.random() < 0.5:
            u = g.ix["u"]
            cut = rng.choice(u)
            if rng.random() < 0.2:
                cut += rng.choice([1, 1800])
            kw = {"how": "ts", "step": 1, "holes": []}
            x1 = g.un("slice", a, lo=[], hi=[cut], **kw)
            x2 = g.un("slice", a, lo=[cut], hi=[], **kw)
            x3 = g.concat(rng.choice([[x1, x2], [x2, x1]]))
            g.act("eq", a=a, b=reg(x3))
        yield g.s


def strsel(g, a, o):
    """Select with date strings: a day, a month or a year, in local time."""
    rng = g.rng
    tz = g.tz

    def edge(u):
        t = pd.Timestamp((u + 946684800) * 10**9)
        if tz != "none":
            t = t.tz_localize("UTC").tz_convert(tz)
        fmt = rng.choice(["%Y-%m-%d", "%Y-%m", "%Y"])
        s = t.strftime(fmt)
        d0 = pd.Timestamp(s)
        d1 = d0 + {"%Y-%m-%d": pd.DateOffset(days=1), "%Y-%m": pd.DateOffset(months=1), "%Y": pd.DateOffset(years=1)}[fmt]
        return s, u_of(local(d0, 0, tz)), u_of(local(d1, 0, tz)) - 1
    u = g.ix["u"]
    e = sorted([edge(rng.choice(u)), edge(rng.choice(u))], key=lambda x: x[1])
    lo, hi = e
    out = {}
    how = rng.choice(["both", "lo", "hi"])
    slo = lo[0] if how != "hi" else ""
    shi = hi[0] if how != "lo" else ""
    # in an interval slice the end string is a timestamp (start of the named day, month or year), excluded
    end = (hi[2] if o == "loc" else u_of(local(pd.Timestamp(hi[0]), 0, tz)))
    return g.un(o, a, lo=[lo[1]] if slo else [], hi=[end] if shi else [], slo=slo, shi=shi, how="str", step=1, holes=[])


@gen("C11")
def reindexing(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1100)):
        g = G(ctx, maxn=8)
        a = g.line()
        c = rng.random()
        ix = g.shifted()
        if c < 0.12:
            ix = g.foreign()
        elif c < 0.2 and rank(g.f) <= 2:                 # not whole days
            ix = dict(ix, u=ix["u"][:rng.randint(1, len(ix["u"]) - 1)])
        elif c < 0.25:
            ix = dict(ix, u=[])
        elif c < 0.3 and rank(g.f) == 3 and g.tz in ("none", "UTC", "Asia/Tokyo"):
            ix = dict(ix, u=[x + 1800 for x in ix["u"]])
        x = g.un("reindex", a, ix=ix)
        if c > 0.4:
            y = g.un("reindex", x, ix=rng.choice([g.ix, g.ix, g.shifted()]))
            g.act("bool", a=y)
            if rng.random() < 0.4:
                g.bin("add", y, a)
        yield g.s


@gen("C12")
def concatenating(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(700)):
        g = G(ctx)
        a = g.line()
        u = g.ix["u"]
        per = 96 if rank(g.f) == 1 else 24 if rank(g.f) == 2 else 1
        days = u if per == 1 else [x for x in u if (x - u[0]) % 86400 in (0, 3600, 82800)]
        kw = {"how": "ts", "step": 1, "holes": []}
        cuts = sorted(set(rng.choice(u) if rng.random() < 0.1 else rng.choice(days) for _ in range(rng.randint(1, 3))) - {u[0]})
        edges = [u[0], *cuts, right_of(g.ix)]
        parts = [g.un("slice", a, lo=[edges[i]], hi=[edges[i + 1]], **kw) for i in range(len(edges) - 1)]
        c = rng.random()
        if c < 0.2 and len(parts) > 2:
            parts.pop(rng.randrange(len(parts)))         # leaves a gap
        elif c < 0.3:
            parts.append(rng.choice([*parts, a]))        # overlaps
        elif c < 0.6:
            other = g.shifted(rng.choice(["adj", "adj", "over", "gone"])) if rng.random() < 0.7 else g.foreign()
            kind = g.kind[a] if rng.random() < 0.8 else rng.choice(list(KINDS))
            names = [nm for nm in g.s[-len(parts) - 1].get("ch", {})] if a in g.nest else []
            same = names and rng.random() < 0.8
            parts.append((g.nested(kind, other, depth=1, names=names) if same else g.flat(kind, other) if a not in g.nest else g.nested(kind, other)))
        names = [n for y in g.s if y.get("out") == a for n in y.get("ch", {})]
        if names and rng.random() < 0.2:                 # one part with another set of children
            j = rng.randrange(len(parts))
            if len(names) > 1 and rng.random() < 0.4:
                parts[j] = g.un("dropchild", parts[j], n=rng.choice(names))
            else:
                parts[j] = g.setchild(parts[j], "another", g.un("child", parts[j], n=rng.choice(names)))
        rng.shuffle(parts)
        x = g.concat(parts)
        if rng.random() < 0.5:
            p2 = list(parts)
            rng.shuffle(p2)
            y = g.concat(p2)
            g.act("eq", a=x, b=reg(y))
        g.act("eq", a=x, b=reg(a))
        yield g.s


@gen("C12")
def childsets(ctx):
    """Three or four adjacent nested parts, of which one has another set of children."""
    rng = ctx.rng
    for _ in range(ctx.n(120)):
        g = G(ctx, freqs={"D": 4, "MS": 3, "QS-JAN": 1, "YS-JAN": 1})
        g.ix = ix = g.mk_ix(n=rng.randint(3, 5))
        u, names = ix["u"], rng.sample(NAMES, rng.randint(1, 3))
        a = g.nested(ix=ix, names=names)
        cuts = sorted(rng.sample(u[1:], rng.randint(2, min(3, len(u) - 1))))
        edges = [u[0], *cuts, right_of(ix)]
        parts = [g.un("slice", a, lo=[edges[i]], hi=[edges[i + 1]], how="ts", step=1, holes=[]) for i in range(len(edges) - 1)]
        j = rng.randrange(len(parts))
        if len(names) > 1 and rng.random() < 0.4:
            parts[j] = g.un("dropchild", parts[j], n=rng.choice(names))
        else:
            parts[j] = g.setchild(parts[j], "another", g.un("child", parts[j], n=rng.choice(names)))
        if rng.random() < 0.5:
            rng.shuffle(parts)
        g.concat(parts)
        yield g.s


RES = {"15min": 2, "h": 5, "D": 6, "MS": 6, "QS-JAN": 4, "YS-JAN": 2}


def resampling(ctx, n):
    rng = ctx.rng
    for _ in range(n):
        g = G(ctx, freqs=RES, zero=0.1)
        r = rank(g.f)
        n = {1: [1, 2], 2: [1, 2, 3], 3: [1, 2, 27, 30, 31, 32, 59, 62, 90, 93, 120], 4: [1, 2, 3, 4, 5, 6, 11, 12, 13, 15], 5: [1, 2, 3, 4, 5, 9], 6: [1, 2]}[r]
        g.ix = g.mk_ix(n=rng.choice(n))
        a = g.flat() if rng.random() < 0.6 else g.nested(names=rng.sample(NAMES, 2) if rng.random() < 0.7 else None, depth=1)
        fs = [f for f in ["15min", "h", "D", "MS", "QS", "YS", "QS-MAR", "YS-OCT"] if g.cheap(g.f, f, len(g.ix["u"]))]
        down = [f for f in fs if rank(f) > r]
        b = g.asfreq(a, down if down and rng.random() < 0.6 else fs)
        if rng.random() < 0.1:
            g.s[-1]["default"] = g.s[-1]["f"] == "MS"
        f1 = g.s[-1]["f"]
        if rank(f1) <= r:
            c = g.un("asfreq", b, f={"QS-JAN": "QS", "YS-JAN": "YS"}.get(g.f, g.f))
            g.act("eq", a=c, b=reg(a))
        elif rng.random() < 0.4:
            up = [f for f in ["D", "MS", "QS", "YS", "QS-FEB", "YS-APR"] if g.cheap(f1, f, 2)]
            g.un("asfreq", b, f=rng.choice(up))
        yield g.s


@gen("C13")
def conserve(ctx):
    rng = ctx.rng
    yield from resampling(ctx, ctx.n(700))
    for _ in range(ctx.n(80)):                           # unknown prices stay unknown
        g = G(ctx, freqs=RES)
        g.ix = ix = g.mk_ix(n=rng.randint(2, 5) if rank(g.f) < 6 else 2)
        fs = [f for f in ["15min", "h", "D"] if rank(f) < rank(g.f) and g.cheap(g.f, f, len(ix["u"]))]
        if not fs:
            continue
        v = g.vals("p", len(ix["u"]))
        v[rng.randrange(len(v))] = [0, 0]
        a = g.name()
        g.act("new", items=[{"d": "p", "un": "none", "sc": False, "ix": ix, "v": v}], form="dict", out=a)
        g.asfreq(a, fs)
        yield g.s


@gen("C14")
def fullperiods(ctx):
    rng = ctx.rng
    yield from resampling(ctx, ctx.n(400))
    for _ in range(ctx.n(400)):                          # long daily and hourly spans, constant values
        g = G(ctx, freqs={"D": 6, "h": 2, "MS": 4, "QS-JAN": 2, "15min": 1})
        r = rank(g.f)
        n = {1: rng.choice([1, 2, 3]), 2: rng.choice([2, 5, 28, 29, 31, 32]), 3: rng.choice([30, 31, 60, 92, 100, 181, 365, 366, 367]), 4: rng.choice([3, 4, 5, 6, 12, 14, 23, 24, 25]), 5: rng.choice([4, 5, 7, 8])}[r]
        ix = g.ix = g.mk_ix(n=n)
        d = rng.choice("wpr")
        a = g.name()
        g.act("new", items=[{"d": d, "un": "none", "sc": False, "ix": ix, "v": [[rng.randint(1, 3), 1]] * len(ix["u"])}], form="dict", out=a)
        fs = [f for f in ["D", "MS", "QS", "YS"] if rank(f) > r]
        for f in rng.sample(fs, min(2, len(fs))):
            g.un("asfreq", a, f=f)
        yield g.s
    for _ in range(ctx.n(160)):                          # frequencies that do not fit
        g = G(ctx, maxn=3)
        a = g.line()
        yield g.s


@gen("C31")
def equality(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(900)):
        g = G(ctx, maxn=5, zero=0.3)
        kind = rng.choice(["vol", "pri", "rev", "all"])
        a = g.line(kind)
        news = [x for x in g.s if x["op"] == "new"]
        c = rng.random()
        if c < 0.45:                                     # the same once more, perhaps with a change in one place
            import copy
            g.k += 100
            pre = {}
            chg = rng.random() < 0.6
            victim = rng.choice(news)["out"]
            for x in [copy.deepcopy(y) for y in g.s]:
                o = x["out"]
                pre[o] = f"y{o}"
                x["out"] = pre[o]
                if x["op"] == "new" and chg and o == victim:
                    it = rng.choice(x["items"])
                    j = rng.randrange(len(it["v"]))
                    d = rng.choice([1, -1, 1])
                    it["v"][j] = [it["v"][j][0] + d * it["v"][j][1], it["v"][j][1]]
                if x["op"] == "nest":
                    x["ch"] = {n: reg(pre[b["n"]]) for n, b in x["ch"].items()}
                    if rng.random() < 0.15:
                        n0 = rng.choice(list(x["ch"]))
                        x["ch"] = {("ZZ" if n == n0 else n): b for n, b in x["ch"].items()}
                    elif rng.random() < 0.3:
                        ks = list(x["ch"])
                        rng.shuffle(ks)
                        x["ch"] = {k: x["ch"][k] for k in ks}
                g.s.append(x)
            b = pre[a]
        elif c < 0.55:
            b = g.line(kind, g.shifted("over"))
        elif c < 0.62:
            b = g.line(rng.choice(list(KINDS)))
        elif c < 0.7 and a in g.nest:                    # one child more, or less, or replaced
            names = list([y for y in g.s if y.get("out") == a][0]["ch"])
            c2 = rng.random()
            if c2 < 0.3 and len(names) > 1:
                b = g.un("dropchild", a, n=rng.choice(names))
            else:
                ch = g.flat(kind, g.ix) if rng.random() < 0.3 else g.un("child", a, n=rng.choice(names))
                b = g.setchild(a, rng.choice([*names, "another", "another"]), ch)
        elif c < 0.8:
            b = g.bin("add", g.bin("sub", a, a), a)
        elif c < 0.9:
            b = g.sel(a)
        else:
            b = g.un("flatten", a)
        g.act("eq", a=a, b=reg(b))
        g.act("eq", a=b, b=reg(a))
        z = g.bin("mul", a, {"t": "items", "items": [{"d": "?", "un": "none", "sc": True, "v": [[0, 1]]}], "form": "single+int"})
        for x in rng.sample([a, b, z], 2):
            g.act("bool", a=x)
        if rng.random() < 0.4:                           # a line with a single non-zero value, in one child
            ix = g.ix
            m = []
            for j in range(rng.randint(1, 3)):
                x = g.name()
                v = [[0, 1]] * len(ix["u"])
                if rng.random() < 0.35:
                    v[rng.randrange(len(v))] = [rng.choice([-1, 1, 7]), 1]
                its = [{"d": d, "un": "none", "sc": False, "ix": ix, "v": v if d in "wqr" else [[rng.randint(0, 3), 1]] * len(v)} for d in KINDS[kind][0]]
                g.act("new", items=its, form="dict", out=x)
                g.act("bool", a=x)
                m.append(x)
            n = g.name()
            g.act("nest", ch={NAMES[j]: reg(x) for j, x in enumerate(m)}, bad=False, out=n)
            g.act("bool", a=n)
        yield g.s


@gen("C32")
def tables(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(700)):
        g = G(ctx, maxn=4)
        a = g.nested(depth=rng.choice([1, 2, 3])) if rng.random() < 0.75 else g.flat()
        for _ in range(2):
            g.table(a)
        if rng.random() < 0.4:
            b = g.random_op([a])
            if b:
                g.table(b)
        yield g.s
