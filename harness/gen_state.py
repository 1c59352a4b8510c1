"""Sessions with portfolio states (C17-C19)."""
from __future__ import annotations

from dom import rank, right_of
from gen_line import G, KINDS, NAMES, reg
from plans import gen, model


def unpack(script):
    """A script of the specification in calls: lines given by their items are created first."""
    out = []
    for i, e in enumerate(script):
        ps = {}
        for k, b in e.get("parts", {}).items():
            if b["t"] == "items":
                n = f"l{i}{k}"
                out.append({"op": "new", "items": b["items"], "form": "dict", "out": n})
                b = reg(n)
            if b["t"] != "none" or k == "x":
                ps[k] = b
        out.append({**e, "parts": ps} if "parts" in e else e)
    last = [e["out"] for e in script][-3:]
    return out + [{"op": "scomp", "a": a, "n": n, "out": f"c{a}{n}"} for a in last for n in COMPS]


COMPS = ["offtake", "offtakevolume", "unsourcedprice", "sourced", "unsourced", "netposition", "pnl_cost", "sourcedfraction", "unsourcedfraction", "mtm"]
for _props, _law in (("C17", "Balance"), ("C18", "Editing"), ("C19", "Arithmetic")):
    model(_props, "MC_States", f"MC_States_{_law}", thorough=f"MC_States_{_law}_thorough")
    model(_props, "MC_States", "MC_States_sim", sim=(80, 1500), depth=10, convert=unpack)
model("C19", "MC_States", "MC_States_Resampling")


class GS(G):
    """Generator for sessions with states; with exact, all recorded numbers are exact."""
    def __init__(self, ctx, exact=False, **kw):
        super().__init__(ctx, **kw)
        self.plain = self.exact = exact
        self.states = []

    def ex(self):
        return {"exact": True} if self.exact else {}

    def zeros(self, kind, ix=None):
        n = self.name()
        ix = ix or self.ix
        z = [[0, 1]] * len(ix["u"])
        self.act("new", items=[{"d": d, "un": "none", "sc": False, "ix": ix, "v": z} for d in ({"vol": "w", "all": "qr"}[kind])], form="dict", out=n)
        self.kind[n], self.ixs[n] = kind, ix
        return n

    def pieces(self, ix=None):
        rng = self.rng
        ix = ix or self.ix
        odd = rng.random
        other = self.shifted() if odd() < 0.2 else ix
        off = self.line("vol", ix) if odd() < 0.85 else self.line("all", ix)
        pu = self.line("pri", other if odd() < 0.7 else ix) if odd() < 0.85 else self.line("all", ix)
        c = odd()
        if c < 0.25:
            src = None
        elif c < 0.35:
            src = self.zeros("all", ix)
        elif c < 0.45:                                    # sourced exactly as much as is taken off
            v = self.un("part", off, k="vol")
            self.kind[v] = "vol"
            src = self.bin("unite", self.un("neg", v), pu if odd() < 0.5 else self.flat("pri", ix))
            self.kind[src], self.ixs[src] = "all", ix
        else:
            src = self.line("all", other if odd() < 0.3 else ix)
        return off, pu, src

    def state(self, ix=None):
        rng = self.rng
        off, pu, src = self.pieces(ix)
        if rng.random() < 0.03:
            off, pu = pu, off
        if rng.random() < 0.03 and src:
            src = self.line("vol", ix)
        n = self.name()
        parts = {"off": reg(off), "pu": reg(pu)}
        if src:
            parts["src"] = reg(src)
        elif rng.random() < 0.3:
            parts["src"] = {"t": "none"}
        self.act("snew", parts=parts, how=rng.choice(["pos", "kw"]), out=n, **self.ex())
        self.ixs[n] = ix or self.ix
        self.states.append(n)
        return n

    def fromseries(self):
        rng = self.rng
        parts = {}
        for k, ds in (("off", rng.choice(["w", "q", "w", "q"])), ("pu", "p"), ("src", rng.choice([*KINDS["all"], ["w"], ["r"], ["p"], []]))):
            its = [self.item(d) for d in ds]
            if its:
                parts[k] = {"t": "items", "items": its, "form": "dict"}
        n = self.name()
        self.act("snew", parts=parts, how="series", out=n)
        self.states.append(n)
        self.ixs[n] = self.ix
        return n

    def comp(self, s, n):
        out = self.name()
        self.act("scomp", a=s, n=n, how=self.rng.choice(["attr", "item"]), out=out)
        return out

    def comps(self, s, k=None):
        for n in (COMPS if k is None else self.rng.sample(COMPS, k)):
            self.comp(s, n)

    def sop(self, op, **kw):
        out = self.name()
        self.act(op, **kw, out=out, **self.ex())
        self.ixs[out] = self.ixs.get(kw.get("a"), self.ix)
        self.states.append(out)
        return out

    def sset(self, s, k=None):
        rng = self.rng
        k = k or rng.choice(["offtakevolume", "unsourcedprice", "sourced", "add"])
        kind = {"offtakevolume": ["vol", "vol", "all"], "unsourcedprice": ["pri", "pri", "all"], "sourced": ["all"], "add": ["all"]}[k]
        kind = rng.choice(kind) if rng.random() < 0.93 else rng.choice(["vol", "pri", "rev", "all"])
        ix = self.ixs.get(s, self.ix)
        c = rng.random()
        x = self.line(kind, ix if c < 0.7 else self.shifted() if c < 0.95 else self.foreign())
        return self.sop("sset", a=s, k=k, parts={"x": reg(x)})

    def operand(self):
        rng = self.rng
        c = rng.random()
        if c < 0.55:
            return self.scalar(allow0=False)
        if c < 0.8:
            return self.factors(self.ix if rng.random() < 0.8 else self.shifted("over"))
        if c < 0.85:
            return {"t": "none"}
        if c < 0.9:
            return self.scalar(un=rng.choice(["MW", "Eur/MWh", "Eur", "degC"]))
        return reg(self.line())

    def sbin(self, o, a, b, rev=False):
        kw = {"o": o, "a": a, "b": reg(b) if isinstance(b, str) else b}
        if rev:
            kw["rev"] = True
        return self.sop("sbin", **kw)

    def ssel(self, s):
        self.sel(s)
        a = self.s[-1]
        if a["op"] in ("loc", "slice"):
            a["op"] = "s" + a["op"]
        self.states.append(a["out"])
        return a["out"]

    def sasfreq(self, s):
        ix = self.ixs.get(s, self.ix)
        fs = [f for f in ["h", "D", "MS", "QS", "YS", "QS-FEB", "YS-APR"] if self.cheap(ix["f"], f, len(ix["u"]))]
        return self.sop("sasfreq", a=s, f=self.rng.choice(fs))

    def stable(self, s):
        rng = self.rng
        given = rng.random() < 0.6
        cols = rng.choice([["w", "q", "p", "r"], ["w"], ["q", "r"], ["p"], ["w", "p"], ["q", "p", "r"]])
        self.act("stable", a=s, cols=cols if given else ["w", "q", "p", "r"], given=given, units=rng.random() < 0.5, colform=rng.choice(["list", "str", "gen"]))

    def random_state_op(self):
        rng = self.rng
        s = rng.choice(self.states[-4:])
        o = rng.choice(["set", "set", "set", "add", "sub", "scale", "scale", "neg", "sel", "asfreq", "concat", "other", "part"])
        if o == "set":
            return self.sset(s)
        if o in ("add", "sub"):
            return self.sbin(o, s, rng.choice(self.states))
        if o == "scale":
            return self.sbin(rng.choice(["mul", "mul", "div"]), s, self.scalar(allow0=False) if rng.random() < 0.6 else self.factors(self.ixs.get(s), zero=False))
        if o == "neg":
            return self.sop("sneg", a=s)
        if o == "sel":
            return self.ssel(s)
        if o == "asfreq":
            return self.sasfreq(s)
        if o == "concat":
            return self.sop("sconcat", **{"as": [s, rng.choice(self.states)]})
        if o == "other":
            b = self.operand()
            return self.sbin(rng.choice(["add", "sub", "mul", "div", "rsub", "mul"]), s, b)
        return self.comp(s, rng.choice(COMPS))


@gen("C17")
def balance(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(170)):
        g = GS(ctx, maxn=4)
        s = g.fromseries() if rng.random() < 0.2 else g.state()
        g.comps(s)
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            n = len(g.states)
            g.random_state_op()
            if len(g.states) > n:
                g.comps(g.states[-1], rng.choice([3, len(COMPS)]))
        yield g.s


@gen("C18")
def edits(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(240)):
        g = GS(ctx, maxn=4)
        s0 = s = g.state()
        for _ in range(rng.choice([1, 2, 2, 3])):
            c = rng.random()
            if c < 0.75:
                s = g.sset(s)
            elif c < 0.85:                                # source all that is unsourced
                s = g.sop("sset", a=s, k="add", parts={"x": reg(g.comp(s, "unsourced"))})
            else:
                s = g.ssel(s)
            for n in rng.sample(["unsourced", "pnl_cost", "mtm", "sourcedfraction"], 3):
                g.comp(s, n)
            g.act("seq", a=s, b=reg(s0))
        yield g.s


@gen("C19")
def state_arithmetic(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(240)):
        g = GS(ctx, exact=rng.random() < 0.5, maxn=4)
        a = g.state()
        c = rng.random()
        b = g.state() if c < 0.6 else g.state(g.shifted()) if c < 0.8 else g.sbin("mul", a, g.scalar()) if c < 0.95 else g.state(g.foreign())
        x = g.sbin(rng.choice(["add", "add", "sub"]), a, b)
        g.comps(x, 2)
        c = rng.random()
        if c < 0.25:
            y = g.sbin(rng.choice(["add", "sub", "mul", "mul", "div", "rsub"]), a, g.operand(), rev=False)
        elif c < 0.3:
            b2 = g.operand()
            if b2["t"] != "none" and all(it["sc"] for it in b2.get("items", [])):      # (a series on the left has its own ideas)
                plain = all(it["un"] == "none" for it in b2.get("items", []))       # (a quantity on the left would wrap the state)
                y = g.sbin(rng.choice(["add", "mul"]) if plain else "add", a, b2, rev=True)
            else:
                y = a
        elif c < 0.55:
            y = g.sasfreq(rng.choice([a, b]))
        elif c < 0.7:
            y = g.sop("sneg", a=a)
        elif c < 0.8:
            y = g.sbin("sub", x, b)
            g.act("seq", a=y, b=reg(a))
        else:
            g.act("sdiv2", a=a, b=reg(b))
            y = x
        g.comps(y, 2)
        g.act("seq", a=x, b=reg(y))
        yield g.s


@gen("C19")
def state_on_the_right(ctx):
    """The state as right operand."""
    rng = ctx.rng
    for _ in range(ctx.n(64)):
        g = GS(ctx, exact=rng.random() < 0.5, maxn=2)
        a = g.state()
        for o in rng.sample(["mul", "mul", "add", "rsub", "addq"], 2):
            b = g.scalar(allow0=False) if o == "mul" else {"t": "none"} if rng.random() < 0.6 else g.scalar(un="MW" if o == "addq" else "none")
            y = g.sbin("add" if o == "addq" else o, a, b, rev=o != "rsub")
            g.comps(y, 1)
        yield g.s


@gen("C32")
def statetables(ctx):
    for _ in range(ctx.n(80)):
        g = GS(ctx, maxn=3)
        s = g.state()
        for _ in range(2):
            g.stable(s)
        yield g.s


def split(g, s):
    """Adjacent parts of a state."""
    ix = g.ixs.get(s, g.ix)
    u = ix["u"]
    per = 96 if rank(ix["f"]) == 1 else 24 if rank(ix["f"]) == 2 else 1
    days = u if per == 1 else [x for x in u if (x - u[0]) % 86400 in (0, 3600, 82800)]
    cuts = sorted(set(g.rng.choice(days) for _ in range(g.rng.randint(1, 2))) - {u[0]})
    edges = [u[0], *cuts, right_of(ix)]
    return [g.sop("sslice", a=s, lo=[edges[i]], hi=[edges[i + 1]], how="ts", step=1, holes=[]) for i in range(len(edges) - 1)]


@gen("C10", "C12")
def stateparts(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(80)):
        g = GS(ctx, maxn=5)
        s = g.state()
        if ctx.prop == "C10":
            for _ in range(3):
                x = g.ssel(s)
                g.comps(x, 1)
        else:
            ps = split(g, s)
            rng.shuffle(ps)
            x = g.sop("sconcat", **{"as": ps})
            g.act("seq", a=x, b=reg(s))
        yield g.s
