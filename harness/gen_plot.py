"""Sessions that draw plots (C35)."""
from __future__ import annotations

from gen_line import G, KINDS
from gen_state import GS
from plans import gen


@gen("C35")
def lines(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(280)):
        g = G(ctx, maxn=rng.choice([1, 2, 3, 4, 6, 12, 15, 16, 25, 30]))
        a = g.nested(depth=rng.choice([1, 1, 2])) if rng.random() < 0.7 else g.flat()
        g.act("plot", a=a, children=rng.random() < 0.6, given=rng.random() < 0.5)
        yield g.s


@gen("C35")
def axes(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(160)):
        g = G(ctx, maxn=rng.choice([1, 2, 4, 6]))
        k = rng.choice(list(KINDS))
        a = g.flat(kind=k) if rng.random() < 0.7 else g.nested(depth=1)
        pool = [a]
        if rng.random() < 0.85:
            b = g.un("asfreq", a, f=rng.choice(["MS", "D", "QS"])) if rng.random() < 0.2 else g.line(rng.choice([k, k, *KINDS]), g.ix)
            pool.append(b)
        kk = rng.choice(["vol", "pri", "rev"])
        g.act("plotax", **{"as": pool}, kinds=[kk if rng.random() < 0.85 else rng.choice(["none", "vol", "pri", "rev"]) for _ in pool])
        yield g.s


@gen("C35")
def states(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(40)):
        g = GS(ctx, maxn=rng.choice([1, 2, 3, 8, 13, 17]))
        g.act("splot", a=g.state(), children=rng.random() < 0.5)
        yield g.s
