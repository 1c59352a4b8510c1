"""Sessions that print overviews (C34), or export to excel and the clipboard (C32)."""
from __future__ import annotations

from gen_line import G
from gen_state import GS
from plans import gen


def show(g, a, rng, state=False):
    api = rng.choice(["print", "print", "print", "repr"])
    if api == "repr":
        k, flat = (5 if state else 20), not state
    else:
        k, flat = rng.choice([1, 2, 3, 4, 5, 5, 5, 6, 7, 8, 20]), not state and rng.random() < 0.3
    kw = {} if state else {"flat": flat, "top": "" if flat else "(this pfline)"}
    g.act("stext" if state else "text", a=a, api=api, k=k, color=rng.random() < 0.4, default=rng.random() < 0.6, **kw)


@gen("C34")
def lines(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(420)):
        g = G(ctx, maxn=rng.choice([1, 2, 3, 4, 6, 9, 12, 24, 60]))
        a = g.nested(depth=rng.choice([1, 1, 2, 2, 3, 4])) if rng.random() < 0.75 else g.flat()
        show(g, a, rng)
        show(g, a, rng)
        if rng.random() < 0.4:
            b = g.random_op([a])
            if b:
                show(g, b, rng)
        yield g.s


@gen("C34")
def states(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(120)):
        g = GS(ctx, maxn=rng.choice([1, 2, 3, 5, 8, 12, 30]))
        s = g.state()
        for _ in range(2):
            show(g, s, rng, True)
        yield g.s


@gen("C32")
def exports(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(160)):
        if rng.random() < 0.75:
            g = G(ctx, maxn=4)
            a = g.nested(depth=rng.choice([1, 2, 3])) if rng.random() < 0.75 else g.flat()
            op = "excel"
        else:
            g = GS(ctx, maxn=4)
            a, op = g.state(), "sexcel"
        for _ in range(2):
            g.act(op, a=a, to=rng.choice(["excel", "excel", "clipboard"]), sheet=rng.choice(["", "kw", "pos"]))
        yield g.s
