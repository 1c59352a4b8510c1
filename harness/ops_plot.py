"""Plots (C35): drawing, reading back what was drawn."""
from __future__ import annotations

import matplotlib as mpl

mpl.use("Agg")
from matplotlib import pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

from core import EPOCH, fix, pf, u_of  # noqa: E402
from ops_line import canonical, line_op  # noqa: E402

DIM = {"vol": pf.VOLUME, "pri": pf.PRICE, "rev": pf.REVENUE, "all": pf.COMPLETE, "none": None}
DRAWN = ("bar", "hline", "area", "step")


def instant(x):
    """Position on the time axis (days since 1970) -> seconds."""
    return round(float(x) * 86400) - EPOCH


def pieces(rows):
    rows = [(a, b, float(y)) for a, b, y in rows if not np.isnan(float(y))]
    return {"x": [[a, b] for a, b, _ in rows], "y": [fix(y) for _, _, y in rows]}


def label(s):
    return "" if s.startswith("_") else s


def of_bars(c):
    return {"how": "bar", "label": label(c.get_label()), **pieces([(*[round(b.get_x() + b.get_width() / 2, 6)] * 2, b.get_height() + b.get_y()) for b in c])}


def of_hlines(c):
    out = []
    for seg in c.get_segments():
        if len(seg) == 0 or np.isnan(seg[0][1]):
            continue
        (a, y), (b, y2) = seg
        assert y == y2
        out.append((*[round((a + b) / 2, 6)] * 2, y))
    return {"how": "hline", "label": label(c.get_label()), **pieces(out)}


def of_area(c):
    out = []
    for p in c.get_paths():
        v = [(instant(x), y) for x, y in p.vertices]
        xs = sorted({x for x, _ in v})
        for a, b in zip(xs[:-1], xs[1:]):
            levels = {y for (x0, y), (x1, y1) in zip(v[:-1], v[1:]) if y == y1 and {x0, x1} == {a, b}}
            top = levels - {0.0}
            assert levels and len(top) <= 1, levels
            out.append((a, b, top.pop() if top else 0.0))
    return {"how": "area", "label": label(c.get_label()), **pieces(sorted(out))}


def of_step(ln):
    ds = ln.get_drawstyle()
    x, y = mpl.cbook.STEP_LOOKUP_MAP[ds](np.asarray(ln.get_xdata(orig=False), float), np.asarray(ln.get_ydata(orig=False), float))
    out = [(instant(a), instant(b), y0) for a, b, y0, y1 in zip(x[:-1], x[1:], y[:-1], y[1:]) if y0 == y1 and instant(a) != instant(b)]
    return {"how": "step", "label": label(ln.get_label()), **pieces(out)}


def number(t):
    return fix(float(t.replace(" ", "")))


def of_axes(ax, curves=None):
    """In the order in which they were drawn."""
    cc = []
    bars = {b: c for c in ax.containers for b in c}
    seen = []
    for a in ax.get_children():
        if a in bars:
            if bars[a] not in seen:
                seen.append(bars[a])
                cc.append(of_bars(bars[a]))
        elif isinstance(a, mpl.collections.LineCollection):
            cc.append(of_hlines(a))
        elif isinstance(a, mpl.collections.PolyCollection):
            cc.append(of_area(a))
        elif isinstance(a, mpl.lines.Line2D):
            cc.append(of_step(a))
    texts = [{"x": u_of(t.xy[0]) if isinstance(t.xy[0], pd.Timestamp) else int(t.xy[0]), "v": number(t.get_text())} for t in ax.texts]
    ticks = [{"x": int(x), "s": t.get_text().replace("\n", " ")} for x, t in zip(ax.get_xticks(), ax.get_xticklabels()) if float(x).is_integer() and abs(x) < 2e9]
    leg = ax.get_legend()
    return {"un": canonical(ax.get_ylabel()), "title": ax.get_title(), "curves": cc, "texts": texts, "ticks": ticks, "legend": [t.get_text() for t in leg.get_texts()] if leg else []}


def closing(fn):
    def run():
        try:
            return fn()
        finally:
            plt.close("all")
    return run


def parsed(ax):
    return of_axes(ax)


@line_op("plot")
def _(a, S):
    L = S[a["a"]]

    def run():
        fig = L.plot(a["children"]) if a["children"] or a["given"] else L.plot()
        return {"axes": [of_axes(ax) for ax in fig.axes]}
    return closing(run), lambda v: v


@line_op("splot")
def _(a, S):
    s = S[a["a"]]
    nm = lambda L: list(L) if L.structure.name == "NESTED" else []  # noqa: E731

    def run():
        fig = s.plot(children=a["children"])
        return {"axes": [of_axes(ax) for ax in fig.axes], "nmoff": nm(s.offtakevolume), "nmsrc": nm(s.sourced)}
    return closing(run), lambda v: v


@line_op("plotax")
def _(a, S):
    ls = [S[n] for n in a["as"]]

    def run():
        fig, ax = plt.subplots()
        done = 0
        for L, k in zip(ls, a["kinds"]):
            try:
                L.plot_to_ax(ax, kind=DIM[k])
            except (ValueError, AttributeError):
                break
            done += 1
        return {"done": done, "ax": of_axes(ax) if done else {}}
    return closing(run), lambda v: v
