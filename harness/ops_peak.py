"""Calls on peak functions, peak/offpeak decomposition, hedging and conversion of base, peak and offpeak values."""
from __future__ import annotations

import datetime as dt

import numpy as np
import pandas as pd

from core import Q_, call, fix, ix_of, mags, outcome, pf, tzname, uarr, unit_of
from ops import op
from ops_line import canonical, digest, line_op, p_line, p_ser, unitname, val

T = pf.tools


def ixd(d):
    return ix_of(d["f"], d["tz"], d["u"])


def clock(s):
    return None if s < 0 else dt.time(s // 3600, s // 60 % 60, s % 60)


def definition(d):
    if d.get("named"):
        return pf.germanpower_peakfn
    kw = {}
    if d["l"] != -1 or d.get("expl"):
        kw["peak_left"] = clock(d["l"])
    if d["r"] != -1 or d.get("expl"):
        kw["peak_right"] = clock(d["r"] % 86400 if d["r"] >= 0 else -1)
    if d["wdg"]:
        kw["isoweekdays"] = {"list": list, "tuple": tuple, "set": set}[d.get("as", "list")](d["wd"])
    return T.peakfn.factory(**kw) if d.get("mod", True) else pf.create_peakfn(**kw)


def judged(thunk, proj, **inputs):
    before = {n: digest(x) for n, x in inputs.items()}
    r = outcome(thunk, proj)
    return {"r": r, "mut": [n for n, x in inputs.items() if digest(x) != before[n]]}


@op("peakfn")
def _(a, S):
    t, fn = call(lambda: definition(a["d"]))
    if t != "ok":
        return {"made": False, "r": {"t": "err", "e": fn}, "mut": []}
    i = ixd(a["ix"])

    def proj(s):
        assert isinstance(s, pd.Series) and s.dtype == bool
        return {"u": uarr(s.index), "m": [bool(x) for x in s]}
    return {"made": True, **judged(lambda: fn(i), proj, i=i)}


@op("peakdur")
def _(a, S):
    fn = definition(a["d"])
    i = ixd(a["ix"])
    f = {"peak": T.peakfn.peak_duration, "offpeak": T.peakfn.offpeak_duration}[a["part"]]
    return judged(lambda: f(i, fn), lambda s: {"u": uarr(s.index), "un": unitname(s), "m": [fix(x) for x in mags(s)]}, i=i)


@line_op("po")
def _(a, S):
    fn = definition(a["d"])
    L = S[a["a"]]

    def proj(df):
        assert isinstance(df, pd.DataFrame)
        lv0 = [x[0] for x in df.index]
        us = uarr(pd.DatetimeIndex(lv0)) if len(lv0) else []
        return {"u": us, "part": [str(x[1]) for x in df.index], "m": {c: [fix(x) for x in mags(df[c])] for c in df}, "un": {c: unitname(df[c]) for c in df}}
    if a.get("default"):
        return (lambda: L.po(fn)), proj
    return (lambda: L.po(fn, a["f"]) if a.get("pos") else L.po(peak_fn=fn, freq=a["f"])), proj


@line_op("hedge")
def _(a, S):
    L, P = S[a["a"]], S[a["b"]["n"]]
    fn = definition(a["d"]) if a["pk"] else None
    if a["api"] == "line":
        def proj(x):
            return {"s": "empty"} if len(x.index) == 0 else p_line(x)
        if a.get("default"):
            return (lambda: L.hedge_with(P)), proj
        return (lambda: L.hedge_with(P, a["how"], fn, a["f"]) if a.get("pos") else L.hedge_with(P, how=a["how"], peak_fn=fn, freq=a["f"])), proj
    def proj2(r):
        if len(r[0]) == 0 and len(r[1]) == 0:
            return {"s": "empty"}
        return {"s": "two", "w": p_ser(r[0]), "p": p_ser(r[1])}

    def call():
        w, p = L.w, P.p
        w = w if a["units"] in ("both", "w") else w.pint.magnitude
        p = p if a["units"] in ("both", "p") else p.pint.magnitude
        return pf.hedge(w, p, how=a["how"], peak_fn=fn, freq=a["f"])
    return call, proj2


# ------------------------------------------------------------------ conversion
def table(a):
    df = pd.DataFrame({c: pd.Series([val(v) for v in vs], ixd(a["ix"]), dtype=float) for c, vs in a["c"].items()}, ixd(a["ix"]))
    df = df[a["order"]]
    if a["un"] != "none":
        df = df.astype(f"pint[{a['un']}]")
    if a.get("extra"):
        df["extra"] = 1.0
    return df


def series(a):
    s = pd.Series([val(v) for v in a["v"]], ixd(a["ix"]), dtype=float)
    return s if a["un"] == "none" else s.astype(f"pint[{a['un']}]")


def p_tab(df):
    assert isinstance(df, pd.DataFrame)
    cols = [str(c) for c in df]
    return {"u": uarr(df.index), "keys": cols, "m": {c: [fix(x) for x in mags(df[c])] for c in cols}, "un": {c: unitname(df[c]) for c in cols}}


@op("bpo")
def _(a, S):
    fn, df = definition(a["d"]), table(a)
    kw = {} if a.get("default") else {"is_summable": a["sum"]}
    return judged(lambda: T.peakconvert.complete_bpoframe(df, fn, **kw), p_tab, df=df)


@op("decompose")
def _(a, S):
    fn, s = definition(a["d"]), series(a)
    return judged(lambda: T.peakconvert.tseries2poframe(s, fn, a["f"], a["sum"]), p_tab, s=s)


@op("reconstruct")
def _(a, S):
    fn, df = definition(a["d"]), table(a)
    return judged(lambda: T.peakconvert.poframe2tseries(df, fn, a["f"], a["sum"]),
                  lambda s: {"u": uarr(s.index), "m": [fix(x) for x in mags(s)], "un": unitname(s)}, df=df)


@op("convert")
def _(a, S):
    fn, df = definition(a["d"]), table(a)
    return judged(lambda: T.peakconvert.poframe2poframe(df, fn, a["f"], a["sum"]), p_tab, df=df)
