"""Calls on portfolio states (C17-C19)."""
from __future__ import annotations

import operator

import numpy as np
import pandas as pd

from core import call, fix, freqname, pf, tzname, u_of, uarr
from ops_line import OPER, PfLine, PfState, bounds, fixq, line_op, mags, operand, p_line, p_table  # noqa: F401


def p_state(s):
    if isinstance(s, (PfLine, pd.Series)):
        return p_line(s)
    assert isinstance(s, PfState), type(s)
    i = s.index
    try:
        q = [fixq(v) for v in mags(s.unsourced.volume.q)]
    except Exception:  # noqa: BLE001
        q = []
    return {"s": "state", "f": freqname(i.freq), "tz": tzname(i.tz), "u": uarr(i), "off": p_line(s.offtakevolume), "pu": p_line(s.unsourcedprice),
            "src": p_line(s.sourced), "q": q}


def parts(a, S):
    return {k: operand(b, S) for k, b in a["parts"].items()}


@line_op("snew")
def _(a, S):
    p = parts(a, S)
    if a.get("how") == "series":
        kw = {}
        for k, b in a["parts"].items():
            for it, v in zip(b.get("items", []), [p[k]] if not isinstance(p[k], dict) else p[k].values()):
                kw[it["d"] + {"off": "o", "pu": "u", "src": "s"}[k]] = v
        return (lambda: PfState.from_series(**kw)), p_state
    args = [p.get("off"), p.get("pu")] + ([p["src"]] if "src" in p else [])
    if a.get("how") == "kw":
        return (lambda: PfState(**dict(zip(("offtakevolume", "unsourcedprice", "sourced"), args)))), p_state
    return (lambda: PfState(*args)), p_state


@line_op("scomp")
def _(a, S):
    s, n = S[a["a"]], a["n"]
    if n == "mtm":
        return s.mtm_of_sourced, None
    if a.get("how") == "item":
        return (lambda: s[n]), None
    return (lambda: getattr(s, n)), None


@line_op("sset")
def _(a, S):
    s, x = S[a["a"]], parts(a, S)["x"]
    f = {"offtakevolume": s.set_offtakevolume, "unsourcedprice": s.set_unsourcedprice, "sourced": s.set_sourced, "add": s.add_sourced}[a["k"]]
    return (lambda: f(x)), p_state


@line_op("sbin")
def _(a, S):
    s, b, o = S[a["a"]], operand(a["b"], S), a["o"]
    if o == "rsub":
        return (lambda: b - s), p_state
    f = OPER[o]
    return ((lambda: f(b, s)) if a.get("rev") else (lambda: f(s, b))), p_state


@line_op("sneg")
def _(a, S):
    return (lambda: -S[a["a"]]), p_state


@line_op("sdiv2")
def _(a, S):
    def proj(df):
        keys = ["/".join(c) for c in df.columns]
        return {"u": uarr(df.index), "keys": keys, "m": {k: [fix(v) for v in mags(df.iloc[:, j])] for j, k in enumerate(keys)}}
    return (lambda: S[a["a"]] / S[a["b"]["n"]]), proj


@line_op("sasfreq")
def _(a, S):
    return (lambda: S[a["a"]].asfreq(a["f"])), p_state


@line_op("sloc")
def _(a, S):
    s = S[a["a"]]
    lo, hi = bounds(a, S)
    i = s.index
    if a["how"] == "slice":
        step = None if a["step"] == 1 else a["step"]
        return (lambda: s.loc[slice(lo, hi, step)]), p_state
    if a["how"] == "str":
        return (lambda: s.loc[a["slo"] or None:a["shi"] or None]), p_state
    m = np.array([(lo is None or x >= lo) and (hi is None or x <= hi) and u_of(x) not in a["holes"] for x in i], dtype=bool)
    if a["how"] == "mask":
        return (lambda: s.loc[m]), p_state
    return (lambda: s.loc[i[m]]), p_state


@line_op("sslice")
def _(a, S):
    s = S[a["a"]]
    if a["how"] == "str":
        return (lambda: s.slice[a["slo"] or None:a["shi"] or None]), p_state
    lo, hi = bounds(a, S)
    return (lambda: s.slice[lo:hi]), p_state


@line_op("sconcat")
def _(a, S):
    ls = [S[n] for n in a["as"]]
    return (lambda: pf.concat(ls)), p_state


@line_op("seq")
def _(a, S):
    return (lambda: S[a["a"]] == S[a["b"]["n"]]), bool


@line_op("stable")
def _(a, S):
    s = S[a["a"]]
    cols = a["cols"] if a["given"] else None
    if cols is not None and a.get("colform") == "str":
        cols = "".join(cols)
    if cols is not None and a.get("colform") == "gen":
        return (lambda: s.dataframe((c for c in a["cols"]), has_units=a["units"])), p_table
    return (lambda: s.dataframe(cols, has_units=a["units"])), p_table
