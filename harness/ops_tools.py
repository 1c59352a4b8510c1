"""Calls on the tools for series and tables: weighted averages, gaps, intersections, time zones, standardizing."""
from __future__ import annotations

import numpy as np
import pandas as pd

from core import EPOCH, Q_, call, fix, ix_of, ixp, mags, outcome, pf, tzname, uarr, unit_of
from ops import op
from ops_line import canonical, digest, unitname, val

T = pf.tools


def judged(thunk, proj, **inputs):
    """Outcome of a call and the names of the inputs it changed."""
    before = {n: digest(x) for n, x in inputs.items()}
    r = outcome(thunk, proj)
    return {"r": r, "mut": [n for n, x in inputs.items() if digest(x) != before[n]]}


# ------------------------------------------------------------------ weighted averages
PU = {"none": None, "Eur/MWh": "Eur/MWh", "ct/kWh": "cent/kWh", "Eur": "Eur", "kEur": "kEur", "MWh": "MWh", "MW": "MW"}
DEF = {"cent/kWh": 10.0, "kEur": 1000.0}


def arr(vs, un):
    s = pd.Series([val(v) for v in vs], dtype=float)
    return s if un == "none" else s.astype(f"pint[{PU[un]}]")


def scalar(q):
    if isinstance(q, Q_):
        return {"m": fix(float(q.m)), "un": canonical(f"{q.units:~P}")}
    return {"m": fix(float(q)), "un": "none"}


def weights(w, form, un, labels):
    vs = [val(x) for x in w["w"]]
    if w["t"] == "list":
        if un != "none":
            vs = [Q_(v, PU[un]) for v in vs]
        return {"list": list, "tuple": tuple, "array": lambda x: x if un != "none" else np.array(x)}[form](vs)
    ks = [labels[k - 1] for k in w["k"]]
    if form == "dict":
        return dict(zip(ks, [Q_(v, PU[un]) for v in vs] if un != "none" else vs))
    s = pd.Series(vs, ks, dtype=float)
    if un != "none":
        s = s.astype(f"pint[{PU[un]}]") if form == "series" else pd.Series([Q_(v, PU[un]) for v in vs], ks)
    return s


def labels(kind, n):
    return {"int": list(range(n + 3)), "str": [f"r{i}" for i in range(n + 3)],
            "dt": list(pd.date_range("2024-03-30", freq="D", periods=n + 3, tz="Europe/Berlin"))}[kind]


@op("wavg")
def _(a, S):
    lab = labels(a["lab"], len(a["v"]))
    s = arr(a["v"], a["un"])
    s.index = pd.Index(lab[: len(s)])
    w = None if a["w"]["t"] == "none" else weights(a["w"], a["wform"], a["wun"], lab)
    fn = pf.wavg if a["api"] == "general" else T.wavg.series
    return judged(lambda: fn(s, w) if w is not None or a["kw"] else fn(s), scalar, s=s, w=w)


@op("wavgdf")
def _(a, S):
    nr, nc = len(a["v"][0]), len(a["v"])
    rl = labels(a["lab"], nr)
    cl = [f"c{i}" for i in range(nc + 3)]
    cols = {}
    for j, v in enumerate(a["v"]):
        s = arr(v, a["uns"][j])
        s.index = pd.Index(rl[:nr])
        cols[cl[j]] = s
    df = pd.DataFrame(cols)
    if a["lab"] == "dt":
        df.index.freq = "D"
    w = a["w"]
    if w["t"] == "none":
        ww = None
    elif w["t"] == "frame":
        ww = pd.DataFrame({cl[c - 1]: pd.Series([val(x) for x in w["w"][j]], [rl[r - 1] for r in w["rows"]]) for j, c in enumerate(w["cols"])})
        if a["wun"] != "none":
            ww = pd.DataFrame({c: s.astype(f"pint[{PU[a['wun']]}]") for c, s in ww.items()})
    else:
        ww = weights(w, a["wform"], a["wun"], rl if a["axis"] == 0 else cl)
    where = cl if a["axis"] == 0 else rl

    def proj(r):
        assert isinstance(r, pd.Series)
        keys = [where.index(k) + 1 for k in r.index]
        if hasattr(r, "pint") and str(r.dtype).startswith("pint"):
            m, un = [fix(x) for x in mags(r)], [unitname(r)] * len(r)
        else:
            sc = [scalar(x) for x in r]
            m, un = [x["m"] for x in sc], [x["un"] for x in sc]
        return {"keys": keys, "m": m, "un": un}
    fn = pf.wavg if a["api"] == "general" else T.wavg.dataframe
    return judged(lambda: fn(df, ww, a["axis"]), proj, df=df, w=ww)


# ------------------------------------------------------------------ gaps
@op("fill")
def _(a, S):
    if a["xkind"] == "int":
        i = pd.Index(a["x"])
    else:
        i = pd.DatetimeIndex([pd.Timestamp((u + EPOCH) * 10**9) for u in a["x"]])
        if a["xkind"] != "none":
            i = i.tz_localize("UTC").tz_convert(a["xkind"])
    ss = [pd.Series([val(v) for v in vs], i, dtype=float) for vs in a["v"]]
    if a["un"] != "none":
        ss = [s.astype(f"pint[{a['un']}]") for s in ss]
    fr = pd.DataFrame(dict(zip(a["names"], ss))) if a["frame"] else ss[0].rename(a["names"][0])

    def proj(r):
        cols = [r[c] for c in r.columns] if a["frame"] else [r]
        names = list(r.columns) if a["frame"] else [r.name]
        x = uarr(r.index) if a["xkind"] != "int" else [int(v) for v in r.index]
        return {"x": x, "cols": names, "m": [[fix(v) for v in mags(c)] for c in cols], "un": [unit_of(c) for c in cols]}
    return judged(lambda: T.frame.fill_gaps(fr, a["maxgap"]) if a["given"] else T.frame.fill_gaps(fr), proj, fr=fr)


# ------------------------------------------------------------------ intersections
def isect_obj(o):
    i = ix_of(o["ix"]["f"], o["ix"]["tz"], o["ix"]["u"]) if o["ix"]["u"] else pd.DatetimeIndex([], freq=o["ix"]["f"], tz=None if o["ix"]["tz"] == "none" else o["ix"]["tz"])
    cols = [pd.Series([val(x) for x in v], i, dtype=float) for v in o["v"]]
    if o["t"] == "index":
        return i.rename(o["name"] or None)
    if o["t"] == "series":
        return cols[0].rename(o["name"] or None)
    if o["t"] == "frame":
        return pd.DataFrame({f"c{k}": c for k, c in enumerate(cols)}, index=i)
    if o["t"] == "line":
        return pf.PfLine({"w": cols[0]})
    return pf.PfState(pf.PfLine({"w": cols[0]}), pf.PfLine({"p": cols[0] * 0 + 50.0}))


def isect_proj(x):
    if isinstance(x, pd.DatetimeIndex):
        return {"t": "index", "ix": ixp(x), "name": x.name or "", "m": []}
    if isinstance(x, pd.Series):
        return {"t": "series", "ix": ixp(x.index), "name": x.name or "", "m": [[fix(v) for v in x]]}
    if isinstance(x, pd.DataFrame):
        return {"t": "frame", "ix": ixp(x.index), "name": "", "m": [[fix(v) for v in x[c]] for c in x.columns]}
    if isinstance(x, pf.PfLine):
        return {"t": "line", "ix": ixp(x.index), "name": "", "m": [[fix(v) for v in mags(x.w)]]}
    return {"t": "state", "ix": ixp(x.index), "name": "", "m": [[fix(v) for v in mags(x.offtakevolume.w)]]}


@op("isect")
def _(a, S):
    objs = [isect_obj(o) for o in a["objs"]]
    kw = {k: a[f] for k, f in (("ignore_freq", "igf"), ("ignore_tz", "igt"), ("ignore_start_of_day", "igs")) if a[f] or a["explicit"]}
    api = a["api"]
    if api == "indices":
        return judged(lambda: T.intersect.indices(*objs), lambda r: [isect_proj(r)] * len(objs), objs=objs)
    fn = {"flex": T.intersect.indices_flex, "frames": T.intersect.frames, "indexable": pf.intersection}[api]

    def proj(r):
        assert isinstance(r, (list, tuple)), type(r)
        return [isect_proj(x) for x in r]
    return judged(lambda: fn(*objs, **kw), proj, objs=objs)


# ------------------------------------------------------------------ time zones, standardizing
def mk_frame(a, i):
    v = np.array([val(x) for x in a["v"]])
    if a["frame"]:
        return pd.DataFrame({n: pd.Series(v * c, i) for n, c in zip(a["names"], a["copies"])})
    return pd.Series(v * a["copies"][0], i, name=a["names"][0] or None)


def p_frame(r):
    if isinstance(r, pd.DataFrame):
        return {"ix": ixp(r.index), "m": [[fix(v) for v in r[c]] for c in r.columns], "names": list(r.columns)}
    return {"ix": ixp(r.index), "m": [[fix(v) for v in r]], "names": [r.name or ""]}


@op("force")
def _(a, S):
    i = ix_of(a["ix"]["f"], a["ix"]["tz"], a["ix"]["u"])
    if not a["given"]:
        i.freq = None
    fr = mk_frame(a, i)
    if a["how"] == "agnostic":
        return judged(lambda: pf.force_agnostic(fr), p_frame, fr=fr)
    kw = {} if a["floating"] and a["dflt"] else {"floating": a["floating"]}
    return judged(lambda: pf.force_aware(fr, a["tz"], **kw), p_frame, fr=fr)


@op("std")
def _(a, S):
    ix = a["ix"]
    us = a["ru"] if a["bound"] == "right" else ix["u"]
    i = pd.DatetimeIndex([pd.Timestamp((u + EPOCH) * 10**9) for u in us])
    if ix["tz"] != "none":
        i = i.tz_localize("UTC").tz_convert(ix["tz"])
    if a["given"]:
        i.freq = ix["f"]
    if a["how"] == "walls":
        i = pd.DatetimeIndex(i.tz_localize(None))
    if a["strings"]:
        i = pd.Index([str(x) for x in i])
    fr = mk_frame(a, i)
    kw = {}
    if a["force"] != "none" or a["explicit"]:
        kw["force"] = None if a["force"] == "none" else a["forceword"]
    if a["tz"] != "none":
        kw["tz"] = a["tz"]
    if a["bound"] == "right" or a["explicit"]:
        kw["bound"] = a["bound"]
    if not a["floating"]:
        kw["floating"] = False

    def proj(r):
        p = p_frame(r)
        kw2 = {**kw, "bound": "left"}
        t, r2 = call(pf.standardize, r, **kw2)
        t3, r3 = call(pf.standardize, r)
        again = t == "ok" and digest(r2) == digest(r) and t3 == "ok" and digest(r3) == digest(r)
        return {**p, "ixname": r.index.name or "", "again": bool(again)}
    return judged(lambda: pf.standardize(fr, **kw), proj, fr=fr)
