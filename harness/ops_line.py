"""Calls on portfolio lines (C01-C14, C31, C32): building inputs, executing, projecting the results."""
from __future__ import annotations

import operator

import numpy as np
import pandas as pd

from core import Q_, call, fix, freqname, ix_of, mags, outcome, pf, ts_of, tzname, u_of, uarr, unit_of
from ops import op

PfLine, PfState = pf.PfLine, pf.PfState
KIND = {"VOLUME": "vol", "PRICE": "pri", "REVENUE": "rev", "COMPLETE": "all"}
UNIT = {"MW": "MW", "MWh": "MWh", "Eur/MWh": "Eur/MWh", "Eur": "Eur"}


# ------------------------------------------------------------------ projection
def fixq(x):
    """As fix, but telling exact zero from almost zero."""
    x = float(x)
    return [0, -4] if x != 0 and abs(x) < 1e-7 else fix(x)


def unitname(s) -> str:
    """Canonical name of the unit of a series."""
    return canonical(unit_of(s))


def canonical(u: str) -> str:
    if u == "none":
        return "none"
    uu = pf.tools.unit.Unit(u)
    for n in ("MW", "MWh", "Eur/MWh", "Eur", "dimensionless", "h"):      # also when spelled differently, e.g. MWh/h
        if uu == pf.tools.unit.Unit(n) or (uu.dimensionality == pf.tools.unit.Unit(n).dimensionality and Q_(1, uu).to(n).m == 1):
            return n
    return u


def p_ser(s):
    return {"s": "ser", "f": freqname(s.index.freq), "tz": tzname(s.index.tz), "u": uarr(s.index), "un": unitname(s), "m": [fix(v) for v in mags(s)]}


def p_line(L):
    if isinstance(L, pd.Series):
        return p_ser(L)
    assert isinstance(L, PfLine), type(L)
    i = L.index
    out = {"s": {"FLAT": "flat", "NESTED": "nest"}[L.structure.name], "k": KIND[L.kind.name], "f": freqname(i.freq), "tz": tzname(i.tz), "u": uarr(i)}
    assert L.start == i[0]
    out["end"] = u_of(L.end)
    c, un = {}, {}
    for x in "wqpr":
        try:
            s = getattr(L, x)
        except TypeError:
            continue
        assert uarr(s.index) == out["u"], f"index of {x}"
        c[x] = [(fixq if x == "q" else fix)(v) for v in mags(s)]
        un[x] = unitname(s)
    out["c"], out["un"], out["nm"] = c, un, []
    if out["s"] == "nest":
        out["ch"] = {n: p_line(L[n]) for n in L}
        out["nm"] = list(L)
    return out


def raw(x):
    """Contents of an array (with its unit)."""
    if hasattr(x, "_data"):
        x, un = x._data, x.dtype.units._units
    else:
        un = None
    x = np.asarray(x)
    return (un, str(x.dtype), [str(v) for v in x] if x.dtype == object else x.tobytes())


def digest(o):
    """Value of an object, to see if it was changed."""
    if isinstance(o, PfState):
        return ("state", digest(o.offtakevolume), digest(o.unsourcedprice), digest(o.sourced))
    if isinstance(o, PfLine):
        d = [type(o).__name__, digest(o.df)]
        if hasattr(o, "children") and o.structure.name == "NESTED":
            d.append([(n, digest(c)) for n, c in o.children.items()])
        return d
    if isinstance(o, pd.DataFrame):
        bb = o._mgr.blocks
        if all(type(b.values) is np.ndarray and b.values.dtype != object or hasattr(b.values, "_data") for b in bb):
            return ("frame", [raw(b.values) + (tuple(b.mgr_locs.as_array),) for b in bb], digest(o.columns), digest(o.index))
        return ("frame", [(c, digest(o[c])) for c in o.columns] if o.columns.is_unique else str(o), digest(o.index))
    if isinstance(o, pd.Series):
        if hasattr(o.array, "_data"):
            return ("series", str(o.name), raw(o.array), digest(o.index))
        v = [str(x) for x in o.values] if o.dtype == object else mags(o).tobytes()
        return ("series", str(o.name), str(o.dtype), v, digest(o.index))
    if isinstance(o, pd.DatetimeIndex):
        return ("index", o.as_unit("ns").asi8.tobytes(), str(o.tz), str(o.freq), str(o.name))
    if isinstance(o, (pd.Index, np.ndarray)):
        return ("ix", str(list(o)))
    if isinstance(o, dict):
        return ("dict", [(k, digest(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return ("list", [digest(v) for v in o])
    return ("val", str(o))


CACHE = {}     # name -> (object, digest after the latest call)


def digests(S):
    return {n: (CACHE[n][1] if n in CACHE and CACHE[n][0] is o else digest(o)) for n, o in S.items()}


def mutated(S, before):
    out = []
    CACHE.clear()
    for n, o in S.items():
        d = digest(o)
        CACHE[n] = (o, d)
        if n in before and before[n] != d:
            out.append(n)
    return sorted(out)


# ------------------------------------------------------------------ inputs
PUNIT = {"ct": "cent", "ct/kWh": "cent/kWh"}


def val(v):
    return float("nan") if v[1] == 0 else v[0] / v[1]


def mk_series(it, obj=False, integer=False):
    i = ix_of(it["ix"]["f"], it["ix"]["tz"], it["ix"]["u"])
    v = [val(x) for x in it["v"]]
    un = PUNIT.get(it["un"], it["un"])
    if integer and all(x == int(x) for x in v if x == x) and not any(x != x for x in v):
        v = [int(x) for x in v]
    if un == "none":
        return pd.Series(v, i)
    if obj:
        return pd.Series([Q_(x, un) for x in v], i, dtype=object)
    return pd.Series(v, i, dtype=f"pint[{un}]")


def mk_item(it, **kw):
    if not it["sc"]:
        return mk_series(it, **kw)
    v = val(it["v"][0])
    if kw.get("integer") and v == int(v):
        v = int(v)
    return v if it["un"] == "none" else Q_(v, PUNIT.get(it["un"], it["un"]))


def mk_data(items, form):
    """Data object that carries the items."""
    form, _, mod = form.partition("+")
    kw = {"obj": mod == "obj", "integer": mod == "int"}
    vals = [mk_item(it, **kw) for it in items]
    if form == "dict":
        return {it["d"]: v for it, v in zip(items, vals)}
    if form == "frame":
        return pd.DataFrame({it["d"]: v for it, v in zip(items, vals)})
    if form == "seriesof":
        return pd.Series({it["d"]: v for it, v in zip(items, vals)}, dtype=object)
    if form == "list":
        return list(vals)
    if form == "tuple":
        return tuple(vals)
    if form == "gen":
        return (v for v in vals)
    assert form == "single" and len(vals) == 1
    return vals[0]


def operand(b, S):
    if b["t"] == "reg":
        return S[b["n"]]
    if b["t"] == "none":
        return None
    d = mk_data(b["items"], b["form"])
    if not b["form"].startswith("gen"):
        S[f"input{len(S)}"] = d
    return d


def missing(a, S):
    need = []
    if "a" in a:
        need.append(a["a"])
    if "as" in a:
        need += a["as"]
    if isinstance(a.get("b"), dict) and a["b"]["t"] == "reg":
        need.append(a["b"]["n"])
    need += [b["n"] for b in a.get("ch", {}).values() if b["t"] == "reg"]
    need += [b["n"] for b in a.get("parts", {}).values() if b["t"] == "reg"]
    return any(n not in S for n in need)


def line_op(name):
    """Register fn(action, S) -> thunk; the thunk is the library call."""
    def deco(fn):
        def run(a, S, project=None):
            if missing(a, S):
                if "out" in a:
                    S.pop(a["out"], None)
                return {"r": {"t": "skip"}, "mut": []}
            thunk, proj = fn(a, S)
            before = digests(S)
            t, v = call(thunk)
            r = {"t": "err", "e": v}
            if t == "ok":
                try:
                    r = {"t": "ok", "v": (proj or p_line)(v)}
                except Exception as e:  # noqa: BLE001
                    r = {"t": "bad", "e": f"{type(v).__name__}: {type(e).__name__}: {str(e)[:100]}"}
            mut = mutated(S, before)
            if "out" in a:
                S.pop(a["out"], None)
                if r["t"] == "ok" and isinstance(v, (PfLine, PfState)):
                    S[a["out"]] = v
            return {"r": r, "mut": mut}
        op(name)(run)
        return fn
    return deco


@line_op("new")
def _(a, S):
    d = operand({"t": "items", **a}, S)
    how = a.get("cls", "PfLine")
    fn = {"PfLine": PfLine, "flat": pf.core.pfline.create.flatpfline}[how]
    return (lambda: fn(d)), None


@line_op("nest")
def _(a, S):
    ch = {n: operand(b, S) for n, b in a["ch"].items()}
    if a["bad"]:
        ch[a["badkey"] if isinstance(a["badkey"], str) else int(a["badkey"][0])] = next(iter(ch.values()))
    d = ch
    if a.get("form") == "frame":          # table with two column levels
        d = pd.concat({n: (c if isinstance(c, pd.DataFrame) else pd.DataFrame(c)) for n, c in ch.items()}, axis=1)
    elif a.get("form") == "dfs":          # tables of lines
        d = {n: (c.df if isinstance(c, PfLine) else c) for n, c in ch.items()}
    S["input-nest"] = d
    fn = pf.core.pfline.create.nestedpfline if a.get("cls") == "nested" else PfLine
    return (lambda: fn(d)), None


OPER = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv, "unite": operator.or_}


@line_op("bin")
def _(a, S):
    L, b, o = S[a["a"]], operand(a["b"], S), a["o"]
    if o == "rsub":
        return (lambda: b - L), None
    if o == "rdiv":
        return (lambda: b / L), None
    f = OPER[o]
    return ((lambda: f(b, L)) if a.get("rev") else (lambda: f(L, b))), None


@line_op("neg")
def _(a, S):
    return (lambda: -S[a["a"]]), None


@line_op("asfreq")
def _(a, S):
    if a.get("default"):
        return (lambda: S[a["a"]].asfreq()), None
    return (lambda: S[a["a"]].asfreq(a["f"])), None


def bounds(a, S):
    tz = tzname(S[a["a"]].index.tz)
    lo = ts_of(a["lo"][0], tz) if a["lo"] else None
    hi = ts_of(a["hi"][0], tz) if a["hi"] else None
    return lo, hi


@line_op("loc")
def _(a, S):
    L = S[a["a"]]
    lo, hi = bounds(a, S)
    i = L.index
    how = a["how"]
    step = None if a["step"] == 1 else a["step"]
    if how == "slice":
        return (lambda: L.loc[slice(lo, hi, step)]), None
    if how == "str":
        return (lambda: L.loc[a["slo"] or None:a["shi"] or None]), None
    m = np.array([(lo is None or x >= lo) and (hi is None or x <= hi) and u_of(x) not in a["holes"] for x in i], dtype=bool)
    if how == "mask":
        return (lambda: L.loc[m]), None
    sel = i[m]
    S["input-sel"] = sel
    return (lambda: L.loc[sel]), None


@line_op("slice")
def _(a, S):
    L = S[a["a"]]
    if a["how"] == "str":
        return (lambda: L.slice[a["slo"] or None:a["shi"] or None]), None
    lo, hi = bounds(a, S)
    return (lambda: L.slice[lo:hi]), None


@line_op("reindex")
def _(a, S):
    i = ix_of(a["ix"]["f"], a["ix"]["tz"], a["ix"]["u"]) if a.get("hasfreq", True) else ix_of2(a["ix"])
    S["input-ix"] = i
    return (lambda: S[a["a"]].reindex(i)), None


def ix_of2(ix):
    i = ix_of(ix["f"], ix["tz"], ix["u"])
    i.freq = None
    return i


@line_op("flatten")
def _(a, S):
    return (lambda: S[a["a"]].flatten()), None


@line_op("part")
def _(a, S):
    return (lambda: getattr(S[a["a"]], {"vol": "volume", "pri": "price", "rev": "revenue"}[a["k"]])), None


@line_op("child")
def _(a, S):
    if a.get("how") == "attr":
        return (lambda: getattr(S[a["a"]], a["n"])), None
    return (lambda: S[a["a"]][a["n"]]), None


@line_op("setchild")
def _(a, S):
    b = operand(a["b"], S)
    return (lambda: S[a["a"]].set_child(a["n"], b)), None


@line_op("dropchild")
def _(a, S):
    return (lambda: S[a["a"]].drop_child(a["n"])), None


@line_op("concat")
def _(a, S):
    ls = [S[n] for n in a["as"]]
    S["input-ls"] = ls
    return (lambda: pf.concat(ls)), None


@line_op("eq")
def _(a, S):
    def proj(v):
        assert isinstance(v, (bool, np.bool_))
        return bool(v)
    return (lambda: S[a["a"]] == S[a["b"]["n"]]), proj


@line_op("bool")
def _(a, S):
    return (lambda: bool(S[a["a"]])), bool


@line_op("setattr")
def _(a, S):
    L = S[a["a"]]
    name = a["n"]
    try:
        value = getattr(L, name) if a.get("same") else 5
    except Exception:  # noqa: BLE001  the line has no such column
        value = 5

    def run():
        if a.get("how") == "del":
            delattr(L, name)
        else:
            setattr(L, name, value)
    return run, lambda v: "set"


@line_op("table")
def _(a, S):
    L = S[a["a"]]
    kw = {}
    if a["levels"] != -1 or a.get("explicit"):
        kw["childlevels"] = a["levels"]
    cols = a["cols"] if a["given"] else None
    if cols is not None and a.get("colform") == "str":
        cols = "".join(cols)
    if L.structure.name == "FLAT" and not a.get("explicit"):
        kw = {}

    def run():
        return L.dataframe(iter(cols) if cols and a.get("colform") == "gen" else cols, a["units"], **kw)
    return run, p_table


def p_table(df):
    assert isinstance(df, pd.DataFrame)
    keys, m, un, col = [], {}, {}, {}
    for j, c in enumerate(df.columns):
        path = "/".join([y for y in c if y != ""]) if isinstance(c, tuple) else c
        s = df.iloc[:, j]
        keys.append(path)
        m[path] = [fix(v) for v in mags(s)]
        un[path] = unitname(s)
        col[path] = path.split("/")[-1]
    return {"f": freqname(df.index.freq), "tz": tzname(df.index.tz), "u": uarr(df.index), "keys": keys, "m": m, "un": un, "col": col}


@line_op("names")
def _(a, S):
    L = S[a["a"]]

    def run():
        return {"iter": list(L), "items": [n for n, _ in L.items()], "len": len(L), "has": {n: n in L for n in a["ask"]}}
    return run, lambda v: v
