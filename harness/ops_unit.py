"""Calls on units and on the comparison of values with units (C36)."""
from __future__ import annotations

import pandas as pd
import pint
import pint_pandas

from core import Q_, call, fix, ix_of, mags, outcome, pf
from ops import op
from ops_line import val
from ops_tools import judged, labels

U = pf.tools.unit
Tst = pf.tools.testing


def ustr(u):
    return " * ".join(f"{n}**{k}" for n, k in u) if u else "dimensionless"


def ulist(u):
    return [[n, int(k)] for n, k in sorted(u._units.items())]


def cells(c):
    return [val(x) for x in c["m"]]


def column(c, lab):
    """The value a column stands for: a number, a quantity, or a series."""
    m, f = cells(c), c["form"]
    ix = lab[: len(m)]
    if f == "int":
        return int(m[0])
    if f == "float":
        return m[0]
    if f == "quantity":
        return Q_(m[0], ustr(c["u"][0]))
    if f == "ints":
        return pd.Series([int(x) for x in m], ix)
    if f == "floats":
        return pd.Series(m, ix, dtype=float)
    if f == "pint":
        return pd.Series(m, ix, dtype=f"pint[{ustr(c['u'][0])}]")
    if f == "objects":
        return pd.Series([Q_(x, ustr(u)) for x, u in zip(m, c["u"])], ix, dtype=object)
    if f == "text":
        return pd.Series([f"t{i}" for i in range(len(m))], ix)
    raise KeyError(f)


def build(e, cols="cols", names="names"):
    lab = labels(e["lab"], max(len(c["m"]) for c in e[cols]) if e[cols] else 1)
    if e["kind"] == "other":
        return {"none": None, "str": "12", "list": [1.0]}[e["what"]]
    if e["kind"] == "frame":
        return pd.DataFrame({n: column(c, lab) for n, c in zip(e[names], e[cols])})
    return column(e[cols][0], lab)


def p_col(x, lab):
    """A series or value as recorded column, and whether its labels are lab."""
    if isinstance(x, pd.Series):
        same = list(x.index) == list(lab)
        if isinstance(x.dtype, pint_pandas.PintType):
            return {"form": "pint", "m": [fix(v) for v in mags(x)], "u": [ulist(x.pint.units)] * len(x)}, same
        if x.dtype == object:
            return {"form": "object", "m": [fix(v.m) if isinstance(v, Q_) else fix(v) for v in x], "u": [ulist(v.units) if isinstance(v, Q_) else [] for v in x]}, same
        assert x.dtype == float, x.dtype
        return {"form": "plain", "m": [fix(v) for v in x], "u": [[]] * len(x)}, same
    if isinstance(x, Q_):
        return {"form": "pint", "m": [fix(x.m)], "u": [ulist(x.units)]}, True
    assert isinstance(x, float), type(x)
    return {"form": "plain", "m": [fix(x)], "u": [[]]}, True


def p_any(lab):
    def proj(x):
        if isinstance(x, pd.DataFrame):
            cs = [p_col(s, lab) for _, s in x.items()]
            return {"kind": "frame", "names": [str(c) for c in x.columns], "cols": [c for c, _ in cs], "ix": all(s for _, s in cs)}
        c, same = p_col(x, lab)
        return {"kind": "series" if isinstance(x, pd.Series) else "value", "names": [], "cols": [c], "ix": same}
    return proj


def lab_of(e):
    return labels(e["lab"], len(e["cols"][0]["m"]))[: len(e["cols"][0]["m"])] if e["cols"] else []


@op("unitname")
def _(a, S):
    return {"r": outcome(lambda: U.to_name(pf.Unit(ustr(a["u"]))), str)}


@op("nameunit")
def _(a, S):
    return {"r": outcome(lambda: U.from_name(a["name"]), ulist)}


@op("udefault")
def _(a, S):
    v = build(a)
    return judged(lambda: U.defaultunit(v), p_any(lab_of(a)), **({"v": v} if isinstance(v, (pd.Series, pd.DataFrame)) else {}))


@op("usplit")
def _(a, S):
    v = build(a)

    def proj(r):
        m, u = r
        if isinstance(u, pd.Series):
            x = pd.Series([Q_(a, b) for a, b in zip(m, u)], m.index, dtype=object)
            assert list(u.index) == list(m.index)
        elif u is None:
            assert isinstance(m, float) or not isinstance(m.dtype, pint_pandas.PintType)
            x = m
        else:
            x = m.astype(f"pint[{u}]") if isinstance(m, pd.Series) else Q_(m, u)
        return p_any(lab_of(a))(x)
    return judged(lambda: U.split_magn_unit(v), proj, **({"v": v} if isinstance(v, (pd.Series, pd.DataFrame)) else {}))


@op("uavoid")
def _(a, S):
    v = build(a)
    return judged(lambda: U.avoid_frame_of_objects(v), p_any(lab_of(a)), **({"v": v} if isinstance(v, (pd.Series, pd.DataFrame)) else {}))


@op("uclose")
def _(a, S):
    lab = labels("int", len(a["a"]["m"]))
    s, t = column(a["a"], lab), column(a["b"], lab)
    return judged(lambda: pf.tools.frame.series_allclose(s, t, **({"equal_nan": True} if a["nan"] else {})), bool, s=s, t=t)


@op("uassert")
def _(a, S):
    def side(ns, cs, lab):
        labs = labels(lab, len(cs[0]["m"]))
        if a["kind"] == "frame":
            return pd.DataFrame({n: column(c, labs) for n, c in zip(ns, cs)})
        return column(cs[0], labs)
    x, y = side(a["an"], a["as"], a["alab"]), side(a["bn"], a["bs"], a["blab"])
    fn = {"frame": Tst.assert_frame_equal, "series": Tst.assert_series_equal, "value": Tst.assert_value_equal}[a["kind"]]

    def run():
        try:
            fn(x, y)
            return True
        except AssertionError:
            return False
    return judged(run, bool, **({"x": x, "y": y} if a["kind"] != "value" else {}))


@op("icompat")
def _(a, S):
    x, y = (ix_of(a[k]["f"], a[k]["tz"], a[k]["u"]) for k in "ab")

    def run():
        try:
            Tst.assert_indices_compatible(x, y)
            return True
        except AssertionError:
            return False
    return {"r": outcome(run, bool)}
