"""Calls that map data onto another year (C29)."""
from __future__ import annotations

import holidays
import numpy as np
import pandas as pd

from core import ix_of, mags, pf, freqname, tzname, uarr, u_of
from ops import op
from ops_line import canonical, line_op, p_line, unitname
from ops_peak import ixd, judged

T = pf.tools


def hols(country, years):
    """Holidays of a country in these years, independent of the code under test."""
    if country is None:
        return []
    out = []
    for y in sorted(set(years)):
        for d, n in sorted(getattr(holidays, country)(years=y).items()):
            if d.year == y:
                out.append({"y": d.year, "m": d.month, "d": d.day, "n": n})
    return out


def source(a, i):
    n = len(i)
    s = pd.Series(np.arange(1.0, n + 1), i)
    if a["obj"] == "series":
        return s
    if a["obj"] == "pint":
        return s.astype("pint[MW]")
    df = pd.DataFrame({"a": s, "b": 2 * s + 1})
    if a["obj"] == "dfpint":
        df = df.astype({"a": "pint[MW]", "b": "pint[Eur/MWh]"})
    return df


def rows_of(a, x):
    if a["obj"] in ("series", "pint"):
        assert isinstance(x, pd.Series) and unitname(x) == ("MW" if a["obj"] == "pint" else "none")
        return [int(v) if v == int(v) else -1 for v in mags(x)]
    assert isinstance(x, pd.DataFrame) and list(x.columns) == ["a", "b"]
    if a["obj"] == "dfpint":
        assert unitname(x["a"]) == "MW" and unitname(x["b"]) == "Eur/MWh"
    return [int(p) if p == int(p) and q == 2 * p + 1 else -1 for p, q in zip(mags(x["a"]), mags(x["b"]))]


@op("year")
def _(a, S):
    i = ixd(a["ix"])
    Y = T.changeyear
    if a["api"] == "index_with_year":
        return judged(lambda: Y.index_with_year(i, a["year"]), lambda r: {"u": uarr(r), "f": freqname(r.freq), "tz": tzname(r.tz)}, i=i)
    kw = {} if a.get("default") else {"holiday_country": a["hc"] or None}
    t = ixd(a["t"]) if a["to"] == "index" else None
    if a["api"] == "index":
        pos = {u: k + 1 for k, u in enumerate(uarr(i))}
        def proj(r):
            return {"u": uarr(r.index), "rows": [pos.get(u_of(pd.Timestamp(x)), -1) for x in r]}
        if a["to"] == "year":
            return judged(lambda: Y.map_index_to_year(i, a["year"], a["hc"] or None), proj, i=i)
        return judged(lambda: Y.map_index_to_index(i, t, **kw), proj, i=i, t=t)
    s = source(a, i)
    def projf(r):
        return {"u": uarr(r.index), "rows": rows_of(a, r)}
    if a["to"] == "year":
        return judged(lambda: Y.map_frame_to_year(s, a["year"], **kw), projf, s=s)
    return judged(lambda: Y.map_frame_to_index(s, t, **kw), projf, s=s, t=t)


@line_op("mapyear")
def _(a, S):
    L = S[a["a"]]
    return (lambda: pf.map_to_year(L, a["year"], a["hc"] or None) if a.get("pub", True) else pf.tools2.changeyear.map_to_year(L, a["year"], a["hc"] or None)), p_line


@op("charix")
def _(a, S):
    i = ixd(a["ix"])

    def proj(df):
        assert set(df.columns) == {"isoweekday", "yy", "mm", "dd", "holiday", "dst_change"}, df.columns
        return {"u": uarr(df.index), "wd": [int(x) for x in df["isoweekday"]], "date": [[int(y), int(m), int(d)] for y, m, d in zip(df["yy"], df["mm"], df["dd"])],
                "hol": [str(x) for x in df["holiday"]], "dst": [bool(x) for x in df["dst_change"]]}
    args = [] if a["default"] else [a["hc"]] if a["pos"] else []
    kw = {} if a["default"] or a["pos"] else {"holiday_country": a["hc"] or None}
    return judged(lambda: pf.characterize_index(i, *args, **kw), proj, i=i)
