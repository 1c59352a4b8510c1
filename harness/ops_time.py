"""Calls on timestamps, frequencies and delivery-period indices (C20, C21, C22, C30)."""
from __future__ import annotations

import datetime as dt

import pandas as pd

from core import call, fix, freqname, ix_of, ixp, mags, outcome, pf, ts_of, tzname, u_of, uarr
from ops import op

T = pf.tools


def sodtime(sod):
    return None if sod is None or sod < 0 else dt.time(sod // 3600, sod % 3600 // 60, sod % 60)


def stamp(ts):
    assert isinstance(ts, pd.Timestamp)
    return {"tz": tzname(ts.tz), "u": u_of(ts)}


def ix(a):
    return ix_of(a["ix"]["f"], a["ix"]["tz"], a["ix"]["u"])


@op("floor")
def _(a, S):
    return {"r": outcome(T.floor.stamp, stamp, ts_of(a["u"], a["tz"]), a["f"], a["n"], sodtime(a["sod"]))}


@op("ceil")
def _(a, S):
    return {"r": outcome(T.ceil.stamp, stamp, ts_of(a["u"], a["tz"]), a["f"], a["n"], sodtime(a["sod"]))}


@op("right")
def _(a, S):
    return {"r": outcome(T.right.stamp, stamp, ts_of(a["u"], a["tz"]), a["f"])}


@op("isb")
def _(a, S):
    return {"r": outcome(T.isboundary.stamp, bool, ts_of(a["u"], a["tz"]), a["f"], sodtime(a["sod"]))}


def qty(q):
    return {"unit": f"{q.units:~P}", "m": fix(q.m)}


@op("dur")
def _(a, S):
    return {"r": outcome(T.duration.stamp, qty, ts_of(a["u"], a["tz"]), a["f"])}


@op("ixright")
def _(a, S):
    return {"r": outcome(lambda: T.right.index(ix(a)), ixp)}


@op("ixdur")
def _(a, S):
    def proj(s):
        return {"unit": f"{s.pint.units:~P}", "u": uarr(s.index), "m": [fix(v) for v in mags(s)]}
    return {"r": outcome(lambda: T.duration.index(ix(a)), proj)}


@op("ixisb")
def _(a, S):
    def proj(s):
        return {"u": uarr(s.index), "b": [bool(v) for v in s.values]}
    return {"r": outcome(lambda: T.isboundary.index(ix(a), a["f"]), proj)}


@op("trim")
def _(a, S):
    how = a.get("how", "index")
    if how == "index":
        return {"r": outcome(lambda: T.trim.index(ix(a), a["f"]), ixp)}

    def frame():
        i = ix(a)
        s = pd.Series([float(u % 9973) for u in a["ix"]["u"]], i)
        if how == "frame":
            s = pd.DataFrame({"a": s, "b": s})
        return T.trim.frame(s, a["f"])

    def proj(fr):
        s = fr if how == "series" else fr["b"]
        assert isinstance(fr, pd.Series if how == "series" else pd.DataFrame)
        us = uarr(s.index)
        assert [float(u % 9973) for u in us] == list(s.values), "values moved"
        return ixp(s.index)
    return {"r": outcome(frame, proj)}


@op("sodget")
def _(a, S):
    how = a.get("how", "time")

    def proj(v):
        if how == "str":
            h, m, s = v.split(":")
            return int(h) * 3600 + int(m) * 60 + int(s)
        if how == "timedelta":
            return int(v.total_seconds())
        return v.hour * 3600 + v.minute * 60 + v.second
    return {"r": outcome(lambda: T.startofday.get(ix(a), how), proj)}


@op("sodset")
def _(a, S):
    return {"r": outcome(lambda: T.startofday.set(ix(a), sodtime(a["sod"])), ixp)}


@op("rtl")
def _(a, S):
    def run():
        i = ix_of(a["ix"]["f"], a["ix"]["tz"], a["ru"])
        if not a["known"]:
            i.freq = None
        return T.righttoleft.index(i, a.get("how", "A"))
    return {"r": outcome(run, ixp)}


@op("updown")
def _(a, S):
    return {"r": outcome(T.freq.up_or_down, lambda v: str(int(v)), a["f"], a["g"])}


@op("extreme")
def _(a, S):
    return {"r": outcome(getattr(T.freq, a["which"]), str, *a["fs"])}


@op("longenough")
def _(a, S):
    w = a["which"]
    if w == "equal":
        return {"r": outcome(T.freq.assert_freq_equally_long, lambda v: "none", a["f"], a["g"])}
    fn = T.freq.assert_freq_sufficiently_long if w == "long" else T.freq.assert_freq_sufficiently_short
    return {"r": outcome(fn, lambda v: "none", a["f"], a["g"], a["strict"])}


@op("validfreq")
def _(a, S):
    return {"r": outcome(T.freq.assert_freq_valid, lambda v: "none", a["f"])}


@op("guess")
def _(a, S):
    def run():
        i = ix(a)
        i.freq = None
        if a.get("how") == "frame":
            return T.freq.guess_to_frame(pd.Series(1.0, i)).index
        return T.freq.guess_to_index(i)
    return {"r": outcome(run, ixp)}


@op("product")
def _(a, S):
    def proj(v):
        x, y = v
        return {"tz": [tzname(x.tz), tzname(y.tz)], "u": [u_of(x), u_of(y)]}
    return {"r": outcome(T.product.delivery_period, proj, ts_of(a["u"], a["tz"]), a["kind"], a["n"], sodtime(a["sod"]))}


def side(x, tz):
    """None, a timestamp, or something from which a timestamp can be made."""
    if x["t"] == "none":
        return None
    if x["t"] == "ts":
        return ts_of(x["u"], x["tz"])
    t = ts_of(x["w"], "none")
    if x["form"] == "date":
        return t.date()
    if x["form"] == "datetime":
        return t.to_pydatetime()
    if x["form"] == "np":
        return t.to_datetime64()
    return str(t.date()) if x["form"] == "short" and x["w"] % 86400 == 0 else str(t)


def lrargs(a):
    kw = {}
    if a["tz"] != "none" or a["full"]:
        kw["tz"] = None if a["tz"] == "none" else a["tz"]
    if a["sod"] >= 0 or a["full"]:
        kw["start_of_day"] = None if a["sod"] < 0 else sodtime(a["sod"])
    return kw


@op("leftright")
def _(a, S):
    now = lambda: u_of(pd.Timestamp.now(tz="UTC")) if a["tz"] != "none" else u_of(pd.Timestamp.now())  # noqa: E731
    before = now()

    def proj(v):
        x, y = v
        return {"tz": [tzname(x.tz), tzname(y.tz)], "u": [u_of(x), u_of(y)], "now": [before, now()]}
    return {"r": outcome(T.leftandright.stamps, proj, side(a["l"], a["tz"]), side(a["rr"], a["tz"]), **lrargs(a))}


@op("mkstamp")
def _(a, S):
    return {"r": outcome(T.stamp.create, lambda x: {"tz": tzname(x.tz), "u": u_of(x)}, side(a["l"], a["tz"]), **lrargs(a))}


@op("setfreq")
def _(a, S):
    i = ix(a)
    i.freq = None
    s = pd.Series(range(len(i)), i)
    if not a["dt"]:
        s = s.reset_index(drop=True)
    if a["how"] == "frame":
        s = pd.DataFrame({"a": s, "b": s})

    def proj(fr):
        x = fr if a["how"] == "series" else fr["b"]
        assert list(x) == list(range(len(i)))
        return ixp(fr.index)
    return {"r": outcome(lambda: T.freq.set_to_frame(s, a["f"]), proj)}


@op("fromtd")
def _(a, S):
    return {"r": outcome(lambda: T.freq.from_tdelta(pd.Timedelta(seconds=a["sec"])), freqname)}


@op("chgix")
def _(a, S):
    i = ix(a)
    return {"r": outcome(lambda: T.changefreq.index(i, a["f"]) if not a.get("default") else T.changefreq.index(i), ixp)}
