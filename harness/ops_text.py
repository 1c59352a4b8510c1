"""Printed overviews (C34) and export to excel and the clipboard (C32): calling, reading back what was written."""
from __future__ import annotations

import contextlib, datetime, io, os, re, tempfile

import openpyxl
import pandas as pd

from core import fix, freqname, tzname, u_of, uarr
from ops_line import canonical, line_op

ANSI = re.compile(r"\x1b\[[0-9;]*m")
HEADER = re.compile(r"^([ │]*)[─├└][─●]─* (.+)$")
WIDTH = {"w": 12, "q": 11, "p": 11, "r": 13}
SAME = "(only contributor to parent data; has same values)"
PRE = 11      # width of the tree


# ------------------------------------------------------------------ text
def read_row(ln, cols):
    """A line of a data block: a timestamp and the values."""
    stamp, rest = ln[:25].strip(), ln[25:]
    if ln.split()[0] == "..":
        assert set(ln.split()) == {".."}, ln
        return {"u": 0, "v": {x: [0, -1] for x in cols}}
    v, pos = {}, 0
    fits = len(rest) == sum(WIDTH[x] + 1 for x in cols)
    for x in cols:
        w = WIDTH[x] + 1
        t = rest[pos:pos + w].strip()
        pos += w
        v[x] = [0, -3] if not fits else fix(t.replace(" ", "")) if t else [0, -1]      # -3: too large for the columns
    return {"u": u_of(pd.Timestamp(stamp)), "v": v}


def read_text(text, L, flat):
    out = {"what": "", "names": [], "kinds": [], "order": [], "blocks": {}}
    ll = ANSI.sub("", text).rstrip("\n").split("\n")
    m = re.match(r"^Pf(Line|State) object(?: with (\w+) information)?\.$", ll[0])
    out["what"] = m[2] or "state"
    m = re.match(r"^\. Start: (.*?) +\(incl\) +\. Timezone +: (.*?) *$", ll[1])
    out["start"], out["tz"] = u_of(pd.Timestamp(m[1])), m[2]
    m = re.match(r"^\. End  : (.*?) +\(excl\) +\. Start-of-day: (.*?) *$", ll[2])
    out["end"] = u_of(pd.Timestamp(m[1]))
    t = datetime.time.fromisoformat(m[2])
    out["sod"] = t.hour * 3600 + t.minute * 60 + t.second
    m = re.match(r"^\. Freq : .* \((\d+) datapoints\)$", ll[3])
    out["len"] = int(m[1])
    k = 4
    if ll[k].startswith(". Children: "):
        found = re.findall(r"'(.*?)' \((\w+)\)", ll[k])
        out["names"], out["kinds"] = [n for n, _ in found], [w for _, w in found]
        k += 1
    out["cols"], out["units"] = ll[k].split(), ll[k + 1].split()
    k += 2
    cols = out["cols"]
    if flat:
        assert ll[k] == ""
        out["order"], out["blocks"][""] = [""], {"d": 0, "same": False, "rows": [read_row(ln, cols) for ln in ll[k + 1:]]}
        return out
    path, here = [], None
    for ln in ll[k:]:
        m = HEADER.match(ln)
        if m and ln[:PRE].strip(" │"):
            d = len(m[1])
            path = [*path[:d], m[2]]
            here = "/".join(path)
            assert len(path) == d + 1
            out["order"].append(here)
            cc = ["w", "q"] if here.startswith("offtake") and out["what"] == "state" else cols
            out["blocks"][here] = {"d": d, "same": False, "rows": []}
        else:
            assert not ln[:PRE].strip(" │"), ln
            if ln[PRE:] == SAME:
                out["blocks"][here]["same"] = True
            else:
                out["blocks"][here]["rows"].append(read_row(ln[PRE:], cc))
    return out


def printed(L, a, **kw):
    if a["api"] == "repr":
        return repr(L)
    buf = io.StringIO()
    if a["k"] != 5 or not a["default"]:
        kw["num_of_ts"] = a["k"]
    if not a["color"]:
        kw["color"] = False
    with contextlib.redirect_stdout(buf):
        L.print(**kw)
    return buf.getvalue()


@line_op("text")
def _(a, S):
    L = S[a["a"]]
    kw = {"flatten": a["flat"]} if a["flat"] or not a["default"] else {}
    return (lambda: printed(L, a, **kw)), lambda t: read_text(t, L, a["flat"])


@line_op("stext")
def _(a, S):
    s = S[a["a"]]
    return (lambda: printed(s, a)), lambda t: read_text(t, s, False)


# ------------------------------------------------------------------ excel, clipboard
def wall(x):
    t = pd.Timestamp(x).round("s")
    assert t.tz is None
    return u_of(t)


def grid(rows):
    """Header rows (several levels, and the units), and data."""
    n = next(i for i, r in enumerate(rows) if stampish(r[0]))
    head, data = rows[:n], rows[n:]
    iu = next(i for i, r in enumerate(head) if r[0] == "unit")
    keys, m, un, col = [], {}, {}, {}
    for j in range(1, len(rows[0])):
        parts = [r[j] for r in head[:iu] if r[j] not in (None, "")]
        path = "/".join(parts)
        keys.append(path)
        m[path] = [fix(float("nan") if r[j] in (None, "") else float(r[j])) for r in data]
        un[path], col[path] = canonical(head[iu][j]), parts[-1]
    return {"wall": [wall(r[0]) for r in data], "keys": keys, "m": m, "un": un, "col": col}


def stampish(x):
    return isinstance(x, datetime.datetime) or (isinstance(x, str) and re.match(r"^\d{4}-\d\d-\d\d", x))


def to_excel(L, a):
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "x.xlsx")
        sheet = "Sheet1"
        if a["sheet"] == "kw":
            sheet = "data"
            L.to_excel(f, sheet_name=sheet)
        elif a["sheet"] == "pos":
            sheet = "data"
            L.to_excel(f, sheet)
        else:
            L.to_excel(f)
        ws = openpyxl.load_workbook(f)[sheet]
        rows = [list(r) for r in ws.iter_rows(values_only=True)]
        for rg in ws.merged_cells.ranges:
            for r in range(rg.min_row, rg.max_row + 1):
                for c in range(rg.min_col, rg.max_col + 1):
                    rows[r - 1][c - 1] = rows[rg.min_row - 1][rg.min_col - 1]
        return rows


def to_clipboard(L, a):
    import pandas.io.clipboard as cb

    texts, was = [], cb.clipboard_set
    cb.clipboard_set = texts.append       # there is no clipboard here
    try:
        if a["sheet"] == "kw":
            L.to_clipboard(sep="\t")
        elif a["sheet"] == "pos":
            L.to_clipboard(True)
        else:
            L.to_clipboard()
    finally:
        cb.clipboard_set = was
    assert len(texts) == 1
    return [ln.split("\t") for ln in texts[0].split("\n") if ln.strip()]


def export(a, S):
    L = S[a["a"]]
    return (lambda: (to_excel if a["to"] == "excel" else to_clipboard)(L, a)), grid


line_op("excel")(export)
line_op("sexcel")(export)
