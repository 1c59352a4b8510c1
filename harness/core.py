"""Shared machinery: projection of real objects to specification values, event recording, TLC runs, verdicts."""
from __future__ import annotations

import contextlib, io, json, math, os, pathlib, re, shutil, signal, subprocess, sys, tempfile, time, traceback, warnings
from fractions import Fraction

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(0, str(REPO))
warnings.simplefilter("ignore")
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
import portfolyo as pf  # noqa: E402

assert pathlib.Path(pf.__file__).resolve().is_relative_to(REPO), pf.__file__

EPOCH = 946684800  # 2000-01-01T00:00Z, in unix seconds
Q_ = pf.Q_


# ------------------------------------------------------------------ projection
def u_of(ts: pd.Timestamp) -> int:
    """Instant (aware) or wall time (agnostic) in seconds since 2000-01-01."""
    v = ts.as_unit("ns").value
    return v // 10**9 - EPOCH


def ts_of(u: int, tz: str) -> pd.Timestamp:
    t = pd.Timestamp((u + EPOCH) * 10**9)
    return t if tz == "none" else t.tz_localize("UTC").tz_convert(tz)


def tzname(tz) -> str:
    return "none" if tz is None else str(tz)


def fix(x) -> list:
    """Float -> [ip, us] as explained in Rat.tla."""
    x = float(x)
    if math.isnan(x):
        return [0, -1]
    if math.isinf(x):
        return [0, -2]
    ip = math.floor(x)
    if abs(ip) > 2_000_000_000:
        return [0, -3]
    us = int((x - ip) * 1_000_000)
    return [ip, min(max(us, 0), 999_999)]


def rat(x) -> list:
    f = Fraction(x)
    return [f.numerator, f.denominator]


def uarr(i: pd.DatetimeIndex) -> list:
    return [int(v) for v in (i.as_unit("ns").asi8 // 10**9 - EPOCH)]


def freqname(freq) -> str:
    if freq is None:
        return "None"
    s = freq if isinstance(freq, str) else freq.freqstr
    return {"QS": "QS-JAN", "YS": "YS-JAN"}.get(s, s)


def ixp(i: pd.DatetimeIndex) -> dict:
    return {"f": freqname(i.freq), "tz": tzname(i.tz), "u": uarr(i)}


def ix_of(f: str, tz: str, us) -> pd.DatetimeIndex:
    """DatetimeIndex with given instants and frequency."""
    i = pd.DatetimeIndex([pd.Timestamp((u + EPOCH) * 10**9) for u in us])
    if tz != "none":
        i = i.tz_localize("UTC").tz_convert(tz)
    i.freq = None if f == "None" else f
    return i


def mags(s) -> np.ndarray:
    """Magnitudes of a (pint or float) series."""
    if hasattr(s, "pint") and str(s.dtype).startswith("pint"):
        return np.asarray(s.pint.magnitude, dtype=float)
    if s.dtype == object:
        return np.array([float(v.m) if hasattr(v, "m") else float(v) for v in s])
    return np.asarray(s, dtype=float)


def unit_of(s) -> str:
    d = str(s.dtype)
    return d[5:-1] if d.startswith("pint[") else "none"


class CallTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CallTimeout("call did not return")


def call(fn, *args, limit=120, **kw):
    """Run a library call. Returns ("ok", value) or ("err", exception class name)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return "ok", fn(*args, **kw)
    except Exception as e:  # noqa: BLE001
        return "err", f"{type(e).__name__}: {str(e)[:100]}"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def outcome(fn, project, *args, **kw) -> dict:
    """Result record {"t": "ok", "v": ...} | {"t": "err", "e": ...} | {"t": "bad", "e": ...}."""
    t, v = call(fn, *args, **kw)
    if t == "err":
        return {"t": "err", "e": v}
    try:
        return {"t": "ok", "v": project(v)}
    except Exception as e:  # noqa: BLE001  the value is not of the expected form
        return {"t": "bad", "e": f"{type(v).__name__}: {type(e).__name__}: {str(e)[:100]}"}


# ------------------------------------------------------------------ TLC
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def java(extra_mem="2g"):
    return ["java", f"-Xmx{extra_mem}", "-Xss128m", "-XX:+UseSerialGC", "-cp", JARS,
            f"-DTLA-Library={VERIF/'spec'}", "tlc2.TLC"]


def start_tlc(cfg: str, module: str, workdir: pathlib.Path, env: dict, workers=1, mem="2g", extra=()):
    """Start TLC on spec/<module>.tla with spec/<cfg>; returns the Popen object."""
    workdir.mkdir(parents=True, exist_ok=True)
    cmd = [*java(mem), "-workers", str(workers), "-deadlock", "-noGenerateSpecTE", "-metadir", str(workdir / "meta"),
           "-config", str(VERIF / "spec" / cfg), *extra, str(VERIF / "spec" / f"{module}.tla")]
    out = open(workdir / "tlc.out", "w")
    return subprocess.Popen(cmd, cwd=workdir, env={**os.environ, **env}, stdout=out, stderr=subprocess.STDOUT)


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


class MachineryError(RuntimeError):
    pass


def finish_tlc(p, workdir, what):
    f = workdir / "tlc.out"
    while True:                                        # a long error trace tells nothing: do not wait for it to be printed
        try:
            p.wait(timeout=0.5)
            break
        except subprocess.TimeoutExpired:
            if what == "trace" and "Error: The behavior up to this point is" in f.read_text():
                p.kill()
    text = (workdir / "tlc.out").read_text()
    m = STATS.findall(text)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return text, gen, dist


def tlc_error(text):
    """The telling part of TLC's output (behaviours and scripts left out)."""
    i = text.find("Error:")
    return "\n".join(ln[:300] for ln in text[i if i >= 0 else -1500:].splitlines()
                     if not ln.startswith(("/\\", "State ", "<<\"SCRIPT", "<<\"AT")))[:1500]
