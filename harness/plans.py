"""What each property's check runs: model-checking runs of the specification, scripts it generates, and recorded sessions."""
from __future__ import annotations

import importlib, json, os, random, re, time

from core import start_tlc, finish_tlc, tlc_error

GENS: dict[str, list] = {}      # property -> generator functions ctx -> iterable of sessions
MODELS: dict[str, list] = {}    # property -> [dict(module=, cfg=, thorough=, sim=(quick, thorough), depth=)]


def gen(*props):
    def deco(fn):
        for p in props:
            GENS.setdefault(p, []).append(fn)
        return fn
    return deco


def model(props, module, cfg, thorough=None, sim=None, depth=100, keep=None, mem="3g", convert=None, big=False):
    for p in props.split():
        MODELS.setdefault(p, []).append(dict(module=module, cfg=cfg, thorough=thorough, sim=sim, depth=depth, keep=keep, mem=mem, convert=convert, big=big))


class Ctx:
    def __init__(self, prop, seed, tier, k, K, scripts):
        self.prop, self.seed, self.tier, self.k, self.K, self.scripts = prop, seed, tier, k, K, scripts
        self.rng = random.Random(f"{prop}-{seed}-{k}")
        self.thorough = tier == "thorough"
        self.notes = {}
        self.scale = float(os.environ.get("VERIF_SCALE", "1"))     # for experiments
        self._i = -1

    def n(self, quick, thorough=None):
        """Number of random sessions for this worker."""
        t = (thorough or quick * 12) if self.thorough else quick
        return max(1, int(t * self.scale) // self.K)

    def mine(self):
        """Enumerated cases: is the next one this worker's?"""
        self._i += 1
        return self._i % self.K == self.k and (self.scale >= 1 or self.rng.random() < self.scale)


def sessions(ctx):
    for s in ctx.scripts[ctx.k::ctx.K]:
        yield s
    for g in GENS.get(ctx.prop, []):
        yield from g(ctx)


SCRIPT = re.compile(r'^<<"SCRIPT", "(.*)">>$', re.M)


def start_models(prop, tier, seed, work):
    out = []
    for j, m in enumerate(MODELS.get(prop, [])):
        d = work / f"model{j}"
        extra, workers = [], 4 if tier == "thorough" else 2
        cfg = m["thorough"] if tier == "thorough" and m["thorough"] else m["cfg"]
        if m["sim"]:
            n = m["sim"][tier == "thorough"]
            extra, workers = ["-simulate", f"num={n}", "-depth", str(m["depth"]), "-seed", str(seed)], 1
        module = m["module"] + ("Big" if cfg.endswith("_thorough") and m["big"] else "")     # the same laws, larger universe
        out.append((m, cfg, d, start_tlc(cfg + ".cfg", module, d, {}, workers=workers, mem=m["mem"] if tier == "quick" else "8g", extra=extra)))
    return out


SIMSTATS = re.compile(r"The number of states generated: (\d+)")


def finish_models(started):
    scripts, stats, problems = [], [], []
    for m, cfg, d, p in started:
        t0 = time.time()
        text, gen_, dist = finish_tlc(p, d, cfg)
        found = [json.loads(json.loads(f'"{s}"')) for s in SCRIPT.findall(text)]
        if m["sim"]:
            x = SIMSTATS.findall(text)
            gen_ = int(x[-1]) if x else 0
            dist = 0
            good = "Error:" not in text and x
        else:
            good = "Model checking completed. No error has been found." in text
        if not good:
            problems.append(f"model {cfg}: " + tlc_error(text))
        uniq = {json.dumps(s, sort_keys=True): s for s in found}
        ss = list(uniq.values())
        if m["convert"]:
            ss = [m["convert"](s) for s in ss]
        stats.append({"model": cfg, "generated": gen_, "distinct": dist, "scripts": len(ss)})
        scripts += ss
    return scripts, stats, problems


for mod in ("ops_time", "gen_time", "ops_line", "gen_line", "ops_state", "gen_state", "ops_tools", "gen_tools", "ops_peak", "gen_peak", "ops_years", "gen_years", "ops_text", "gen_text", "ops_plot", "gen_plot", "ops_unit", "gen_unit"):
    try:
        importlib.import_module(mod)
    except ModuleNotFoundError as e:
        if e.name != mod:
            raise
