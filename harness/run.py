"""Decide one property: python run.py C20 [--replay FILE]."""
from __future__ import annotations

import argparse, hashlib, importlib, json, multiprocessing as mp, os, pathlib, random, re, shutil, sys, tempfile, time, traceback

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import core  # noqa: E402
from core import VERIF, finish_tlc, start_tlc  # noqa: E402
from ops import execute  # noqa: E402
import plans  # noqa: E402

NPROC = int(os.environ.get("VERIF_NPROC", "8"))
UNK = re.compile(r'<<"UNK", (\d+), (\d+)>>')
REJ = re.compile(r'<<"REJECT", (\d+), "([^"]*)">>')


def chunk_dir(work, k):
    return pathlib.Path(work) / f"chunk{k}"


def validate(events, d, tries=4, unk=None):
    """Run Trace.tla on a list of events. Returns (rejects [(index, clause)], states, problem or None).

    A session whose recorded values the specification cannot even interpret is rejected as "undefined"; the others are
    validated without it."""
    d.mkdir(parents=True, exist_ok=True)
    (d / "trace.json").write_text(json.dumps(events, separators=(",", ":")))
    p = start_tlc("Trace.cfg", "Trace", d, {"VERIF_TRACE": str(d / "trace.json")}, mem="3g")
    text, gen, _ = finish_tlc(p, d, "trace")
    if unk is not None:
        unk[0] += sum(int(m[1]) for m in UNK.finditer(text))
    rej = [(int(m[1]) - 1, m[2]) for m in REJ.finditer(text)]
    if "Model checking completed. No error has been found." in text:
        return rej, gen, None
    at = re.findall(r'<<"AT", (\d+)>>', text)
    if tries == 0 or not at or not re.search("unexpected exception|Attempted to|evaluat|overridden|argument", text) or "OutOfMemory" in text:
        return rej, gen, core.tlc_error(text)
    i = int(at[-1]) - 1                                # the session that starts here cannot be interpreted
    j = i + 1
    while j < len(events) and events[j]["op"] != "begin":
        j += 1
    done = [r for r in rej if r[0] < i] + [(j - 1, "undefined")]
    if j >= len(events):
        return done, gen, None
    rest, gen2, problem = validate(events[j:], d, tries - 1, unk)
    return done + [(x + j, c) for x, c in rest], gen + gen2, problem


def worker(prop, seed, tier, k, K, work, scripts, q):
    try:
        t0 = time.time()
        d = chunk_dir(work, k)
        ctx = plans.Ctx(prop, seed, tier, k, K, scripts)
        events, starts, sessions = [], [], []
        n_err = 0
        seen = set()
        for ses in plans.sessions(ctx):
            starts.append(len(events))
            sessions.append(ses)
            ev = execute(ses)
            events += ev
            for e in ev[1:]:
                seen.add(hashlib.md5(json.dumps({x: y for x, y in e.items() if x not in ("r", "st")}, sort_keys=True).encode()).digest()[:8])
                n_err += isinstance(e.get("r"), dict) and e["r"].get("t") != "ok"
        t1 = time.time()
        unk = [0]
        rej, states, problem = validate(events, d, unk=unk) if events else ([], 0, None)
        out = {"k": k, "events": len(events) - len(sessions), "sessions": len(sessions), "states": states, "errs": n_err,
               "distinct": [s.hex() for s in seen], "problem": problem, "t_exec": t1 - t0, "t_tlc": time.time() - t1, "rejects": [],
               "ops": {}, "unk": unk[0], "values": count_values(events)}
        for e in events:
            if e["op"] != "begin":
                out["ops"][e["op"]] = out["ops"].get(e["op"], 0) + 1
        done = set()
        import bisect
        for i, clause in rej:
            s = bisect.bisect_right(starts, i) - 1
            if s in done:
                continue
            done.add(s)
            end = starts[s + 1] if s + 1 < len(starts) else len(events)
            if clause == "undefined":
                out["undefined"] = core.tlc_error((d / "tlc.out").read_text())
            out["rejects"].append({"clause": clause, "step": i - starts[s], "session": sessions[s], "events": events[starts[s]:min(end, i + 1)]})
        if sessions:
            s = len(sessions) // 2
            out["sample"] = events[starts[s]:starts[s] + 4]
        q.put(out)
    except Exception:  # noqa: BLE001
        q.put({"k": k, "crash": traceback.format_exc()})


def count_values(x):
    """Number of recorded floating-point values."""
    if isinstance(x, dict):
        return sum(count_values(v) for k, v in x.items() if k not in ("items", "ix", "u", "un", "nm"))
    if isinstance(x, list) and x and isinstance(x[0], (list, dict)):
        return len(x) if isinstance(x[0], list) else sum(count_values(v) for v in x)
    return 0


def known_findings(prop):
    out = []
    f = VERIF / "known_findings.txt"
    for line in (f.read_text().splitlines() if f.exists() else []):
        m = re.match(r"finding: property=(\S+) clause=(\S+) match=(\{.*?\}) :: (.*)", line)
        if m and m[1] == prop:
            out.append({"clause": m[2], "match": json.loads(m[3]), "what": m[4]})
    return out


def matches(finding, rej):
    if not re.fullmatch(finding["clause"], rej["clause"]):
        return False
    ev = rej["events"][-1]
    return all(ev.get(k) == v for k, v in finding["match"].items())


def shorten(x, n=400):
    s = json.dumps(x, separators=(",", ":"))
    return s if len(s) <= n else s[:n] + "..."


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--no-model", action="store_true", help="only the implementation (for experiments)")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.replay:
        ses = json.loads(pathlib.Path(a.replay).read_text())["session"]
        with tempfile.TemporaryDirectory(prefix="verif-") as w:
            ev = execute(ses)
            rej, _, problem = validate(ev, pathlib.Path(w))
        for e in ev[1:]:
            print(shorten(e, 1500))
        print(problem or "", rej)
        sys.exit(1 if rej or problem else 0)

    evid = VERIF / "evidence"
    evid.mkdir(exist_ok=True)
    rdir = evid / f"replay-{a.prop}"
    if rdir.exists():
        shutil.rmtree(rdir)
    work = tempfile.mkdtemp(prefix=f"verif-{a.prop}-")
    try:
        rc = decide(a, tier, pathlib.Path(work), evid, rdir, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(a, tier, work, evid, rdir, t0):
    prop = a.prop
    # 1. the design: model checking of the specification, and scripts generated from it
    models = [] if a.no_model else plans.start_models(prop, tier, a.seed, work)
    scripts, mstats, problems = plans.finish_models([m for m in models if m[0]["sim"]])
    # 2. the implementation: execute and record, then validate against the specification
    ctxmp = mp.get_context("fork")
    q = ctxmp.Queue()
    procs = [ctxmp.Process(target=worker, args=(prop, a.seed, tier, k, NPROC, str(work), scripts, q)) for k in range(NPROC)]
    for p in procs:
        p.start()
    outs = []
    while len(outs) < NPROC:
        try:
            outs.append(q.get(timeout=5))
        except Exception:  # queue.Empty
            got = {o["k"] for o in outs}
            for k, p in enumerate(procs):
                if k not in got and not p.is_alive() and q.empty():
                    outs.append({"k": k, "crash": f"worker {k} died with code {p.exitcode}"})
    for p in procs:
        p.join()
    _, laws, wrong = plans.finish_models([m for m in models if not m[0]["sim"]])     # ran alongside
    mstats += laws
    problems += wrong
    crashed = [o for o in outs if "crash" in o]
    problems += [o["crash"] for o in crashed]
    outs = [o for o in outs if "crash" not in o]
    problems += [o["problem"] for o in outs if o["problem"]]
    known = known_findings(prop)
    viols, found, seen = [], {}, {}
    for o in sorted(outs, key=lambda o: o["k"]):
        for r in o["rejects"]:
            hit = next((f for f in known if matches(f, r)), None)
            if hit:
                found[hit["what"]] = found.get(hit["what"], 0) + 1
            else:
                viols.append(r)
    for w, n in found.items():
        print(f"KNOWN-FINDING: property={prop} {w} ({n} times)")
    # report at most 3 sessions per violated clause, the shortest first
    viols.sort(key=lambda r: (len(json.dumps(r["session"])), json.dumps(r["session"])))
    n = 0
    for r in viols:
        c = seen[r["clause"]] = seen.get(r["clause"], 0) + 1
        if c > 2 or n >= 12:
            continue
        n += 1
        rdir.mkdir(parents=True, exist_ok=True)
        f = rdir / f"{n}.json"
        f.write_text(json.dumps({"property": prop, "clause": r["clause"], "step": r["step"], "session": r["session"], "events": r["events"],
                                 "how": f"./check.sh {prop} --replay {f}"}, indent=1))
        print(f"VIOLATION property={prop} replay={f}")
        if r["clause"] == "undefined" and a.v:
            print([o["undefined"] for o in outs if "undefined" in o][0])
        print(f"  clause {r['clause']}: {shorten(r['events'][-1])}")
    distinct = set()
    for o in outs:
        distinct.update(o["distinct"])
    ops = {}
    for o in outs:
        for x, y in o["ops"].items():
            ops[x] = ops.get(x, 0) + y
    ns = sum(o["sessions"] for o in outs)
    ne = sum(o["events"] for o in outs)
    tot_states = sum(m["distinct"] for m in mstats)
    tot_trans = sum(m["generated"] for m in mstats)
    lvl = "model_checking"
    cov = {"states": tot_states + sum(o["states"] for o in outs), "transitions": tot_trans + ne,
           "traces_validated_against_impl": ns, "impl_calls_judged": ne, "distinct_actions": len(distinct), "calls_by_action": ops,
           "recorded_values": sum(o["values"] for o in outs), "values_not_computable_in_spec": sum(o["unk"] for o in outs),
           "calls_refused_by_impl": sum(o["errs"] for o in outs), "model_runs": mstats, "scripts_from_spec": len(scripts),
           "clauses_violated": seen, "known_findings_seen": found,
           "samples": [json.loads(shorten_events(o["sample"])) for o in outs[:3] if "sample" in o] or [{"none": True}]}
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": lvl, "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    (evid / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    if a.v or os.environ.get("VERIF_VERBOSE"):
        print(f"{prop}: sessions {ns} events {ne} distinct {len(distinct)} errs {cov['calls_refused_by_impl']} models {mstats} "
              f"exec {max([o['t_exec'] for o in outs], default=0):.1f}s tlc {max([o['t_tlc'] for o in outs], default=0):.1f}s wall {ev['wall_s']}s")
        print(ops, seen)
    if viols:
        return 1
    if problems:
        print("CHECK-ERROR", problems[0][-3000:])
        return 2
    if ne == 0:
        print("CHECK-ERROR nothing was executed")
        return 2
    print(f"OK property={prop} sessions={ns} calls={ne} model_states={tot_states} wall={ev['wall_s']}s")
    return 0


def shorten_events(evs):
    def cut(x):
        if isinstance(x, list):
            return [cut(y) for y in x[:6]] + (["..."] if len(x) > 6 else [])
        if isinstance(x, dict):
            return {k: cut(v) for k, v in x.items()}
        return x
    return json.dumps(cut(evs))


if __name__ == "__main__":
    main()
