"""Command line: decide one property from the current source of the repository.

python3 -m sa.check <PROPERTY> [--tier quick|thorough]
"""
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

from sa.registry import REG  # noqa: E402

KNOWN = os.path.join(VERIF, "known_findings.txt")
EXPECT = os.path.join(HERE, "expected.json")


def known(pid):
    """Entries 'finding: property=X | label=... | construct=... | text'."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("finding: "):
                continue
            parts = [p.strip() for p in line[len("finding: "):].split("|")]
            d = dict(p.split("=", 1) for p in parts[:4] if "=" in p)
            if d.get("property") == pid:
                d["text"] = parts[-1]
                out.append(d)
    return out


def unit_name(u):
    return f"{u[1]}.{u[2]}" + (".coroutines" if u[3].get("never") else "") if u[0] == "driver" else f"rule.{u[1]}"


def run_unit(arg):
    u, tier, end = arg
    t0 = time.time()
    res = {"unit": unit_name(u), "violations": [], "error": None}
    try:
        if u[0] == "rule":
            from sa import rules
            r = rules.run(u[1], u[3])
            res.update(r)
        else:
            from sa.explore import Explorer
            opts = dict(u[3])
            if tier == "thorough":
                opts.update(opts.get("tmin", {}))
                opts.setdefault("time_limit", 700)
                opts.setdefault("max_states", 400000)
                opts["max_violations"] = 12
            opts.setdefault("time_limit", 150)
            opts["deadline"] = end
            ex = Explorer([u[1]], opts)
            v = ex.explore(u[1], u[2])
            m = ex.m
            res["violations"] = v
            res["checks"] = dict(ex.checks)
            res["covers"] = dict(ex.covers)
            res["states"] = ex.stats["states"]
            res["segments"] = ex.stats["segments"]
            res["pruned"] = ex.stats["pruned"]
            res["ends"] = ex.stats["ends"]
            res["complete"] = ex.complete
            res["notes"] = ex.notes
            res["abandoned"] = ex.stats["abandoned"]
            res["abandoned_at"] = ex.abandoned
            res["functions"] = {f"{k[0]}:{k[2]} {k[1]}": n for k, n in m.funcs_seen.items()}
            res["lines"] = len(m.lines_seen)
            res["unknown"] = dict(m.unknown_used)
            if opts.get("never"):
                # this unit only serves to find coroutines that no path ever starts
                res["violations"] = [{"label": "an asynchronous call is forgotten", "detail": f"{a} is called, its coroutine is dropped without ever being awaited",
                                      "construct": f"{a} ({b}:{c})", "trail": []} for a, b, c in sorted(m.never_awaited)]
                res["checks"] = {}
            res["never_awaited"] = sorted(f"{a} ({b}:{c})" for a, b, c in m.never_awaited)
    except BaseException as e:  # reported as a broken analysis
        if type(e).__name__ == "ImportFails":
            desc, _, where = str(e).partition(" raised at ")
            res["violations"] = [{"label": "the modules of the library can be imported", "detail": desc, "construct": where, "trail": []}]
            res["wall"] = round(time.time() - t0, 2)
            return res
        res["error"] = f"{type(e).__name__}: {e}"
        from sa.core import PyExc
        if isinstance(e, PyExc):
            res["error"] = "analysed code raised outside a task"
        res["traceback"] = traceback.format_exc()[-1500:]
    res["wall"] = round(time.time() - t0, 2)
    return res


def construct_fn(c):
    return c.split(" (")[0] if c else ""


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    units = [u for u in REG[pid] if tier == "thorough" or not u[3].get("thorough")]
    with multiprocessing.get_context("fork").Pool(min(8, max(1, len(units))), maxtasksperchild=1) as pool:
        answers = [(u, pool.apply_async(run_unit, ((u, tier, t0 + 780),))) for u in units]
        results = []
        for u, a in answers:
            try:
                results.append(a.get(max(1, t0 + 860 - time.time())))
            except multiprocessing.TimeoutError:
                results.append({"unit": unit_name(u), "violations": [], "error": "the analysis of this unit did not end", "abandoned_at": [], "notes": []})
    expect = json.load(open(EXPECT)) if os.path.exists(EXPECT) else {}
    if "--learn" in argv:
        for r in results:
            expect[r["unit"]] = sorted(r.get("checks", {}))
        json.dump(expect, open(EXPECT, "w"), indent=0, sort_keys=True)
        open(EXPECT, "a").write("\n")
    viols, errors = [], []
    for r in results:
        if r["error"]:
            errors.append((r["unit"], r["error"], r.get("traceback", "")))
        for v in r["violations"]:
            v["unit"] = r["unit"]
            viols.append(v)
        if r["unit"].startswith("specs.") and not r["error"] and not r["violations"]:
            missing = [lab for lab in expect.get(r["unit"], []) if lab not in r["checks"]]
            if missing and not r.get("complete"):
                errors.append((r["unit"], "obligations not reached: " + "; ".join(missing), "\n".join(r["abandoned_at"] + r["notes"])))
                missing = []
            for lab in missing:
                if True:
                    viols.append({"unit": r["unit"], "label": f"a behaviour the property is about no longer occurs on any path: {lab}",
                                  "detail": "the obligation is never reached", "construct": r["unit"], "trail": []})
    kn = known(pid)
    new, listed = [], {}
    for v in viols:
        hit = None
        for k in kn:
            if k.get("label") == v["label"] and k.get("construct", "") in (construct_fn(v["construct"]), "*"):
                hit = k
                break
        if hit:
            listed[hit["text"]] = v
        else:
            new.append(v)
    nonvac = sum(len(r.get("checks", {})) for r in results) + sum(r.get("instances", 0) for r in results)
    write_evidence(pid, tier, seed, results, new, listed, time.time() - t0)
    for k in kn:
        if k["text"] in listed:
            print(f"KNOWN-FINDING: property={pid} {k['text']}")
    if new:
        rp = os.path.join(VERIF, "evidence", f"{pid}.violation.txt")
        with open(rp, "w") as fh:
            for v in new:
                fh.write(f"property {pid}: {v['label']}\n  detail: {v['detail']}\n  construct: {v['construct']}\n  decided by: {v['unit']}\n  path:\n")
                for s in v["trail"]:
                    fh.write(f"    {s}\n")
        for v in new[:5]:
            print(f"{pid}: {v['label']} -- {v['detail']} -- at {v['construct']} [{v['unit']}]")
            for s in v["trail"][-8:]:
                print("      " + s)
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if errors:
        for u, e, tb in errors:
            print(f"ANALYSIS-ERROR {u}: {e}\n{tb}")
        return 2
    if nonvac == 0:
        print("ANALYSIS-ERROR no obligation was evaluated")
        return 2
    for r in results:
        if r.get("abandoned"):
            print(f"NOTE {r['unit']}: {r['abandoned']} paths abandoned at constructs the analysis does not follow: {r['abandoned_at'][0]}")
    tot = sum(r.get("states", 0) for r in results)
    print(f"OK property={pid} tier={tier} units={len(results)} states={tot} obligations={nonvac} wall={time.time()-t0:.1f}s")
    return 0


def write_evidence(pid, tier, seed, results, new, listed, wall):
    funcs = {}
    checks = {}
    for r in results:
        for f, n in r.get("functions", {}).items():
            funcs[f] = funcs.get(f, 0) + n
        for c, n in r.get("checks", {}).items():
            checks[c] = checks.get(c, 0) + n
    cov = {
        "explanation": "Static analysis of the current source: abstract interpretation of the compiled form of every "
                       "function reached from the drivers below, to a fixpoint over canonical abstract states "
                       "(nothing of the repository is executed); rules are queries over syntax tree and call graph. "
                       "'obligations' counts the distinct obligations, 'evaluated' how often each was decided on a path.",
        "units": [{k: r.get(k) for k in ("unit", "states", "segments", "pruned", "ends", "complete", "lines", "instances",
                                         "notes", "abandoned", "abandoned_at", "unknown", "wall", "error", "sites") if r.get(k) is not None} for r in results],
        "obligations": len(checks) + sum(r.get("instances", 0) for r in results),
        "evaluated": checks,
        "functions_analysed": dict(sorted(funcs.items())[:150]),
        "known_findings": sorted(listed),
        "exhaustive": all(r.get("complete", True) for r in results),
    }
    never = sorted({x for r in results for x in r.get("never_awaited", [])})
    if never:
        cov["coroutines_seen_dropped"] = never
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(wall, 2),
          "violations": len(new),
          "assumptions": ["CPython 3.12 and asyncio behave as modelled in sa/machine.py, sa/natives.py, sa/models",
                          "drivers bound the number of operations in flight, not the length of histories"]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
