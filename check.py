#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--jobs N] [--only FN] [-v]

Decides one property: symbolic execution of /repo's current source over every
unit the property's harness lists, replay of every counterexample against the
plain (uninstrumented) code, evidence file, verdict."""
import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv("/opt/veriftools/pyvenv/bin/python", ["/opt/veriftools/pyvenv/bin/python"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
REPLAY = ["/opt/venv/bin/python", os.path.join(HERE, "replay.py")]
EVID = os.path.join(HERE, "evidence")


def worker(task):
    from sx import symctx
    mod, fn, params, prefix, slice_s, eager = task
    m = sys.modules["props." + mod]
    try:
        special = getattr(getattr(m, fn), "solver_unit", False)
        if special:
            return task, getattr(m, fn)(**params)
        return task, symctx.run_unit(getattr(m, fn), params, prefix, slice_s=slice_s, eager=eager)
    except Exception as e:  # engine failure: inconclusive, never a verdict
        import traceback
        return task, {"engine_failure": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-1500:]}


def replay(cases, timeout=300, per_case=30):
    """Run concrete cases against the real code; list of outcome dictionaries."""
    p = subprocess.run(REPLAY + ["--batch", "-", "--per-case", str(per_case)], input=json.dumps(cases),
                       capture_output=True, text=True, timeout=timeout, cwd="/")
    out = []
    for line in p.stdout.splitlines():
        if line.startswith("{"):
            out.append(json.loads(line))
    return out, p.stderr[-2000:]


def load_known(pid):
    """findings recorded but not repaired: lines `known: {json}`; `fixed:` lines suppress nothing"""
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                d = json.loads(line[7:])
                if d.get("property") == pid:
                    out.append(d)
    return out


def matches(k, case, msg):
    return k["fn"] == case["fn"] and all(case["params"].get(a) == b for a, b in k.get("params", {}).items()) \
        and k["msg"] == msg and all(case["inputs"].get(a) == b for a, b in k.get("inputs", {}).items())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 2))
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)

    from sx import symctx
    load_error = None
    try:
        symctx.setup(os.path.join(HERE, "props"))
        modname = importlib.import_module("props.index").MODULES[pid]
        m = importlib.import_module("props." + modname)
        spec = m.SPEC[pid]
        units = list(spec["cases"](a.tier))
    except Exception as e:
        import traceback
        load_error = traceback.format_exc()[-2000:]
        print(f"check {pid}: could not load the code under check: {e}", file=sys.stderr)
        print(load_error, file=sys.stderr)
        sys.exit(2)
    if a.only:
        units = [u for u in units if u[0] == a.only]
    budget = a.budget or spec.get("budget", {}).get(a.tier) or (420 if a.tier == "quick" else 3300)
    slice_s = 6.0 if a.tier == "quick" else 20.0
    known = load_known(pid)

    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
    import warnings
    warnings.simplefilter("ignore")
    pool = ProcessPoolExecutor(a.jobs, mp_context=mp.get_context("fork"))
    # big units first
    live = {}
    todo = [[modname, u[0], u[1], [], slice_s, True] for u in units]

    def submit(t):
        live[pool.submit(worker, t)] = t

    for t in todo:
        submit(t)
    stats, reached, funcs, notes = {}, {}, set(), {}
    unit_paths = {}
    samples, unreplayed, confirmed, knownhits, failures = [], [], None, {}, []
    replays_done = 0
    seen_msgs = {}
    tried = {}
    incomplete = 0
    pool_dead = False
    while live:
        left = budget - (time.time() - t0)
        if left <= 0:
            incomplete = len(live)
            break
        done, _ = wait(list(live), timeout=min(left, 5), return_when=FIRST_COMPLETED)
        for f in done:
            t = live.pop(f)
            try:
                _, r = f.result()
            except Exception as e:
                failures.append({"fn": t[1], "params": t[2], "error": f"worker died: {type(e).__name__}"})
                pool_dead = True
                continue
            if "engine_failure" in r:
                failures.append({"fn": t[1], "params": t[2], "error": r["engine_failure"], "tb": r["tb"]})
                continue
            for k, v in r["stats"].items():
                stats[k] = stats.get(k, 0) + v
            for k, v in r["reached"].items():
                reached[k] = reached.get(k, 0) + v
            for k, v in r["notes"].items():
                notes[k] = notes.get(k, 0) + v if isinstance(v, (int, float)) else v
            funcs.update(r["funcs"])
            key = (t[1], json.dumps(t[2], sort_keys=True, default=str))
            unit_paths[key] = unit_paths.get(key, 0) + r["stats"].get("paths", 0)
            for s in r["samples"]:
                samples.append({"mod": modname, "fn": t[1], "params": t[2], **s})
            if a.v:
                print(t[1], t[2], "paths", r["stats"].get("paths"), "pend", len(r["pending"]),
                      "viol", len(r["violations"]), f"{r['wall']:.1f}s", flush=True)
                for e in r["errors"][:3]:
                    print("   ", e)
            for v in r["violations"]:
                case = {"mod": modname, "fn": t[1], "params": t[2], "inputs": v["inputs"]}
                mk = (t[1], v["msg"])
                if v["inputs"] is None or tried.get(mk, 0) >= 12:
                    unreplayed.append({**case, "msg": v["msg"]})
                    continue
                tried[mk] = tried.get(mk, 0) + 1
                replays_done += 1
                try:
                    out, err = replay([case], per_case=v.get("timeout", 30))
                except subprocess.TimeoutExpired:
                    out, err = [{"outcome": "timeout"}], ""
                o = out[0] if out else {"outcome": "none", "err": err}
                if o["outcome"] == "violation":
                    hit = [k for k in known if matches(k, case, o["msg"])]
                    if hit:
                        knownhits[hit[0]["what"]] = knownhits.get(hit[0]["what"], 0) + 1
                        continue
                    confirmed = {**case, "msg": o["msg"], "solver_msg": v["msg"], "detail": o.get("detail")}
                    break
                unreplayed.append({**case, "msg": v["msg"], "replayed_as": o,
                                   "errors": r["errors"][:1]})
            if confirmed:
                break
            eager = sum(tried.values()) < 20
            for p in r["pending"]:
                submit([t[0], t[1], t[2], p, slice_s, eager])
        if confirmed or pool_dead:
            incomplete = len(live)
            break
    procs = list(pool._processes.values()) if pool._processes else []
    pool.shutdown(wait=False, cancel_futures=True)
    for p in procs:
        try:
            p.kill()
        except Exception:
            pass

    # cross-validation: sampled symbolic paths against the plain code
    agree, mismatch = 0, []
    if samples and not confirmed:
        step = max(1, len(samples) // (240 if a.tier == "quick" else 1200))
        pick = samples[::step]
        try:
            out, err = replay(pick, timeout=240)
        except subprocess.TimeoutExpired:
            out, err = [], "timeout"
        for s, o in zip(pick, out):
            if o["outcome"] == "violation":
                case = {k: s[k] for k in ("mod", "fn", "params", "inputs")}
                hit = [k for k in known if matches(k, case, o["msg"])]
                if hit:
                    knownhits[hit[0]["what"]] = knownhits.get(hit[0]["what"], 0) + 1
                    continue
                confirmed = {**case, "msg": o["msg"], "solver_msg": None, "detail": o.get("detail")}
                break
            if o["outcome"] == "ok" and o["obs"] == s["obs"] and o["reached"] == s["reached"]:
                agree += 1
            else:
                mismatch.append({"case": s, "got": o})
        if len(out) < len(pick):
            mismatch.append({"replay": "incomplete", "stderr": err})

    missing = sorted(set(spec.get("reach", ())) - set(reached))
    wall = time.time() - t0
    complete = not incomplete and not unreplayed and not failures and not notes.get("unknown_checks") \
        and not notes.get("unknown_branches") and not any(k.startswith("abort:") for k in notes)
    src = hashlib.sha256()
    for root, _, files in sorted(os.walk("/repo/pyown")):
        for fn in sorted(files):
            if fn.endswith(".py"):
                src.update(open(os.path.join(root, fn), "rb").read())
    ev = {
        "property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "wall_s": round(wall, 3),
        "violations": 1 if confirmed else 0,
        "assumptions": spec.get("assumptions", []),
        "coverage": {
            "explanation": "symbolic execution of the library source with every branch, assertion and "
                           "enumeration decided by z3 (QF_BV); 'exhaustive' means all paths of all units "
                           "were discharged within the stated bounds",
            "exhaustive": bool(complete and not confirmed),
            "bounds": spec["bounds"], "outside_bounds": spec.get("outside", ""),
            "units": len(units), "paths": stats.get("paths", 0), "paths_cut_by_assumption": stats.get("aborted", 0),
            "branch_decisions": stats.get("decisions", 0), "branches_forced": stats.get("forced", 0),
            "queries": stats.get("queries", 0), "queries_sat": stats.get("sat", 0),
            "queries_unsat": stats.get("unsat", 0), "queries_unknown": stats.get("unknown", 0),
            "solver_s": round(stats.get("solver_s", 0.0), 3),
            "assertions": stats.get("checks", 0), "assertions_proved_by_solver": stats.get("proved_checks", 0),
            "assertions_closed_by_constant_folding": stats.get("folded_checks", 0),
            "functions_encoded": sorted(f for f in funcs if f.startswith("pyown")),
            "library_functions_encoded": len([f for f in funcs if f.startswith("_sx")]),
            "source_sha256": src.hexdigest(),
            "reached": reached, "reach_missing": missing,
            "samples_cross_validated": agree, "sample_mismatches": mismatch[:5], "mismatch_count": len(mismatch),
            "replays": replays_done, "unreplayed": unreplayed[:8], "unreplayed_count": len(unreplayed),
            "engine_failures": failures[:8], "incomplete_units": incomplete, "notes": notes,
            "known_findings_seen": knownhits,
            "samples": [{k: s[k] for k in ("fn", "params", "inputs")} for s in samples[:8]],
        },
    }
    if confirmed:
        rp = os.path.join(EVID, f"{pid}.replay.json")
        json.dump(confirmed, open(rp, "w"), indent=1, default=str)
        ev["coverage"]["counterexample"] = confirmed
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1, default=str)
    for w in knownhits:
        print(f"KNOWN-FINDING: property={pid} {w}")
    print(f"{pid} {a.tier}: {len(units)} units, {stats.get('paths', 0)} paths, {stats.get('queries', 0)} queries, "
          f"solver {stats.get('solver_s', 0):.1f}s, wall {wall:.1f}s, "
          f"{'complete' if complete else 'INCOMPLETE'}; cross-validated {agree}, mismatches {len(mismatch)}, "
          f"unreplayed {len(unreplayed)}, failures {len(failures)}, unfinished {incomplete}"
          + (f", labels not reached: {missing}" if missing else ""))
    if a.v:
        for x in unreplayed[:5]:
            print("UNREPLAYED", json.dumps(x, default=str)[:1500])
        for x in mismatch[:5]:
            print("MISMATCH", json.dumps(x, default=str)[:1500])
        for x in failures[:5]:
            print("FAILURE", x.get("error"), x.get("fn"), x.get("params"), x.get("tb", ""))
    sys.stdout.flush()
    if confirmed:
        print(f"  {confirmed['msg']}")
        print(f"  {confirmed['fn']} {confirmed['params']} inputs={json.dumps(confirmed['inputs'])}")
        print(f"VIOLATION property={pid} replay={rp}")
        sys.stdout.flush()
        os._exit(1)
    os._exit(0)


if __name__ == "__main__":
    main()
