#!/usr/bin/env python3
"""check.py <PROPERTY> : decide one property from /repo's current source.

exit 0: every obligation of the property is discharged
exit 1: VIOLATION property=<id> replay=<path>
exit 2: the analysis could not give an answer"""
import json
import multiprocessing as mp
import os
import re
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from vp import build, interp      # noqa: E402
from props import PROPS, ASSUMPTIONS          # noqa: E402

P = None
CFG = {}


def closure(prog, name):
    """functions written in the driver files that are reachable from a driver"""
    seen, work = set(), [name]
    msgs = set()
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        f = prog.fns.get(n)
        if f is None or not f.blocks:
            continue
        if not f.file.startswith(os.path.join(ROOT, "drivers")) and not f.file.startswith(os.path.join(ROOT, "stubs")):
            continue
        for b in f.blocks:
            for ins in b:
                if ins["op"] in ("call", "invoke") and ins.get("fn"):
                    c = ins["fn"]
                    if c in ("vp_assert", "vp_reach", "vp_must"):
                        k = 0 if c != "vp_assert" else 1
                        a = ins["args"][k]
                        if isinstance(a, dict) and a.get("k") == "g":
                            msgs.add((c[3:], a["n"]))
                    else:
                        work.append(c)
    return msgs


def run_one(args):
    name, tier = args
    t0 = time.time()
    I = interp.Interp(P)
    I.lim.max_time = CFG.get("max_time", 600)
    err = None
    try:
        I.run_driver(name)
    except interp.EngineError as e:
        err = str(e)
    except RecursionError:
        err = "recursion limit"
    except Exception:
        err = traceback.format_exc()
    expect = []
    for kind, g in closure(P, name):
        b = P.globals.get(g)
        m = I.M.cstr(interp.Ptr(b)) if b is not None else g
        expect.append((kind, m))
    return {"driver": name, "err": err, "obl": [(list(k) if isinstance(k, tuple) else [k], o) for k, o in I.obl.items()], "states": I.nstates, "steps": I.nsteps,
            "paths": I.npaths, "fns": sorted(I.fns_seen), "loops": len(I.loops_seen), "opaque": I.opaque, "expect": expect, "s": time.time() - t0}


def load_known():
    known = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) function=(.*?) rule=(.*?) :: (.*)$", l.strip())
            if m:
                known.append(m.groups())
    return known


def main():
    global P
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[pid]
    CFG.update(spec)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    errors, fails, results, sources = [], [], [], set()
    rules_done = []
    try:
        for drv in spec.get("drivers", []):
            src = os.path.join(ROOT, "drivers", drv)
            try:
                js, jobs = build.build_driver(src, work)
            except build.BuildError as e:
                errors.append("driver %s does not build against the current tree:\n%s" % (drv, e))
                continue
            sources.update(jobs)
            P = interp.Program(js)
            os.unlink(js)
            names = [n for n, f in P.fns.items() if f.blocks and (n.startswith("drv_") or (tier == "thorough" and n.startswith("drvt_")))]
            if not names:
                errors.append("no driver functions in " + drv)
            names.sort()
            with mp.get_context("fork").Pool(min(8, len(names) or 1)) as pool:
                for r in pool.imap_unordered(run_one, [(n, tier) for n in names]):
                    r["file"] = drv
                    if r["opaque"]:
                        r["opaque"] = dict(r["opaque"])
                    r["fn_dem"] = sorted({P.fns[x].dem for x in r["fns"] if P.fns[x].file.startswith(build.REPO)})
                    r["fns"] = len(r["fns"])
                    results.append(r)
        for rule in spec.get("rules", []):
            res = rule(work)
            rules_done.append(res)
            fails += res["fails"]
            errors += res["errors"]
            sources.update(res.get("sources", []))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    nobl = ndis = 0
    uniq = {}
    for r in results:
        if r["err"]:
            errors.append("%s: %s" % (r["driver"], r["err"]))
        seen = set()
        for k, o in r["obl"]:
            if o.get("reach"):
                seen.add(("reach", o["msg"]))
                continue
            if k[0] == "assert":
                seen.add(("assert", o["msg"]))
            n = o["ok"] + len(o["fail"])
            nobl += n
            ndis += o["ok"]
            uniq[(r["driver"],) + tuple(map(str, k))] = n
            if o["fail"]:
                f = dict(o["fail"][0])
                f["count"] = len(o["fail"])
                fails.append(f)
        if not r["err"]:
            for kind, m in r["expect"]:
                if kind == "must":
                    if ("reach", m) not in seen:
                        fails.append({"msg": "unreachable: " + m, "driver": r["driver"], "file": "drivers/" + r["file"], "line": 0, "function": r["driver"],
                                      "formula": "the point must be reachable", "path": [], "facts": [], "notes": [], "count": 1})
                elif (kind, m) not in seen:
                    errors.append("%s: %s point never reached: %s" % (r["driver"], kind, m))
    for r in rules_done:
        nobl += r["obligations"]
        ndis += r["obligations"] - len(r["fails"])
    known = load_known()
    bad, sup = [], []
    for f in fails:
        hit = None
        for kp, kf, kr, kd in known:
            if kp == pid and kf == f["function"] and kr == f["msg"]:
                hit = kd
        (sup if hit else bad).append((f, hit))
    fns = sorted({x for r in results for x in r["fn_dem"]})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "wall_s": round(time.time() - t0, 2), "violations": len(bad),
          "assumptions": ASSUMPTIONS + spec.get("assumptions", []),
          "coverage": {
              "explanation": "Abstract interpretation of the LLVM IR clang produces for /repo's current sources (value-numbering x linear-constraint domain, "
                             "trace partitioned, loops summarised by widening fixpoints). Every obligation below was derived from the current source on this run; nothing was executed.",
              "analysed_sources": sorted(os.path.relpath(x, "/") for x in sources),
              "repo_functions_analysed": len(fns), "repo_functions": fns[:400],
              "obligations": nobl, "discharged": ndis,
              "distinct_obligation_sites": len(uniq),
              "abstract_paths": sum(r["paths"] for r in results), "abstract_states": sum(r["states"] for r in results),
              "loops_summarised": sum(r["loops"] for r in results),
              "drivers": [{"driver": r["driver"], "file": r["file"], "paths": r["paths"], "seconds": round(r["s"], 2),
                           "sites": sorted({str(o["msg"])[:160] for k, o in r["obl"] if not o.get("reach")})[:60],
                           "opaque_calls": r["opaque"]} for r in results],
              "rules": [{k: v for k, v in r.items() if k not in ("fails", "errors", "sources")} for r in rules_done],
              "known_findings_suppressed": [h for _, h in sup],
              "analysis_errors": errors,
          }}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d functions, %d abstract paths, %.1fs" % (pid, nobl, ndis, len(fns), ev["coverage"]["abstract_paths"], ev["wall_s"]))
    for h in sorted({h for _, h in sup}):
        print("KNOWN-FINDING: property=%s %s" % (pid, h))
    if bad:
        rp = os.path.join(ROOT, "evidence", pid + ".violations.txt")
        with open(rp, "w") as out:
            for f, _ in bad:
                txt = "%s:%s in %s: %s [driver %s, %d path(s)]\n   not derivable: %s\n" % (f["file"], f["line"], f["function"], f["msg"], f["driver"], f.get("count", 1), f["formula"])
                out.write(txt)
                for x in f["path"]:
                    out.write("      path  %s\n" % x)
                for x in f["facts"]:
                    out.write("      fact  %s\n" % x)
                for x in f["notes"]:
                    out.write("      note  %s\n" % x)
                print(txt, end="")
        for e in errors:
            print("analysis: " + e[-1500:])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        for e in errors:
            print("ANALYSIS-INCOMPLETE: " + e[-3000:])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
