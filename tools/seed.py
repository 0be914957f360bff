#!/usr/bin/env python3
"""seed.py make SPEC.py [ID...] | test [ID...] | check [ID...]
make : create seeded/<id>/ from a spec (edits, demo source, meta)
test : patch applies, builds, passes the tests; demo passes before and fails after
check: run the property's quick check on the patched tree (must report the violation)
noop : run the demos on trees with behaviour preserving edits"""
import glob, json, os, shutil, subprocess, sys, runpy, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEED = os.path.join(ROOT, "seeded")


def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def brief(o):
    e = [l[:200] for l in o.splitlines() if "error" in l or "undefined" in l][:3]
    return " | ".join(e) or o[-200:]


def clean():
    rc, o = sh("git -C /repo status --porcelain --untracked-files=no")
    assert o.strip() == "", "repo not clean: " + o


DEMO = """#!/bin/bash
# exit 0: the property holds in this demonstration
set -e
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++14 -O0 -g -w %(flags)s -I"$here/stubs" -I/repo/include -isystem /usr/include/eigen3 "$here/demo.cpp" %(srcs)s -o "$tmp/demo" %(libs)s
cd "$tmp"
timeout 60 "$tmp/demo"
"""


def make(spec, only=()):
    ns = runpy.run_path(spec)
    bugs = [b for b in ns["BUGS"] if not only or b["id"] in only]
    for b in bugs:
        d = os.path.join(SEED, b["id"])
        clean()
        for f, old, new in b["edits"]:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("git -C /repo diff")
        sh("git -C /repo checkout -- .")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        shutil.copytree(os.path.join(ROOT, "tools", "demo_stubs"), os.path.join(d, "stubs"))
        open(os.path.join(d, "demo.cpp"), "w").write(b["demo"])
        q = os.path.join(d, "demo.sh")
        open(q, "w").write(DEMO % {"flags": b.get("flags", ""), "srcs": " ".join("/repo/" + x for x in b["srcs"]), "libs": b.get("libs", "")})
        os.chmod(q, 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", b["id"])
    return [b["id"] for b in bugs]


def demo(d):
    t = tempfile.mkdtemp()
    q = os.path.join(t, "d")
    shutil.copytree(d, q, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    try:
        return sh(["bash", os.path.join(q, "demo.sh")], cwd=REPO, timeout=300)
    finally:
        shutil.rmtree(t)


def ids(args):
    return args or sorted(os.listdir(SEED))


def test(args):
    ok = True
    for i in ids(args):
        d = os.path.join(SEED, i)
        clean()
        rc, o = demo(d)
        if rc:
            print(i, "DEMO FAILS ON CLEAN TREE", rc, brief(o))
            ok = False
            continue
        rc, o = sh(["git", "-C", REPO, "apply", os.path.join(d, "patch.diff")])
        if rc:
            print(i, "PATCH DOES NOT APPLY", o)
            ok = False
            continue
        try:
            r1, o1 = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed_o.json")
            tests = json.load(open("/tmp/seed_o.json"))
            r2, o2 = demo(d)
        finally:
            sh("git -C /repo checkout -- .")
        good = r1 == 0 and not tests["failed"] and tests["passed"] and r2 != 0 and "error:" not in o2
        ok = ok and good
        print(i, "ok" if good else "BAD", "build+tests rc %d" % r1, "demo rc %d" % r2, o2.strip()[-100:] if good else (o1[-300:] + brief(o2)))
    sh("bash /opt/vp/build.sh")
    return ok


def check(args):
    res = {}
    for i in ids(args):
        d = os.path.join(SEED, i)
        clean()
        m = json.load(open(os.path.join(d, "meta.json")))
        rc, o = sh(["git", "-C", REPO, "apply", os.path.join(d, "patch.diff")])
        if rc:
            print(i, "PATCH DOES NOT APPLY", o)
            continue
        try:
            rc, o = sh([sys.executable, os.path.join(ROOT, "engine", "check.py"), m["property"], "quick"], cwd=ROOT, timeout=1000)
        finally:
            sh("git -C /repo checkout -- .")
        hit = rc == 1 and "VIOLATION property=%s " % m["property"] in o
        first = [l for l in o.splitlines() if " in " in l or "ANALYSIS" in l][:1]
        print(i, m["property"], "CAUGHT" if hit else "missed rc=%d" % rc, first[0][:200] if first else o[-300:])
        res[i] = hit
        rp = os.path.join(ROOT, "tools", "seed_results.json")
        old = json.load(open(rp)) if os.path.exists(rp) else {}
        old[i] = "yes: " + first[0].split(" in ", 1)[-1][:90].replace("|", "/") if hit and first else "no"
        json.dump({k: old[k] for k in sorted(old) if os.path.isdir(os.path.join(SEED, k))}, open(rp, "w"), indent=1)
    return res


if __name__ == "__main__":
    if sys.argv[1] == "make":
        x = make(sys.argv[2], sys.argv[3:])
        test(x)
        check(x)
    elif sys.argv[1] == "test":
        test(sys.argv[2:])
    elif sys.argv[1] == "check":
        check(sys.argv[2:])
