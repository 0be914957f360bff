import sys, os, time, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vp import build, interp
src, fns = sys.argv[1], sys.argv[2:]
d = "/tmp/vp1-%s" % os.path.basename(src)
t0=time.time()
js, _ = build.build_driver(src, d)
P = interp.Program(js)
print("load %.1fs, %d functions" % (time.time()-t0, len(P.fns)))
for n in sorted(P.fns):
    if (n.startswith("drv_") or n in fns) and (not fns or n in fns) and P.fns[n].blocks:
        I = interp.Interp(P)
        t1=time.time()
        try:
            I.run_driver(n)
        except interp.EngineError as e:
            print(n, "ENGINE:", e)
        print("== %s %.1fs states=%d steps=%d paths=%d opaque=%s" % (n, time.time()-t1, I.nstates, I.nsteps, I.npaths, I.opaque))
        for k, o in I.obl.items():
            print("   ", "FAIL" if o["fail"] else "ok", k, o["ok"], len(o["fail"]))
            for f in o["fail"][:2]:
                print("        %s:%s %s :: %s" % (f["file"], f["line"], f["function"], f["formula"]))
                if os.environ.get("V"):
                    for x in f["path"]: print("           path", x)
                    for x in f["facts"]: print("           fact", x)
