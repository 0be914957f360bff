import hashlib, json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
CXX = "clang++-18"
FLAGS = ["-std=c++14", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fstandalone-debug", "-DNDEBUG", "-DEIGEN_DONT_VECTORIZE", "-fno-access-control",
         "-fno-exceptions-dummy", "-w"]
FLAGS.remove("-fno-exceptions-dummy")
INC = ["-I" + os.path.join(HERE, "stubs"), "-I" + os.path.join(HERE, "drivers"), "-I" + REPO + "/include", "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/opencv4"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def exporter():
    src = os.path.join(HERE, "engine", "irexport.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "irexport-" + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        cx = run(["llvm-config-18", "--cxxflags"]).split()
        ld = run(["llvm-config-18", "--ldflags", "--libs"]).split()
        tmp = out + ".%d" % os.getpid()
        run([CXX] + cx + ["-O1", src, "-o", tmp] + ld)
        os.rename(tmp, out)
    return out


def lp_library():
    src = os.path.join(HERE, "engine", "lp.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "lp-%s.so" % h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        run([CXX, "-std=c++14", "-O2", "-shared", "-fPIC", src, "-o", tmp, "-lgmp"])
        os.rename(tmp, out)
    return out


def compile_driver(src, outdir, extra=()):
    os.makedirs(outdir, exist_ok=True)
    bc = os.path.join(outdir, src.strip("/").replace("/", "_") + ".bc")
    run([CXX] + FLAGS + list(extra) + INC + ["-emit-llvm", "-c", src, "-o", bc])
    return bc


def flags(src):
    out = []
    for l in open(src):
        if l.startswith("//@model"):
            out.append("-I" + os.path.join(HERE, "stubs", l[3:].strip() or "model"))
        if l.startswith("//@flags "):
            out += l.split()[1:]
    return out


def sources(src):
    out = []
    for l in open(src):
        if l.startswith("//@src "):
            out += l.split()[1:]
    return out


def build_driver(src, outdir):
    """compile the driver and the repository sources it names; returns the exported module"""
    from concurrent.futures import ThreadPoolExecutor
    exporter()
    jobs = [src] + [os.path.join(REPO, x) for x in sources(src)]
    with ThreadPoolExecutor(8) as ex:
        fl = flags(src)
        bcs = list(ex.map(lambda f: compile_driver(f, outdir, fl), jobs))
    return export(bcs, os.path.join(outdir, os.path.basename(src) + ".json")), jobs


def export(bcs, out, inline=("Eigen::",)):
    run([exporter(), out] + list(bcs) + sum([["-inl", x] for x in inline], []))
    return out
