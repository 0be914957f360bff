"""Abstract interpreter over LLVM IR.

Domain: value-numbering terms x polyhedral branch facts, partitioned by trace;
loops are summarised by a widening fixpoint (induction steps, invariant flags,
inductive candidate facts), calls are analysed in context by inlining.  No code
is run and no solver is called."""
import json
import os
import re
import sys
import time
from fractions import Fraction
from . import terms as t
from .terms import (Poly, Ptr, Base, Undef, Agg, ZERO, ONE, NULL, NULLBASE, T, F, num, pa, add, sub, mul, neg, scale,
                    f_le, f_lt, f_eq, f_ne, f_not, f_and, f_or, b2i, p2b, Stamp, atom, fresh, sym_base, vtime, ptr_eq)
from .poly import implied, consistent_with

SIZES = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "ptr": 8, "fp80": 16, "i128": 16}


class EngineError(Exception):
    """the analysis cannot give an answer"""


class Fn:
    def __init__(self, j):
        self.name = j["n"]
        self.dem = j["d"]
        self.ret = j["ret"]
        self.file = j.get("file", "")
        self.line = j.get("line", 0)
        self.args = j["args"]
        self.noret = j.get("noret", False)
        self.blocks = j.get("blocks")
        self.loops = {}
        for l in j.get("loops", []):
            self.loops[l["h"]] = frozenset(l["b"])
        self.qn = qualname(self.dem)
        if self.blocks:
            for b in self.blocks:
                for i in b:
                    i["F"] = self


    def live(self, block, idx):
        """registers that may still be read from this place on"""
        key = (block, idx)
        c = self.__dict__.setdefault("_live", {})
        r = c.get(key)
        if r is None:
            if "_lout" not in self.__dict__:
                self._liveness()
            r = set(self._lout[block])
            for ins in reversed(self.blocks[block][idx:]):
                r.discard(ins.get("id"))
                if ins["op"] != "phi":
                    r |= _uses(ins)
            c[key] = r
        return r

    def _liveness(self):
        n = len(self.blocks)
        succ = []
        gen, kill = [], []
        edge = [set() for _ in range(n)]
        for b in self.blocks:
            t = b[-1]
            sc = list(t.get("to", [])) + [t[k] for k in ("ok", "ex") if k in t]
            if not sc and t["op"] not in ("ret", "unreachable", "resume"):
                raise EngineError("unknown terminator " + t["op"])
            succ.append(sc)
            g = set()
            k = set()
            for ins in b:
                if ins["op"] == "phi":
                    for src, v in ins["in"]:
                        if type(v) is int:
                            edge[src].add(v)
                else:
                    g |= _uses(ins) - k
                k.add(ins.get("id"))
            gen.append(g)
            kill.append(k)
        out = [set(e) for e in edge]
        todo = True
        while todo:
            todo = False
            for i in range(n - 1, -1, -1):
                o = set(edge[i])
                for x in succ[i]:
                    o |= gen[x] | (out[x] - kill[x])
                if o != out[i]:
                    out[i] = o
                    todo = True
        self._lout = out


def _uses(ins):
    u = set()
    for k in ("ops", "args"):
        for v in ins.get(k, ()):
            if type(v) is int:
                u.add(v)
    for k in ("base", "fp", "c"):
        if type(ins.get(k)) is int and not (k == "c" and ins["op"] != "br"):
            u.add(ins[k])
    for v in ins.get("vo", ()):
        if type(v[0]) is int:
            u.add(v[0])
    return u


_qn = {}


def qualname(d):
    """demangled name without return type, template args and parameters"""
    r = _qn.get(d)
    if r is not None:
        return r
    out = []
    depth = 0
    i = 0
    s = d
    # protect operators
    s = s.replace("operator<<", "operator@LL").replace("operator>>", "operator@RR").replace("operator->*", "operator@PM").replace("operator->", "operator@AR")
    s = s.replace("operator<=", "operator@LE").replace("operator>=", "operator@GE").replace("operator<", "operator@LT").replace("operator>", "operator@GT").replace("operator()", "operator@CALL")
    s = s.replace("(anonymous namespace)", "@anon")
    for ch in s:
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif depth == 0:
            if ch == "(":
                break
            out.append(ch)
    q = "".join(out).strip()
    # drop the return type
    m = re.search(r"operator@?[A-Za-z]* ?.*$", q)
    if "operator" in q:
        k = q.index("operator")
        pre = q[:k]
        sp = pre.rfind(" ")
        q = pre[sp + 1:] + q[k:]
    else:
        q = q[q.rfind(" ") + 1:]
    q = q.replace("@LL", "<<").replace("@RR", ">>").replace("@PM", "->*").replace("@AR", "->").replace("@LE", "<=").replace("@GE", ">=").replace("@LT", "<").replace("@GT", ">").replace("@CALL", "()").replace("std::__cxx11::", "std::")
    q = q.replace("[abi:cxx11]", "")
    _qn[d] = q
    return q


class Program:
    def __init__(self, path):
        with open(path, encoding="latin-1") as f:
            j = json.load(f)
        self.fns = {}
        for x in j["functions"]:
            f = Fn(x)
            self.fns[f.name] = f
        self.globals = {}
        self.ginit = {}
        self.gdem = {}
        self.gsize = {}
        for g in j["globals"]:
            b = Base("global", g["d"], size=num(g["size"]), info=g["n"])
            b.const = g["const"]
            self.globals[g["n"]] = b
            self.gdem[g["n"]] = g["d"]
            if "init" in g:
                self.ginit[b] = {o: (sz, ty, c) for o, sz, ty, c in g["init"]}
        self.fnbase = {}
        self.tb = {}
        for x in j["tbaa"]:
            self.tb[x["id"]] = (x["name"], x["m"])
        self._tbc = {}
        self.types = j.get("types", {})

    def fnptr(self, name):
        b = self.fnbase.get(name)
        if b is None:
            b = Base("fn", name, info=name)
            self.fnbase[name] = b
        return Ptr(b)

    def const(self, c):
        k = c["k"]
        if k == "i":
            v = int(c["v"])
            if c["t"] == "i1":
                return T if v else F
            return num(v)
        if k == "f":
            return t.from_float(float.fromhex(c["v"]) if "inf" not in c["v"] and "nan" not in c["v"] else float(c["v"]))
        if k == "p":
            return Ptr(NULLBASE, num(c["o"]))
        if k == "g":
            n = c["n"]
            if n in self.fns:
                return self.fnptr(n)
            return Ptr(self.globals[n], num(c["o"]))
        if k == "gi":
            n = c["n"]
            g = self.fnptr(n) if n in self.fns else Ptr(self.globals[n], ZERO)
            return add(pa(atom("p2i", (g,), "int")), num(c["o"]))
        if k == "u":
            return Undef("undef")
        if k == "z":
            ty = c["t"]
            if ty in ("struct", "array", "vector"):
                return Agg([ZERO] * 16)
            return zero(ty)
        if k == "a":
            return Agg([self.const(x) for x in c["e"]])
        if k == "m":
            return Undef("md")
        return Undef("const " + str(c))

    # ------------------------------------------------ TBAA
    def tb_alias(self, a, b):
        if a is None or b is None:
            return True
        key = (tuple(a), tuple(b))
        r = self._tbc.get(key)
        if r is None:
            r = self._tbc[key] = self._tb_alias(a, b)
        return r

    def _name(self, i):
        return self.tb[i][0] if i in self.tb else ""

    def _tb_alias(self, a, b):
        (ba, aa, oa), (bb, ab, ob) = a, b
        na, nb = self._name(aa), self._name(ab)
        if "omnipotent char" in (na, nb):
            return True
        if na != nb:
            return False
        # same access type: field (base, off) vs field (base, off)
        if ba == aa or bb == ab:
            return True     # plain scalar access
        if ba == bb:
            return oa == ob
        return self._contains(ba, oa, bb, ob) or self._contains(bb, ob, ba, oa)

    def _contains(self, outer, off, inner, ioff):
        """does the member of `outer` at `off` lie in a nested `inner` at ioff?"""
        if outer == inner:
            return off == ioff
        best = None
        for m, o in self.tb.get(outer, ("", []))[1]:
            if o <= off:
                best = (m, o)
                # several members may share an offset (bases)
                if m != outer and self._contains(m, off - o, inner, ioff):
                    return True
        return False


def zero(ty):
    if ty == "ptr":
        return NULL
    if ty == "i1":
        return F
    return ZERO


class Frame:
    __slots__ = ("fn", "regs", "block", "idx", "prev", "ret", "uid")

    def __init__(self, fn, uid):
        self.fn = fn
        self.regs = {}
        self.block = 0
        self.idx = 0
        self.prev = -1
        self.ret = None
        self.uid = uid

    def copy(self):
        f = Frame(self.fn, self.uid)
        f.regs = dict(self.regs)
        f.block = self.block
        f.idx = self.idx
        f.prev = self.prev
        f.ret = self.ret
        return f


class Obj:
    __slots__ = ("cells", "log", "own", "fills")

    def __init__(self, own):
        self.cells = {}     # off Poly (or (off, tag)) -> (size, val, written)
        self.log = []       # (ver, off|None, size, tb)
        self.fills = []     # (ver, off, size|None, kind, data)
        self.own = own

    def copy(self, own):
        o = Obj(own)
        o.cells = dict(self.cells)
        o.log = list(self.log)
        o.fills = list(self.fills)
        return o


class Mem:
    __slots__ = ("objs", "slog", "tok")

    def __init__(self):
        self.objs = {}
        self.slog = []      # stores through symbolic bases: (ver, base, off, size, tb)
        self.tok = object()

    def clone(self):
        m = Mem()
        m.objs = dict(self.objs)
        m.slog = list(self.slog)
        self.tok = object()
        return m

    def rd(self, b):
        return self.objs.get(b)

    def wr(self, b):
        o = self.objs.get(b)
        if o is None:
            o = Obj(self.tok)
            self.objs[b] = o
        elif o.own is not self.tok:
            o = o.copy(self.tok)
            self.objs[b] = o
        return o


class State:
    __slots__ = ("frames", "mem", "facts", "fset", "trail", "pending", "open", "dead", "notes", "exc", "lits")

    def __init__(self):
        self.frames = []
        self.mem = Mem()
        self.facts = []
        self.fset = set()
        self.trail = []
        self.pending = None
        self.dead = False
        self.open = False
        self.notes = []
        self.exc = None
        self.lits = []

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = self.mem.clone()
        s.facts = list(self.facts)
        s.fset = set(self.fset)
        s.trail = list(self.trail)
        s.pending = self.pending
        s.notes = list(self.notes)
        s.exc = self.exc
        s.lits = list(self.lits)
        s.open = self.open
        return s

    def assume(self, f):
        if f[0] == "T":
            return
        if f[0] == "and":
            for g in f[1]:
                self.assume(g)
            return
        if f in self.fset:
            return
        self.fset.add(f)
        self.facts.append(f)


class Region:
    __slots__ = ("depth", "header", "blocks")

    def __init__(self, depth, header, blocks):
        self.depth = depth
        self.header = header
        self.blocks = blocks


class AllBlocks:
    def __contains__(self, b):
        return True


class Limits:
    def __init__(self):
        self.max_states = 6000000
        self.max_time = 780
        self.max_depth = 60
        self.unroll = 9
        self.unroll_states = 40
        self.insist = False     # unroll loops that are left early, too
        self.max_iter = 14


class Interp:
    def __init__(self, prog, repo="/repo"):
        self.p = prog
        self.repo = repo
        self.lim = Limits()
        self.models = []
        self.model_cache = {}
        self.reset()
        from . import models
        self.M = models.Models(self)

    def reset(self):
        self.obl = {}       # key -> {'ok':n,'fail':[...]}
        self.nstates = 0
        self.nsteps = 0
        self.npaths = 0
        self.fns_seen = {}
        self.opaque = {}
        self.loops_seen = {}
        self.t0 = time.time()
        self.check_bounds = False
        self.check_undef = False
        self.driver = ""
        self.uid = 0
        self.facts_used = 0
        self.stop_fns = set()
        self.keep_files = set()

    # ------------------------------------------------------------ obligations
    def obl_begin(self):
        saved = self.obl
        self.obl = {}
        return saved

    def obl_drop(self, saved):
        """obligations met while a loop summary was still being sought do not count"""
        self.obl = saved

    def obl_commit(self, saved):
        for k, o in self.obl.items():
            q = saved.get(k)
            if q is None:
                saved[k] = o
            else:
                q["ok"] += o["ok"]
                q["fail"] += o["fail"]
        self.obl = saved

    def where(self, s):
        """innermost repo location"""
        for fr in reversed(s.frames):
            ins = self.cur_ins(fr)
            f = ins.get("f") or fr.fn.file if ins else fr.fn.file
            l = ins.get("l", 0) if ins else 0
            if f and f.startswith(self.repo + "/"):
                return f[len(self.repo) + 1:], l, fr.fn.qn
        fr = s.frames[-1] if s.frames else None
        if fr is None:
            return "?", 0, "?"
        ins = self.cur_ins(fr)
        return (fr.fn.file, ins.get("l", 0) if ins else 0, fr.fn.qn)

    def cur_ins(self, fr):
        b = fr.fn.blocks[fr.block]
        i = min(max(fr.idx, 0), len(b) - 1)
        return b[i]

    def oblige(self, s, key, f, msg, assume=True):
        o = self.obl.setdefault(key, {"ok": 0, "fail": [], "msg": msg})
        if f[0] == "T" or implied(s.facts, f):
            o["ok"] += 1
            r = True
        else:
            o["fail"].append(self.report(s, msg, f))
            r = False
        if assume:
            if f[0] == "F":
                s.dead = True
            else:
                s.assume(f)
        return r

    def report(self, s, msg, f):
        file, line, fn = self.where(s)
        tr = []
        for x in s.trail:
            if not tr or tr[-1] != x:
                tr.append(x)
        return {"msg": msg, "driver": self.driver, "file": file, "line": line, "function": fn, "formula": t.showf(f)[:600],
                "path": ["%s:%d %s" % (a, b, c) for a, b, c in tr[-25:]],
                "facts": [t.showf(x)[:200] for x in s.facts[-30:]], "notes": s.notes[-8:]}

    # ------------------------------------------------------------ memory
    def disjoint(self, facts, o1, s1, o2, s2):
        if o1 is None or o2 is None or s1 is None or s2 is None:
            return False
        d = sub(o1, o2)
        c = d.cval()
        if c is not None:
            return c >= s2 or -c >= s1
        # common stride with different residue
        g = 0
        from math import gcd
        ok = True
        for m, k in d.t.items():
            if m == ():
                continue
            if isinstance(k, Fraction) or not Poly({m: 1}).is_int():
                ok = False
                break
            g = gcd(g, abs(k))
        if ok and g > 1:
            r = d.const() % g
            # intervals [r, r+s1) and [0, s2) mod g
            if r >= s2 and r + s1 <= g:
                return True
        if ok and g == s1 == s2 == 1:
            return implied(facts, f_ne(d), 3)
        if ok and g > 1:
            # d = g*q + r: records of size g, fields at residues; overlap needs the same record
            if r + s1 <= g and s2 <= g:
                if implied(facts, f_ne(mul(num(Fraction(1, g)), sub(d, num(r)))), 3):
                    return True
                return False
            if g - r + s2 <= g and s1 <= g:
                # seen from the other side
                if implied(facts, f_ne(mul(num(Fraction(1, g)), add(d, num(g - r)))), 3):
                    return True
                return False
        return implied(facts, f_le(sub(num(s2), d)), 1) or implied(facts, f_le(add(d, num(s1))), 1)

    def bases_distinct(self, s, b1, b2):
        if b1 is b2:
            return False
        if t.identified(b1) or t.identified(b2):
            return True
        i1 = b1.info[0] if isinstance(b1.info, tuple) else None
        i2 = b2.info[0] if isinstance(b2.info, tuple) else None
        if i1 in ("data", "arg", "opq") or i2 in ("data", "arg", "opq"):
            return True
        f = ptr_eq(Ptr(b1), Ptr(b2))
        return f_not(f) in s.fset

    def mem_load(self, s, ptr, size, ty, tb=None, raw=False):
        if isinstance(ptr, Undef):
            return self.undef_ptr(s, "load")
        b, off = ptr.base, ptr.off
        o = s.mem.rd(b)
        if o is not None:
            c = o.cells.get(off)
            if c is not None:
                if c[0] == size:
                    return self.conv(c[1], ty)
                v = self.partial(s, o, off, size, ty)
                if v is not None:
                    return v
            elif o.cells:
                v = self.partial(s, o, off, size, ty)
                if v is not None:
                    return v
                # symbolic equality of offsets
                if not off.is_const():
                    for k, cc in o.cells.items():
                        if isinstance(k, Poly) and cc[0] == size and not k.is_const() and implied(s.facts, f_eq(sub(k, off)), 1):
                            return self.conv(cc[1], ty)
                elif any(isinstance(k, Poly) and not k.is_const() for k in o.cells):
                    for k, cc in o.cells.items():
                        if isinstance(k, Poly) and cc[0] == size and not k.is_const() and implied(s.facts, f_eq(sub(k, off)), 1):
                            return self.conv(cc[1], ty)
        v = self.initial(s, b, off, size, ty, tb)
        if raw:
            return v
        if not (b.kind == "global" and b.const):
            s.mem.wr(b).cells[off] = (size, v, False)
        return v

    def partial(self, s, o, off, size, ty):
        """loads that split or join neighbouring cells (struct returned in a register)"""
        if not off.is_const():
            return None
        k = off.cval()
        if size == 8 and ty in ("i64", "double"):
            a = o.cells.get(off)
            b = o.cells.get(num(k + 4))
            if a and b and a[0] == 4 and b[0] == 4:
                return pa(atom("concat", (a[1], b[1]), "int"))
            return None
        if size == 4:
            a = o.cells.get(off)
            if a and a[0] == 8 and isinstance(a[1], Poly):
                return self.split(a[1], 0, ty)
            a = o.cells.get(num(k - 4))
            if a and a[0] == 8 and isinstance(a[1], Poly):
                return self.split(a[1], 1, ty)
        if size == 1:
            for d in range(0, 8):
                a = o.cells.get(num(k - d))
                if a and a[0] > d and a[0] in (4, 8) and isinstance(a[1], Poly):
                    return pa(atom("byte", (a[1], num(d)), "int"))
        return None

    def split(self, v, hi, ty):
        a = v.single_atom()
        if a is not None and a.kind == "concat":
            return self.conv(a.args[hi], ty)
        if v.cval() is not None:
            c = int(v.cval())
            return num((c >> 32) if hi else ((c & 0xffffffff) ^ 0x80000000) - 0x80000000)
        return pa(atom("half", (v, num(hi)), "real" if ty == "float" else "int"))

    def conv(self, v, ty):
        if isinstance(v, Undef):
            return v
        if ty == "ptr":
            if isinstance(v, Poly):
                if v.cval() == 0:
                    return NULL
                a = v.single_atom()
                if a is not None and a.kind == "p2i":
                    return a.args[0]
                tg = self.tagged(v)
                if tg is not None:
                    return Ptr(tg[0].base, add(tg[0].off, num(tg[1])))
                return Ptr(sym_base(("i2p", v), "i2p(%s)" % v))
            return v
        if isinstance(v, Ptr) and ty in ("i64",):
            return self.p2i(v)
        if ty == "i1" and isinstance(v, Poly):
            return p2b(v)
        if isinstance(v, tuple) and ty != "i1":
            return b2i(v)
        return v

    @staticmethod
    def tagged(v):
        """an address with a small constant added (pointers with flags in their low bits)"""
        if not isinstance(v, Poly):
            return None
        c, p = 0, None
        for m, co in v.t.items():
            if m == ():
                c = co
            elif p is None and co == 1 and len(m) == 1 and m[0][1] == 1 and t._atom_list[m[0][0]].kind == "p2i":
                p = t._atom_list[m[0][0]].args[0]
            else:
                return None
        return None if p is None or not isinstance(c, int) else (p, c)

    def p2i(self, v):
        if v.base is NULLBASE:
            return v.off
        if not v.off.t:
            return pa(atom("p2i", (Ptr(v.base),), "int"))
        return add(pa(atom("p2i", (Ptr(v.base),), "int")), v.off)

    def initial(self, s, b, off, size, ty, tb):
        """value of a location that no recorded store determines"""
        o = s.mem.rd(b)
        ver = 0
        log = []
        if o is not None:
            log = o.log
        # version: latest possibly aliasing store
        for e in reversed(log):
            if not self.disjoint(s.facts, e[1], e[2], off, size) and (e[1] is not None or e[2] is not None or self.p.tb_alias(e[3], tb)):
                ver = e[0]
                break
        if not t.identified(b) and s.mem.slog:
            for e in reversed(s.mem.slog):
                if e[0] <= ver:
                    break
                if e[1] is None:
                    if b.info[0] in ("data", "arg", "opq") or not self.p.tb_alias(e[4], tb):
                        continue
                elif e[1] is not b and (self.bases_distinct(s, e[1], b) or not self.p.tb_alias(e[4], tb)):
                    continue
                if e[1] is b:
                    continue
                ver = e[0]
                break
        if o is not None:
            for fl in reversed(o.fills):
                fver, foff, fsz, kind, data = fl
                if fver < ver:
                    break
                v = self.from_fill(s, fl, off, size, ty, tb)
                if v is not None:
                    return v
        if ver == 0:
            if b.kind in ("alloca", "heap"):
                return Undef("%s+%s" % (b.name, t.show(off)))
            if b in self.p.ginit and b.const:
                return self.gload(s, b, off, size, ty)
        if ty == "i64" and tb is None and b.kind == "sym":
            # an untyped eight byte load: a structure of two integers passed in a register
            return pa(atom("concat", (self.mkload(b, off, ver, "i32"), self.mkload(b, add(off, num(4)), ver, "i32")), "int"))
        return self.mkload(b, off, ver, ty)

    def gload(self, s, b, off, size, ty):
        c = off.cval()
        ini = self.p.ginit[b]
        if c is not None:
            e = ini.get(c)
            if e is not None:
                return self.conv(self.p.const(e[2]), ty)
            return self.mkload(b, off, 0, ty)
        # table lookup with symbolic index
        vals = [self.p.const(e[2]) for o_, e in sorted(ini.items()) if e[0] == size]
        if vals and all(v == vals[0] for v in vals):
            return vals[0]
        return self.mkload(b, off, 0, ty)

    def from_fill(self, s, fl, off, size, ty, tb):
        fver, foff, fsz, kind, data = fl
        d = sub(off, foff)
        c = d.cval()
        if fsz is not None:
            if c is None:
                if not (implied(s.facts, f_le(neg(d)), 1) and implied(s.facts, f_le(sub(add(d, num(size)), fsz)), 1)):
                    return None
            else:
                if c < 0:
                    return None
                z = fsz.cval()
                if z is not None:
                    if c + size > z:
                        return None
                elif not implied(s.facts, f_le(sub(num(c + size), fsz)), 1):
                    return None
        if kind == "byte":
            if data == ZERO:
                return zero(ty)
            return None
        if kind == "copy":
            m, sp = data
            s2 = s
            old = s.mem
            s.mem = m
            try:
                v = self.mem_load(s, Ptr(sp.base, add(sp.off, d)), size, ty, tb, raw=True)
            finally:
                s.mem = old
            return v
        if kind == "elem":
            # every element (stride) is a copy of the element at data pointer
            stride, m, sp = data
            k = 0
            for mo, co in d.t.items():
                if mo == ():
                    k = co % stride
                elif isinstance(co, Fraction) or co % stride != 0:
                    return None
            old = s.mem
            s.mem = m
            try:
                v = self.mem_load(s, Ptr(sp.base, add(sp.off, num(k))), size, ty, tb, raw=True)
            finally:
                s.mem = old
            return v
        if kind == "stride":
            stride, fields = data
            k = 0
            for mo, co in d.t.items():
                if mo == ():
                    k = co % stride
                elif isinstance(co, Fraction) or co % stride != 0:
                    return None
            for c, sz, v in fields:
                if c == k and sz == size:
                    return self.conv(v, ty)
            return None
        if kind == "undef":
            return Undef("uninitialised element")
        return None

    def mkload(self, b, off, ver, ty):
        if ty == "ptr":
            nm = "%s" % (b.name,) + ("[%s]" % t.show(off))
            return Ptr(sym_base(("load", b, off, Stamp(ver)), nm))
        a = atom("load", (b, off, Stamp(ver), ty), "real" if ty in ("float", "double") else "int")
        if ty == "i1":
            return p2b(pa(a))
        return pa(a)

    def mem_store(self, s, ptr, size, v, tb=None):
        if isinstance(ptr, Undef):
            self.undef_ptr(s, "store")
            return
        b, off = ptr.base, ptr.off
        if isinstance(v, tuple):
            v = b2i(v)
        o = s.mem.wr(b)
        ver = t.fresh_id()
        if o.cells:
            for k in list(o.cells):
                if k is off or k == off:
                    continue
                ko = k[0] if isinstance(k, tuple) else k
                if not self.disjoint(s.facts, ko, o.cells[k][0], off, size):
                    if isinstance(k, tuple):
                        continue
                    if o.cells[k][0] != size and self.carve(s, o, k, off, size):
                        continue
                    # must-alias cells with different normal form simply disappear
                    del o.cells[k]
        o.cells[off] = (size, v, True)
        o.log.append((ver, off, size, tb))
        if not t.identified(b):
            s.mem.slog.append((ver, b, off, size, tb))
            for b2 in list(s.mem.objs):
                if b2 is b or t.identified(b2):
                    continue
                if self.bases_distinct(s, b, b2):
                    continue
                o2 = s.mem.objs[b2]
                kill = [k for k, c in o2.cells.items() if isinstance(k, Poly) and self.may_clobber(s, b2, k, c, off, size, tb)]
                if kill:
                    o2 = s.mem.wr(b2)
                    for k in kill:
                        del o2.cells[k]

    def may_clobber(self, s, b2, k, c, off, size, tb):
        # pointers to whole objects of the same type: different constant field offsets cannot overlap
        if tb is None:
            return True
        tb2 = self.celltb.get((b2, k)) if hasattr(self, "celltb") else None
        if tb2 is not None:
            return self.p.tb_alias(tb, tb2)
        if k.is_const() and off.is_const():
            return not self.disjoint(s.facts, k, c[0], off, size)
        return True

    def carve(self, s, o, k, off, size):
        """partial overwrite of an 8 byte composite by 4 byte stores: keep the other half"""
        if not (isinstance(k, Poly) and k.is_const() and off.is_const()):
            return False
        c = o.cells[k]
        if c[0] == 8 and size == 4 and isinstance(c[1], Poly):
            d = off.cval() - k.cval()
            if d in (0, 4):
                other = num(k.cval() + (4 if d == 0 else 0))
                val = self.split(c[1], 1 if d == 0 else 0, "i32")
                del o.cells[k]
                o.cells[other] = (4, val, True)
                return True
        return False

    def undef_ptr(self, s, what):
        self.oblige(s, "uninit-pointer", F, "%s through an uninitialised pointer" % what)
        s.dead = True
        return Undef("load of undef ptr")

    def havoc_obj(self, s, ptr, size=None, tb=None):
        b = ptr.base
        if b is NULLBASE or b.kind == "fn" or (b.kind == "global" and b.const):
            return
        o = s.mem.wr(b)
        ver = t.fresh_id()
        for k in list(o.cells):
            ko = k[0] if isinstance(k, tuple) else k
            if size is None or not self.disjoint(s.facts, ko, o.cells[k][0], ptr.off, size):
                del o.cells[k]
        o.log.append((ver, None if size is None else ptr.off, size, tb))
        if not t.identified(b):
            s.mem.slog.append((ver, b, None, None, tb))

    def sym_clobber(self, s, tb):
        """a store through an unidentified pointer of the given access class"""
        ver = t.fresh_id()
        s.mem.slog.append((ver, None, None, None, tb))
        for b in list(s.mem.objs):
            if t.identified(b) or (isinstance(b.info, tuple) and b.info[0] in ("data", "arg", "opq")):
                continue
            o = s.mem.objs[b]
            kill = [k for k in o.cells if isinstance(k, Poly)]
            if kill:
                o = s.mem.wr(b)
                for k in kill:
                    del o.cells[k]

    # ghost cells
    def gget(self, s, ptr, tag):
        o = s.mem.rd(ptr.base)
        if o is not None:
            c = o.cells.get((ptr.off, tag))
            if c is not None:
                return c[1]
        return None

    def gset(self, s, ptr, tag, v):
        o = s.mem.wr(ptr.base)
        o.cells[(ptr.off, tag)] = (1, v, True)

    def memcpy(self, s, dst, src, n):
        """copy n bytes (n Poly)"""
        if isinstance(dst, Undef) or isinstance(src, Undef):
            self.undef_ptr(s, "memcpy")
            return
        if n.cval() == 0:
            return
        snap = s.mem.clone()
        nc = n.cval()
        d = s.mem.wr(dst.base)
        ver = t.fresh_id()
        for k in list(d.cells):
            ko = k[0] if isinstance(k, tuple) else k
            if not self.disjoint(s.facts, ko, d.cells[k][0], dst.off, int(nc) if nc is not None else None):
                del d.cells[k]
        d.log.append((ver, dst.off if nc is not None else None, int(nc) if nc is not None else None, None))
        if not t.identified(dst.base):
            s.mem.slog.append((ver, dst.base, dst.off, int(nc) if nc is not None else None, None))
        d.fills.append((ver, dst.off, n, "copy", (snap, src)))
        so = snap.rd(src.base)
        if so is not None:
            for k, c in so.cells.items():
                ko = k[0] if isinstance(k, tuple) else k
                rel = sub(ko, src.off)
                rc = rel.cval()
                inside = False
                if rc is not None and nc is not None:
                    inside = rc >= 0 and rc + c[0] <= nc
                if inside:
                    no = add(dst.off, rel)
                    d.cells[(no, k[1]) if isinstance(k, tuple) else no] = (c[0], c[1], True)

    # ------------------------------------------------------------ execution
    def new_frame(self, fn):
        self.uid += 1
        return Frame(fn, self.uid)

    def run_driver(self, fname):
        fn = self.p.fns.get(fname)
        if fn is None or not fn.blocks:
            raise EngineError("driver function %s not found" % fname)
        s = State()
        fr = self.new_frame(fn)
        if fn.args:
            raise EngineError("drivers take no arguments")
        s.frames.append(fr)
        self.driver = fname
        self.t0 = time.time()
        outs = self.explore([s], None)
        return outs

    def explore(self, states, region):
        """run the states until they leave the region; returns (backs, exits)"""
        work = list(states)
        backs, exits = [], []
        while work:
            s = work.pop()
            self.nstates += 1
            if self.nstates > self.lim.max_states or time.time() - self.t0 > self.lim.max_time:
                raise EngineError("analysis limit reached in %s (%d states)" % (self.driver, self.nstates))
            if s.pending is not None:
                res = self.goto(s, region)
            else:
                res = self.step(s, region)
            for kind, st in res:
                if kind == "work":
                    work.append(st)
                elif kind == "back":
                    backs.append(st)
                elif kind == "exit":
                    exits.append(st)
                elif kind == "done":
                    self.npaths += 1
                    if region is not None:
                        pass
        return backs, exits

    def goto(self, s, region):
        """perform the pending edge of the top frame"""
        fr = s.frames[-1]
        target = s.pending
        depth = len(s.frames)
        if region is not None:
            if depth < region.depth:
                return [("exit", s)]
            if depth == region.depth:
                if target == region.header:
                    return [("back", s)]
                if target not in region.blocks:
                    return [("exit", s)]
        fn = fr.fn
        L = fn.loops.get(target)
        if L is not None and fr.block not in L:
            outs = self.run_loop(s, target, L)
            return [("work", o) for o in outs]
        self.enter_block(s, target)
        s.pending = None
        return [("work", s)]

    def enter_block(self, s, target):
        fr = s.frames[-1]
        prev = fr.block
        vals = []
        bi = 0
        blk = fr.fn.blocks[target]
        for ins in blk:
            if ins["op"] != "phi":
                break
            for b, v in ins["in"]:
                if b == prev:
                    vals.append((ins["id"], self.ev(s, v)))
                    break
            bi += 1
        for i, v in vals:
            fr.regs[i] = v
        fr.prev = prev
        fr.block = target
        fr.idx = bi

    def ev(self, s, v):
        if type(v) is int:
            return s.frames[-1].regs[v]
        c = v.get("_c")
        if c is None:
            c = self.p.const(v)
            v["_c"] = c
        return c

    def step(self, s, region):
        """execute until control forks, a call/loop boundary changes the picture, or the path ends"""
        while True:
            fr = s.frames[-1]
            if region is not None and len(s.frames) < region.depth:
                return [("exit", s)]
            ins = fr.fn.blocks[fr.block][fr.idx]
            self.nsteps += 1
            op = ins["op"]
            h = DISPATCH.get(op)
            if h is None:
                raise EngineError("unsupported instruction %s in %s" % (op, fr.fn.dem))
            r = h(self, s, ins)
            if s.dead:
                return [("done", s)]
            if r is None:
                fr.idx += 1
                continue
            if r == "cont":
                continue
            return r

    def setreg(self, s, ins, v):
        s.frames[-1].regs[ins["id"]] = v

    # forks: list of (formula, thunk(state)) ; re-executes nothing
    def fork_on(self, s, f):
        """returns list of (bool, state) for feasible sides"""
        if f[0] == "T":
            return [(True, s)]
        if f[0] == "F":
            return [(False, s)]
        if f in s.fset:
            return [(True, s)]
        nf = f_not(f)
        if nf in s.fset:
            return [(False, s)]
        a = consistent_with(s.facts, f)
        if not a:
            s.assume(nf)
            return [(False, s)]
        b = consistent_with(s.facts, nf)
        if not b:
            s.assume(f)
            return [(True, s)]
        s2 = s.fork()
        s.assume(f)
        s2.assume(nf)
        s.lits.append(f)
        s2.lits.append(nf)
        return [(True, s), (False, s2)]

    def known_sign(self, s, p):
        """1 if p>=0 is known, -1 if p<0 is known, 0 unknown"""
        c = p.cval()
        if c is not None:
            return 1 if c >= 0 else -1
        if implied(s.facts, f_le(neg(p)), 2):
            return 1
        if implied(s.facts, f_lt(p), 2):
            return -1
        return 0

    # ------------------------------------------------------------ loops
    def run_loop(self, s, header, L):
        fr = s.frames[-1]
        depth = len(s.frames)
        region = Region(depth, header, L)
        fn = fr.fn
        prev = fr.block
        self.loops_seen[(fn.name, header)] = self.loops_seen.get((fn.name, header), 0) + 1
        phis = []
        for ins in fn.blocks[header]:
            if ins["op"] != "phi":
                break
            phis.append(ins)
        entry = {}
        for ins in phis:
            for b, v in ins["in"]:
                if b == prev:
                    entry[ins["id"]] = self.ev(s, v)
                    break
        s.pending = None
        mark = t.fresh_id()

        def start(vals, src=None):
            h = (src or s).fork()
            f2 = h.frames[-1]
            f2.prev = prev
            f2.block = header
            f2.idx = len(phis)
            for i, v in vals.items():
                f2.regs[i] = v
            h.pending = None
            return h
        # --- constant trip count: follow the iterations one by one
        h = start(entry)
        saved = self.obl_begin()
        backs, exits = self.explore([h], region)
        if not backs:
            self.obl_commit(saved)
            return exits
        insist = self.lim.insist
        if insist or not any(e.pending is not None and len(e.frames) == depth and e.open for e in exits):
            cur = backs
            acc = list(exits)
            ok = False
            for k in range(self.lim.unroll):
                if len(cur) > 3 and self.lim.unroll_states < 1000:
                    cur = self.merge_states(cur, phis, fn, L)
                if len(cur) > self.lim.unroll_states:
                    break
                nxt = []
                undecided = False
                for b in cur:
                    vals = self.phi_vals(b, phis)
                    hb = start(vals, b)
                    bk, ex = self.explore([hb], region)
                    nxt += bk
                    acc += ex
                    if bk and any(e.pending is not None and len(e.frames) == depth and e.open for e in ex):
                        undecided = True
                if undecided and not insist:
                    break
                cur = nxt
                if not cur:
                    ok = True
                    break
            if ok:
                self.obl_commit(saved)
                return acc
        self.obl_drop(saved)
        # --- widening fixpoint
        modes = {}
        hav = {}
        cands, litforms = None, set()
        flags_keys = {}
        disj = [()]
        nsyms = {}
        cand_rounds = 0
        retried, retry_cands = False, None
        sfills = None           # array parts every earlier iteration has filled
        reentered = set()       # partitions some back edge leads to
        split = set()           # pairs of pointers found to differ in some iteration
        pconst = {}             # pointers that have the same value whenever a partition is entered
        for it in range(self.lim.max_iter + 30):
            results = []
            pairs = set()
            self.obl_begin()
            for d in list(disj):
                exact = d == () and () not in reentered
                H, vals, smap = self.make_header(s, start, entry, modes, dict(d), hav, nsyms, d, mark, exact, split, pairs, pconst)
                if exact:
                    pass
                elif () not in reentered:
                    H.assume(f_le(sub(ONE, pa(nsyms[d]))))
                if sfills and not exact:
                    for b, off0, stride, fields in sfills:
                        H.mem.wr(b).fills.append((t.fresh_id(), off0, mul(pa(nsyms[d]), num(stride)), "stride", (stride, fields)))
                if cands and not exact:
                    for c in cands:
                        if d not in c[2]:
                            H.assume(self.cand_at(c, smap["cur"]))
                Hm = H.fork()
                base_n = len(H.lits)
                bk, ex = self.explore([H], region)
                results.append((d, Hm, vals, smap, bk, ex, base_n))
            changed = False
            newd = []
            target = {}
            for d, Hm, vals, smap, bk, ex, base_n in results:
                for B in bk:
                    for pr in pairs - split:
                        save = B.pending
                        pv = self.phi_vals(B, phis)
                        B.pending = save
                        if pr[0] in ("phi", "cell", "ghost"):
                            nv = self.key_value(B, pr, pv)
                            bad = not (isinstance(nv, Ptr) and implied(B.facts, f_not(ptr_eq(NULL, nv)), 1))
                        else:
                            bad = self.key_value(B, pr[0], pv) != self.key_value(B, pr[1], pv)
                        if bad:
                            split.add(pr)
                            changed = True
                    ch, fs = self.diff(s, Hm, B, phis, vals, entry, modes, mark, d, newd, smap, disj)
                    changed = changed or ch
                    target[id(B)] = fs
                    if fs not in reentered:
                        reentered.add(fs)
                        changed = True
            for d, Hm, vals, smap, bk, ex, base_n in results:
                for B in bk:
                    if self.note_pconst(pconst, s, B, phis, entry, modes, mark, target[id(B)]):
                        changed = True
            def live(d):
                return tuple((k, v) for k, v in d if modes.get(k, ("",))[0] == "flag")
            if any(live(d) != d for d in disj + newd):
                disj = list(dict.fromkeys(live(d) for d in disj))
                newd = list(dict.fromkeys(live(d) for d in newd))
                reentered = {live(d) for d in reentered}
                changed = True
            for d in newd:
                if d not in disj:
                    if len(disj) >= 16:
                        # too many partitions: give up the flags
                        for k, _ in d:
                            modes[k] = ("hav",)
                        disj = [()]
                        reentered = {()}
                        changed = True
                        break
                    disj.append(d)
                    changed = True
            if os.environ.get("VPC"):
                print("ITER", it, "changed", changed, "cands", None if cands is None else len(cands), "parts", len(disj), "results", len(results))
            if changed:
                cands = retry_cands if it <= self.lim.max_iter else None
                retry_cands = None
                sfills = None
                if it > self.lim.max_iter:
                    # force: everything numeric becomes unknown
                    for k in modes:
                        if modes[k][0] == "ind":
                            modes[k] = ("hav",)
                continue
            # array fills
            if sfills is None:
                sfills = self.gen_sfills(results, mark, nsyms, reentered)
                if sfills:
                    continue
            elif sfills:
                ok = [f for f in sfills if self.sfill_holds(f, results, nsyms)]
                if len(ok) != len(sfills):
                    sfills = ok
                    cands = None
                    continue
            # candidate invariants
            if cands is None:
                peeled = () not in reentered
                starts = []
                if peeled:
                    for d, Hm, vals, smap, bk, ex, base_n in results:
                        if d == ():
                            starts += [(B, self.next_map(B, phis, modes, smap, s)) for B in bk]
                    rest = [r for r in results if r[0] != ()]
                else:
                    rest = results
                self.litforms = set()
                cands = self.gen_cands(s, entry, modes, rest, mark, starts)
                litforms = self.litforms
                if cands:
                    cand_rounds = 0
                    continue
                break
            keep = list(cands)
            dropped = False
            nexts = []
            for d, Hm, vals, smap, bk, ex, base_n in results:
                for B in bk:
                    nexts.append((B, smap, self.next_map(B, phis, modes, smap, s), d, target[id(B)]))
            gone = []
            while True:
                out_ = []
                for c in keep:
                    for B, smap, nv, d, fs in nexts:
                        if fs in c[2]:
                            continue
                        if nv is None:
                            out_.append((c, fs))
                            break
                        facts = B.facts
                        if gone:
                            g0 = {self.cand_at(x, smap["cur"]) for x, xd in gone if x[0] not in litforms and (xd is None or xd == d)} \
                                - {self.cand_at(x, smap["cur"]) for x in keep if d not in x[2]}
                            facts = [f for f in facts if f not in g0]
                        if not implied(facts, self.cand_at(c, nv), 3):
                            out_.append((c, fs))
                            break
                if not out_:
                    break
                dropped = True
                for c, fs in out_:
                    ix = next(i for i, x in enumerate(keep) if x is c)
                    if len(disj) > 1 and len(c[2]) + 1 < len(disj) and len(keep) <= 60:
                        # it may still hold in the other partitions
                        keep[ix] = (c[0], c[1], c[2] | {fs})
                        gone.append((c, fs))
                    else:
                        del keep[ix]
                        gone.append((c, None))
            if os.environ.get("VPC"):
                print("CANDS round", cand_rounds, "kept", [t.showf(c[0]) for c in keep])
                for c, fs in gone:
                    print("   gone", t.showf(c[0]))
            cands = keep
            cand_rounds += 1
            if not dropped:
                # with the invariants known, cells given up before may turn out untouched
                lost = []
                if cands and not retried:
                    for key, m in modes.items():
                        if key[0] == "base" and len(m) > 1:
                            eo = s.mem.rd(key[1])
                            full = frozenset(k for k, c in eo.cells.items() if not isinstance(k, tuple) and (c[2] or k in m[1])) if eo is not None else frozenset()
                            if not full <= m[1]:
                                lost.append((key, full | m[1]))
                if os.environ.get("VPC"):
                    print("LOST", lost)
                if lost:
                    retried = True
                    for key, full in lost:
                        modes[key] = ("hav", full)
                    retry_cands = cands
                    continue
                break
            if not cands or cand_rounds > 16:
                cands = []
                continue        # once more without candidates
        else:
            raise EngineError("loop in %s did not stabilise" % fn.dem)
        self.obl_commit(saved)
        out = []
        for r in results:
            out += r[5]
        return out

    def merge_states(self, states, phis, fn, L):
        """join states at a loop header that agree on everything but facts and dead temporaries"""
        inside = getattr(fn, "_inloop", None)
        if inside is None:
            inside = fn._inloop = {}
        key = id(L)
        if key not in inside:
            inside[key] = {ins["id"] for b in L for ins in fn.blocks[b] if "id" in ins}
        inner = inside[key] - {v for ins in phis for _, v in ins["in"] if type(v) is int}
        groups = {}
        for b in states:
            fr = b.frames[-1]
            alive = {f.uid for f in b.frames}
            sig = [tuple(sorted(self.phi_vals(b, phis).items(), key=lambda x: x[0])), fr.block, id(b.exc)]
            for f in b.frames[:-1]:
                sig.append((f.uid, f.block, f.idx))
            try:
                objs = []
                for base, o in b.mem.objs.items():
                    if base.kind == "alloca":
                        continue
                    if o.cells or o.fills:
                        objs.append((base, frozenset((k, c[0], c[1]) for k, c in o.cells.items()), tuple(o.fills)))
                sig.append(frozenset(objs))
                sig = tuple(sig)
                hash(sig)
            except TypeError:
                return states
            groups.setdefault(sig, []).append(b)
        out = []
        for g in groups.values():
            m = g[0]
            for b in g[1:]:
                j = self.join2(m, b, inner)
                if j is None:
                    out.append(b)
                else:
                    m = j
            out.append(m)
        return out

    def join_sym(self, a, b, v, w, joined):
        j = pa(fresh("join", "int" if v.is_int() and w.is_int() else "real"))
        joined.append((j, v, w))
        return j

    def join2(self, a, b, inner, anyobj=False):
        m = a.fork()
        joined = []
        for i, (fa, fb) in enumerate(zip(a.frames, b.frames)):
            live = fa.fn.live(fa.block, fa.idx) if anyobj else None
            for r, v in list(fa.regs.items()):
                if live is not None and r not in live and fb.regs.get(r) != v:
                    del m.frames[i].regs[r]         # never used again
                elif i == len(a.frames) - 1 and r in inner:
                    del m.frames[i].regs[r]         # recomputed before it is used again
                elif fb.regs.get(r) != v:
                    w = fb.regs.get(r)
                    if anyobj == "real":
                        return None
                    if anyobj and isinstance(v, Poly) and isinstance(w, Poly):
                        m.frames[i].regs[r] = self.join_sym(a, b, v, w, joined)
                    elif anyobj and isinstance(v, tuple) and isinstance(w, tuple):
                        m.frames[i].regs[r] = ("b", fresh("join", "bool"))
                    else:
                        return None
        alive = {id(f.uid) for f in a.frames}
        for base in set(a.mem.objs) | set(b.mem.objs):
            oa, ob = a.mem.objs.get(base), b.mem.objs.get(base)
            if oa is ob:
                continue
            if oa is None or ob is None:
                if anyobj and base.kind != "alloca" and ((oa or ob).cells or (oa or ob).fills):
                    return None
                if oa is None:
                    m.mem.objs[base] = ob
                continue
            if base.kind != "alloca" and not anyobj:
                log = list(oa.log)
                log += [x for x in ob.log if x not in log]
                log.sort(key=lambda x: x[0])
                m.mem.wr(base).log = log
                continue
            if oa.fills != ob.fills:
                return None
            om = m.mem.wr(base)
            for k in set(oa.cells) | set(ob.cells):
                ca, cb = oa.cells.get(k), ob.cells.get(k)
                if ca is not None and cb is not None and ca[0] == cb[0] and ca[1] == cb[1]:
                    continue
                c = ca or cb
                if isinstance(k, tuple) or (ca is not None and cb is not None and ca[0] != cb[0]):
                    return None
                if anyobj and ca is not None and cb is not None and (isinstance(ca[1], Undef) or isinstance(cb[1], Undef)):
                    om.cells[k] = (c[0], Undef("join"), c[2])
                    continue
                if ca is None or cb is None or not isinstance(ca[1], Poly) or not isinstance(cb[1], Poly):
                    return None
                if anyobj == "real" and ca[0] != 8 and (not isinstance(cb[1], Poly) or (ca[1].is_int() and cb[1].is_int())):
                    return None
                om.cells[k] = (c[0], self.join_sym(a, b, ca[1], cb[1], joined), c[2])
            log = list(oa.log)
            log += [x for x in ob.log if x not in log]
            log.sort(key=lambda x: x[0])
            om.log = log
        if a.mem.slog != b.mem.slog:
            sl = list(a.mem.slog)
            sl += [x for x in b.mem.slog if x not in sl]
            sl.sort(key=lambda x: x[0])
            m.mem.slog = sl
        m.facts = [f for f in a.facts if f in b.fset]
        m.fset = set(m.facts)
        m.lits = [f for f in a.lits if f in b.lits]
        if anyobj:
            for j, v, w in joined:
                for up in (lambda x: x, neg):
                    for mk in (f_lt, f_le):
                        if implied(a.facts, mk(up(v)), 2) and implied(b.facts, mk(up(w)), 2):
                            m.assume(mk(up(j)))
                            break
        m.open = a.open or b.open
        return m

    def gen_sfills(self, results, mark, nsyms, reentered):
        """cells at (base, off0 + stride*iteration + c) that every iteration leaves with the same value"""
        found = None
        for d, Hm, vals, smap, bk, ex, base_n in results:
            if d == () and () not in reentered:
                # the first iteration, followed on its own: must agree with the later ones
                continue
            n = pa(nsyms[d])
            m = next(iter(n.t))
            for B in bk:
                here = {}
                for b, ob in B.mem.objs.items():
                    oh = Hm.mem.objs.get(b)
                    if oh is ob or (b.born >= mark and b.kind in ("alloca", "heap")) or (b.kind == "sym" and vtime(b) >= mark):
                        continue
                    for e in ob.log[len(oh.log) if oh is not None else 0:]:
                        if e[1] is None or e[2] is None:
                            continue
                        k = e[1].t.get(m)
                        if k is None or isinstance(k, Fraction) or k <= 0:
                            continue
                        off0 = sub(e[1], mul(num(k), n))
                        if vtime(off0) >= mark:
                            continue
                        c = ob.cells.get(e[1])
                        if c is None or c[0] != e[2] or isinstance(c[1], Undef) or vtime(c[1]) >= mark:
                            continue
                        here[(b, off0, k, e[2])] = c[1]
                if found is None:
                    found = here
                else:
                    found = {k: v for k, v in found.items() if here.get(k) == v}
        groups = {}
        for (b, off0, k, sz), v in (found or {}).items():
            groups.setdefault((b, k), []).append((off0, sz, v))
        out = []
        for (b, k), l in groups.items():
            while l:
                o0 = l[0][0]
                sel = [x for x in l if sub(x[0], o0).cval() is not None]
                l = [x for x in l if x not in sel]
                lo = min(sel, key=lambda x: sub(x[0], o0).cval())[0]
                fields = [(sub(x[0], lo).cval(), x[1], x[2]) for x in sel]
                fields = [f for f in fields if f[0] + f[1] <= k]
                if fields:
                    out.append((b, lo, k, fields))
        return out

    def sfill_holds(self, f, results, nsyms):
        b, off0, k, fields = f
        for d, Hm, vals, smap, bk, ex, base_n in results:
            n = smap["cur"]["n"]
            cur = add(off0, mul(n, num(k)))
            for B in bk:
                ob, oh = B.mem.objs.get(b), Hm.mem.objs.get(b)
                for c, sz, v in fields:
                    at = add(cur, num(c))
                    x = ob.cells.get(at) if ob is not None else None
                    if x is None or x[0] != sz or x[1] != v:
                        return False
                for e in ob.log[len(oh.log) if oh is not None else 0:]:
                    if e[1] is None or e[2] is None:
                        return False
                    g = sub(e[1], cur)
                    c = g.cval()
                    if c is not None and 0 <= c:
                        continue
                    if not implied(B.facts, f_le(neg(g)), 1) and not self.disjoint(B.facts, e[1], e[2], off0, None):
                        return False
        return True

    def phi_vals(self, B, phis):
        fr = B.frames[-1]
        prev = fr.block
        vals = {}
        for ins in phis:
            for b, v in ins["in"]:
                if b == prev:
                    vals[ins["id"]] = self.ev(B, v)
                    break
        B.pending = None
        return vals

    # key kinds: ('phi', id) ; ('cell', base, off, size, ty) ; ('ghost', base, off, tag)
    def hav_value(self, key, ty, like, hav, nm):
        h = hav.get(key)
        if h is None:
            if ty == "ptr":
                h = Ptr(sym_base(("hav", Stamp(t.fresh_id())), "loop:" + nm))
            elif ty == "i1":
                h = ("b", fresh("loop:" + nm, "bool"))
            else:
                h = pa(fresh("loop:" + nm, "real" if ty == "real" else ty))
            hav[key] = h
        return h

    def make_header(self, s, start, entry, modes, flags, hav, nsyms, d, mark, exact=False, split=frozenset(), pairs=None, pconst=None):
        if d not in nsyms:
            nsyms[d] = fresh("iter", "nat")
        n = nsyms[d]
        H = start(entry)
        if not exact:
            H.assume(f_le(neg(pa(n))))
        cur = {"n": pa(n)}
        init = {"n": ZERO}
        fr = H.frames[-1]
        vals = dict(entry)
        if exact:
            for key, mode in modes.items():
                if mode[0] == "hav" and key[0] not in ("base", "symstore"):
                    v0 = self.key_initial(s, key, entry)
                    if isinstance(v0, (Poly, Ptr)):
                        cur[key] = init[key] = v0
            cur["n"] = ZERO
            return H, vals, {"cur": cur, "init": init}
        for key, mode in modes.items():
            if key[0] == "base":
                o = H.mem.rd(key[1])
                kept = {k: o.cells[k] for k in mode[1] if k in o.cells} if o is not None and len(mode) > 1 else {}
                self.havoc_obj(H, Ptr(key[1]), None, key[2])
                if kept:
                    H.mem.wr(key[1]).cells.update(kept)
            elif key[0] == "symstore":
                self.sym_clobber(H, key[1])
        ptrs = []
        for key, mode in modes.items():
            if key[0] in ("base", "symstore"):
                continue
            v0 = self.key_initial(s, key, entry)
            if mode[0] == "flag":
                v = flags.get(key)
                if v is None:
                    v = v0
                elif isinstance(v0, tuple) and isinstance(v, Poly):
                    v = p2b(v)
            elif mode[0] == "ind":
                step = mode[1]
                if isinstance(v0, Ptr):
                    v = Ptr(v0.base, add(v0.off, mul(pa(n), step)))
                else:
                    v = add(v0, mul(pa(n), step))
            elif mode[0] == "same":
                v = None
            else:
                v = self.gen_value(key, mode, v0, hav)
                c = pconst.get((key, d)) if pconst and isinstance(v, Ptr) else None
                if isinstance(c, Ptr):
                    self.key_set(H, key, c, vals)
                    continue
            if v is None:
                continue
            if mode[0] == "hav" and isinstance(v, Ptr) and isinstance(v0, Ptr) and v.base is not v0.base and pairs is not None:
                # pointers that were equal before the loop and stay equal share their value
                for k2, v2, i2 in ptrs:
                    if i2 == v0 and (k2, key) not in split:
                        v = v2
                        pairs.add((k2, key))
                        break
                else:
                    ptrs.append((key, v, v0))
                    if key not in split and implied(s.facts, f_not(ptr_eq(NULL, v0)), 1):
                        H.assume(f_not(ptr_eq(NULL, v)))
                        pairs.add(key)
            self.key_set(H, key, v, vals)
            hv = v.off if isinstance(v, Ptr) else v
            h0 = v0.off if isinstance(v0, Ptr) else v0
            if mode[0] in ("hav",) and isinstance(hv, Poly) and isinstance(h0, Poly) and not (isinstance(v, Ptr) and v.base is not v0.base):
                cur[key] = hv
                init[key] = h0
            elif mode[0] == "hav" and isinstance(v, Ptr):
                cur[key] = v
                init[key] = v0
        for i, v in vals.items():
            fr.regs[i] = v
        return H, vals, {"cur": cur, "init": init}

    def note_pconst(self, pconst, s, B, phis, entry, modes, mark, d):
        """pointers a back edge into partition d carries: True if something new was learnt"""
        changed = False
        pv = None
        for key, m in modes.items():
            if m[0] != "hav" or len(m) < 2 or m[1] not in ("ptr", "off") or key[0] not in ("phi", "cell", "ghost"):
                continue
            k = (key, d)
            old = pconst.get(k)
            if old is False:
                continue
            if pv is None:
                save = B.pending
                pv = self.phi_vals(B, phis)
                B.pending = save
            v = self.key_value(B, key, pv)
            if isinstance(v, Ptr) and v.base.kind != "select":
                v = self.older(B, v, mark)
            ok = isinstance(v, Ptr) and vtime(v) < mark
            if ok and old is None and d == ():
                v0 = self.key_initial(s, key, entry)
                ok = isinstance(v0, Ptr) and v0 == v
            if ok and old is not None and (old == v or (old.base is v.base and implied(B.facts, f_eq(sub(v.off, old.off)), 1))):
                continue
            tries = pconst.get(("tries", k), 0)
            pconst[("tries", k)] = tries + 1
            if ok and tries < 4:
                # the value of this entry may be a more general description of the earlier ones: checked in the next round
                pconst[k] = v
                changed = True
            else:
                pconst[k] = False
                changed = changed or old is not None
        return changed

    def older(self, B, v, mark):
        """the same pointer in terms of values known earlier"""
        for _ in range(4):
            new = [a for a in v.off.atoms() if t.by_id(a).kind == "sym" or not t.by_id(a).args]
            hit = None
            for a in sorted(new, reverse=True):
                for f in B.facts:
                    if f[0] != "eq" or a not in f[1].atoms():
                        continue
                    c = f[1].t.get(((a, 1),))
                    if c not in (1, -1):
                        continue
                    rest = sub(f[1], scale(pa(t.by_id(a)), c))
                    if a in rest.atoms() or any(x >= a for x in rest.atoms()):
                        continue
                    hit = (a, neg(rest) if c == 1 else rest)
                    break
                if hit:
                    break
            if not hit:
                return v
            v = Ptr(v.base, t.Subst({hit[0]: hit[1]}).poly(v.off))
        return v

    def gen_value(self, key, mode, v0, hav):
        nm = self.key_name(key)
        if mode[0] == "hav":
            ty = mode[1] if len(mode) > 1 else None
            if ty == "undef":
                return Undef("loop")
            if ty == "off":     # pointer into the same object
                o = self.hav_value(key, "int", v0, hav, nm)
                return Ptr(v0.base, o)
            if ty is None:
                ty = "ptr" if isinstance(v0, Ptr) else "i1" if isinstance(v0, tuple) else ("int" if isinstance(v0, Poly) and v0.is_int() else "real")
            if isinstance(v0, Agg):
                return Undef("loop agg")
            return self.hav_value((key, ty), ty, v0, hav, nm)
        raise EngineError("mode " + str(mode))

    def key_name(self, key):
        if key[0] == "phi":
            return "r%d" % key[1]
        if key[0] == "cell":
            return "%s%s" % (key[1].name, "+" + t.show(key[2]) if key[2].t else "")
        return "%s.%s" % (key[1].name, key[3])

    def key_initial(self, s, key, entry):
        if key[0] == "phi":
            return entry[key[1]]
        if key[0] == "cell":
            return self.mem_load(s, Ptr(key[1], key[2]), key[3], key[4], None, raw=True)
        v = self.gget(s, Ptr(key[1], key[2]), key[3])
        if v is None:
            v = self.M.ghost_initial(s, Ptr(key[1], key[2]), key[3])
        return v

    def key_set(self, H, key, v, vals):
        if key[0] == "phi":
            vals[key[1]] = v
        elif key[0] == "cell":
            self.mem_store(H, Ptr(key[1], key[2]), key[3], v, None)
        else:
            self.gset(H, Ptr(key[1], key[2]), key[3], v)

    def key_value(self, B, key, phivals):
        if key[0] == "phi":
            return phivals[key[1]]
        if key[0] == "cell":
            return self.mem_load(B, Ptr(key[1], key[2]), key[3], key[4], None, raw=True)
        return self.gget(B, Ptr(key[1], key[2]), key[3])

    def next_map(self, B, phis, modes, smap, s):
        save = B.pending
        pv = self.phi_vals(B, phis)
        B.pending = save
        out = {"n": add(smap["cur"]["n"], ONE)}
        for k in smap["cur"]:
            if k == "n":
                continue
            v = self.key_value(B, k, pv)
            cv = smap["cur"][k]
            if isinstance(v, Ptr):
                if isinstance(cv, Ptr):
                    out[k] = v
                else:
                    out[k] = v.off
            elif isinstance(v, Poly):
                out[k] = v
            else:
                return None
        return out

    def diff(self, s, H, B, phis, hvals, entry, modes, mark, d, newd, smap, disj):
        """compare a back-edge state with the header state; weaken modes. True if weakened"""
        changed = False
        save = B.pending
        pv = self.phi_vals(B, phis)
        B.pending = save
        flags = dict(d)
        nflags = dict(d)
        pend = []
        for ins in phis:
            i = ins["id"]
            pend.append((("phi", i), hvals[i], pv[i], ins["t"]))
        handled = set()
        for b, ob in B.mem.objs.items():
            oh = H.mem.objs.get(b)
            if oh is ob:
                continue
            if b.born >= mark and b.kind in ("alloca", "heap"):
                continue
            if b.kind == "sym" and vtime(b) >= mark:
                # object identified inside the loop body: other iterations may touch any such object
                if oh is None or len(ob.log) > len(oh.log):
                    for e in ob.log[len(oh.log) if oh else 0:]:
                        if e[0] >= mark:
                            key = ("symstore", tuple(e[3]) if e[3] else None)
                            if key not in modes and ("symstore", None) not in modes:
                                modes[key] = ("hav",)
                                changed = True
                continue
            hlog = len(oh.log) if oh is not None else 0
            newlog = ob.log[hlog:]
            if ("base", b, None) in modes:
                for k in [k for k in modes if k[0] == "cell" and k[1] is b]:
                    del modes[k]
            if not newlog and not self.ghost_diff(oh, ob):
                continue
            # stores with loop-variant or unknown addresses
            for e in newlog:
                if e[1] is None or vtime(e[1]) >= mark:
                    key = ("base", b, tuple(e[3]) if e[3] else None)
                    if key not in modes and ("base", b, None) not in modes:
                        # the cells that existed before the loop and that no iteration touches survive
                        eo = s.mem.rd(b)
                        modes[key] = ("hav", frozenset(k for k in eo.cells if not isinstance(k, tuple)) if eo is not None else frozenset())
                        changed = True
            for key in [k for k in modes if k[0] == "base" and k[1] is b and len(modes[k]) > 1]:
                eo = s.mem.rd(b)
                ok = frozenset(k for k in modes[key][1] if k in ob.cells and ob.cells[k][0] == eo.cells[k][0] and ob.cells[k][1] == eo.cells[k][1])
                if ok != modes[key][1]:
                    modes[key] = ("hav", ok)
                    changed = True
            for k, c in ob.cells.items():
                if isinstance(k, tuple):
                    ch = oh.cells.get(k) if oh is not None else None
                    if ch is not None and ch[1] == c[1]:
                        continue
                    if not c[2]:
                        continue
                    if vtime(k[0]) >= mark:
                        continue
                    key = ("ghost", b, k[0], k[1])
                    hv = ch[1] if ch is not None else self.M.ghost_initial(H, Ptr(b, k[0]), k[1])
                    if hv is None:
                        continue
                    pend.append((key, hv, c[1], "ghost"))
                    continue
                if vtime(k) >= mark or ("base", b, None) in modes:
                    continue
                ch = oh.cells.get(k) if oh is not None else None
                if ch is not None and ch[0] == c[0] and ch[1] == c[1]:
                    continue
                if not c[2] and ch is None:
                    # a cached load; was it loaded after a store in this iteration?
                    hv = self.mem_load(H, Ptr(b, k), c[0], self.ty_of(c[1], c[0]), None, raw=True)
                    if hv == c[1]:
                        continue
                ty = self.ty_of(c[1], c[0])
                key = ("cell", b, k, c[0], ty)
                ex = [q for q in modes if q[0] == "cell" and q[1] is b and q[2] == k]
                if ex:
                    key = ex[0]
                hv = self.mem_load(H, Ptr(b, k), c[0], key[4], None, raw=True)
                pend.append((key, hv, c[1], key[4]))
            if oh is not None:
                for k, c in oh.cells.items():
                    if isinstance(k, tuple):
                        continue
                    if k not in ob.cells and vtime(k) < mark:
                        if ("base", b, None) in modes:
                            continue
                        ty = self.ty_of(c[1], c[0])
                        nv = self.mem_load(B, Ptr(b, k), c[0], ty, None, raw=True)
                        if nv != c[1]:
                            key = ("cell", b, k, c[0], ty)
                            pend.append((key, c[1], nv, ty))
        done = {p[0] for p in pend}
        for key, m in list(modes.items()):
            if m[0] == "ind" and key not in done:
                # an induction cell this path leaves alone
                pend.append((key, self.key_value(H, key, hvals), self.key_value(B, key, pv), key[4] if key[0] == "cell" else "ghost"))
        # flags partition
        for key, hv, nv, ty in pend:
            m = modes.get(key)
            if m is not None and m[0] == "hav":
                if isinstance(nv, Ptr) and len(m) > 1 and m[1] == "off":
                    v0 = self.key_initial(s, key, entry)
                    if nv.base is not v0.base:
                        modes[key] = ("hav", "ptr")
                        changed = True
                elif isinstance(nv, Poly) and not nv.is_int() and (len(m) == 1 or m[1] == "int"):
                    modes[key] = ("hav", "real")
                    changed = True
                continue
            if hv == nv:
                if m is not None and m[0] == "flag":
                    continue
                if m is not None and m[0] == "ind":
                    modes[key] = ("hav", self.hty(hv, nv))
                    changed = True
                continue
            if isinstance(hv, Undef) and isinstance(nv, Undef):
                continue
            if m is None or m[0] == "flag":
                hc, nc = self.flagval(hv), self.flagval(nv)
                small = ty in ("i8", "i1") or isinstance(hv, tuple) or (ty == "ghost" and key[3] not in ("vsize", "vdata"))
                if hc is not None and nc is not None and small:
                    if m is None:
                        modes[key] = ("flag",)
                        changed = True
                    nflags[key] = nv
                    continue
                if m is not None:
                    modes[key] = ("hav", self.hty(hv, nv))
                    changed = True
                    continue
            step = self.step_of(hv, nv, mark)
            if m is None and step is not None and not isinstance(hv, Undef):
                v0 = self.key_initial(s, key, entry)
                own = v0.off.atoms() if isinstance(v0, Ptr) else v0.atoms() if isinstance(v0, Poly) else ()
                if own and step.atoms() & own:
                    pass        # the new value does not build on the old one
                elif v0 == hv or (isinstance(v0, Ptr) and isinstance(hv, Ptr) and v0 == hv):
                    modes[key] = ("ind", step)
                    changed = True
                    continue
            if m is not None and m[0] == "ind" and step is not None and step == m[1]:
                continue
            if isinstance(hv, Ptr) and isinstance(nv, Ptr) and hv.base is nv.base and hv.base is not NULLBASE:
                modes[key] = ("hav", "off")
            else:
                modes[key] = ("hav", self.hty(hv, nv))
            changed = True
        fs = tuple(sorted(((k, v) for k, v in nflags.items() if modes.get(k, ("",))[0] == "flag"), key=lambda x: repr(x)))
        # canonical: drop flags equal to their entry value
        fs = tuple((k, v) for k, v in fs if self.norm_flag(self.key_initial(s, k, entry)) != self.norm_flag(v))
        if fs not in disj and fs not in newd:
            newd.append(fs)
        return changed, fs

    def norm_flag(self, v):
        c = self.flagval(v)
        return ("c", c) if c is not None else v

    def ghost_diff(self, oh, ob):
        for k, c in ob.cells.items():
            if isinstance(k, tuple):
                ch = oh.cells.get(k) if oh is not None else None
                if c[2] and (ch is None or ch[1] != c[1]):
                    return True
        return False

    def flagval(self, v):
        if isinstance(v, Poly):
            c = v.cval()
            if c in (0, 1):
                return int(c)
            return None
        if isinstance(v, tuple):
            return 1 if v[0] == "T" else 0 if v[0] == "F" else None
        return None

    def hty(self, a, b):
        for v in (b, a):
            if isinstance(v, Ptr):
                return "ptr"
            if isinstance(v, tuple):
                return "i1"
        if isinstance(a, Poly) and isinstance(b, Poly):
            return "int" if a.is_int() and b.is_int() else "real"
        v = b if isinstance(b, Poly) else a
        if isinstance(v, Poly):
            return "int" if v.is_int() else "real"
        return "undef"

    def ty_of(self, v, size):
        if isinstance(v, Ptr):
            return "ptr"
        if isinstance(v, Poly):
            if v.is_int():
                return {1: "i8", 2: "i16", 4: "i32", 8: "i64"}.get(size, "i64")
            return "float" if size == 4 else "double"
        return {1: "i8", 2: "i16", 4: "i32", 8: "i64"}.get(size, "i64")

    def step_of(self, hv, nv, mark):
        if isinstance(hv, Ptr) and isinstance(nv, Ptr):
            if hv.base is not nv.base:
                return None
            d = sub(nv.off, hv.off)
        elif isinstance(hv, Poly) and isinstance(nv, Poly):
            d = sub(nv, hv)
        else:
            return None
        if vtime(d) >= mark:
            return None
        return d

    # candidate facts: formulas over placeholders
    def cand_at(self, c, m):
        """c = (formula, placeholder map key->atom); m: key -> value"""
        f, ph = c[0], c[1]
        sub_ = {}
        pm = []
        for k, a in ph.items():
            if k not in m:
                return T
            v = m[k]
            if isinstance(v, Ptr):
                pm.append((a, v))
            else:
                sub_[a.id] = v
        r = t.Subst(sub_).form(f) if sub_ else f
        return r

    def gen_cands(self, s, entry, modes, results, mark, starts):
        """candidate invariants; starts: states that enter the summarised part of the loop (empty: the loop entry does)"""
        if not results or any(m is None for _, m in starts):
            return []
        cur = results[0][3]["cur"]
        if starts:
            inits = [(B.facts, m) for B, m in starts]
        else:
            inits = [(s.facts, results[0][3]["init"])]
        keys = [k for k in cur if isinstance(cur[k], Poly) and all(isinstance(m.get(k), Poly) for _, m in inits)]
        if not any(k != "n" for k in keys) and not any(m[0] == "ind" for m in modes.values()):
            return []
        ph = {}
        for k in keys:
            a = cur[k].single_atom()
            ph[k] = atom("sym", ("$%s" % ("n" if k == "n" else self.key_name(k)), a.id if a else t.fresh_id()), a.ty if a is not None else "int")
        byatom = {}
        for k in keys:
            a = cur[k].single_atom()
            if a is not None:
                byatom[a.id] = pa(ph[k])
        forms = []
        # monotone candidates
        for k in keys:
            if k == "n":
                continue
            for facts0, init in inits[:2]:
              v0 = init[k]
              if vtime(v0) >= mark:
                continue
              d = sub(pa(ph[k]), v0)
              forms += [f_le(d), f_le(neg(d))]
              a0 = v0.single_atom()
              if a0 is not None:
                for f in facts0:
                    if f[0] in ("le", "lt", "ne") and a0.id in f[1].atoms() and len(f[1].t) <= 4:
                        forms.append(t.Subst({a0.id: pa(ph[k])}).form(f))
        ks = [k for k in keys if k != "n"]
        for i in range(len(ks)):
            for j in range(i + 1, len(ks)):
                a, b = ks[i], ks[j]
                if len(ks) > 6 and (len(ks) > 14 or any(init[a] != init[b] for _, init in inits)):
                    continue
                if (ph[a].ty == "real") == (ph[b].ty == "real"):
                    gaps = []
                    for _, init in inits:
                        g = sub(init[a], init[b])
                        if vtime(g) < mark and g not in gaps:
                            gaps.append(g)
                    if gaps and all(g.cval() is not None for g in gaps):
                        gaps.sort(key=lambda g: g.cval())
                        gaps = [gaps[0], gaps[-1]] if len(gaps) > 1 else gaps
                    for g in gaps[:2]:
                        d = sub(sub(pa(ph[a]), pa(ph[b])), g)
                        if len(gaps) == 1:
                            forms.append(f_eq(d))
                        forms.append(f_le(d))
                        forms.append(f_le(neg(d)))
                        if ph[a].ty != "real" and (len(ks) <= 5 or len(ks) > 6) and len(gaps) == 1:
                            forms.append(f_le(sub(d, ONE)))
                            forms.append(f_le(sub(neg(d), ONE)))
        # branch literals
        lits, fixed = [], []
        for d, Hm, vals, smap, bk, ex, base_n in results:
            mp = {}
            for k in keys:
                a = smap["cur"][k].single_atom() if k in smap["cur"] else None
                if a is not None:
                    mp[a.id] = pa(ph[k])
            if not mp:
                continue
            sb = t.Subst(mp)
            for st in bk + ex:
                for f in st.lits[base_n:] + [f for f in st.facts if f[0] == "or" and f not in Hm.fset]:
                    for g in (f[1] if f[0] in ("and", "or") else (f,)):
                        if g[0] in ("le", "lt", "eq", "ne") and len(g[1].t) <= 6:
                            at = t.val_atoms(g, set())
                            if not (at & set(mp)):
                                if g[0] in ("eq", "ne") and len(fixed) < 3 and not any(vtime(t.by_id(x)) >= mark for x in at):
                                    e = g if g[0] == "eq" else f_not(g)
                                    if e not in fixed:
                                        fixed.append(e)
                                continue
                            if any(vtime(t.by_id(x)) >= mark and x not in mp for x in at if not t.by_id(x).args or t.by_id(x).kind in ("sym", "load")):
                                continue
                            h = sb.form(g)
                            if h not in lits:
                                lits.append(h)
        for g in lits[:40]:
            k, p = g[0], g[1]
            if k in ("le", "lt"):
                forms.append(g)
                forms.append(f_not(g))
                forms.append(f_le(sub(p, ONE)))
                forms.append(f_le(sub(neg(p), ONE)))
                forms.append(f_le(p))
                forms.append(f_le(neg(p)))
            else:
                forms += [f_le(p), f_le(neg(p))]
        # ... where a comparison of values the loop leaves alone holds
        for e in fixed:
            for g in [g for g in lits if g[0] in ("eq", "ne")][:3]:
                for f in (f_le(g[1]), f_le(neg(g[1]))):
                    forms.append(t.f_or(f_not(e), f))
                    if len(fixed) > 1 and e is fixed[0]:
                        forms.append(t.f_or(*([f_not(x) for x in fixed] + [f])))
        out = []
        seen = set()
        self.litforms = set(lits) | {f_not(g) for g in lits}
        if os.environ.get("VPC"):
            print("CANDS keys", [str(ph[k]) for k in ks], "inits", [[str(i[k]) for k in ks] for _, i in inits])
            print("  forms", [t.showf(f) for f in forms][:80])
        for f in forms:
            if f in seen or f[0] in ("T", "F"):
                continue
            seen.add(f)
            at = t.val_atoms(f, set())
            used = {k: ph[k] for k in keys if ph[k].id in at}
            if not used:
                continue
            c = (f, used, frozenset())
            ok = True
            for facts0, im in inits:
                g = self.cand_at(c, im)
                if not (g[0] == "T" or implied(facts0, g, 3)):
                    ok = False
                    break
            if ok:
                # disjuncts other than entry must satisfy it as well: checked inductively
                out.append(c)
            if len(out) >= 60:
                break
        return out


def f_or_shallow(a, b):
    return F


# ================================================================ instructions
def _num(v):
    if isinstance(v, tuple):
        return b2i(v)
    return v


class I:
    @staticmethod
    def alloca(self, s, ins):
        b = Base("alloca", ins.get("n") or "tmp", size=num(ins["sz"]), info=ins.get("st"))
        b.born = t.fresh_id()
        self.setreg(s, ins, Ptr(b))

    @staticmethod
    def load(self, s, ins):
        p = self.ev(s, ins["ops"][0])
        ty = ins["t"]
        if ty in ("struct", "array", "vector", "other"):
            if ty == "vector":
                self.setreg(s, ins, Undef("vector"))
                return
            raise EngineError("aggregate load")
        self.access(s, p, ins["sz"], "read")
        if s.dead:
            return
        if ty == "ptr" and isinstance(p, Ptr) and p.base.kind == "sym" and isinstance(p.base.info, tuple) and p.base.info[0] == "data" and not p.off.is_const():
            # the one element of a vector of pointers that is known: is it this one?
            o = s.mem.rd(p.base)
            if o is not None and p.off not in o.cells:
                ks = [k for k, c in o.cells.items() if isinstance(k, Poly) and c[0] == 8 and isinstance(c[1], Ptr) and c[2]]
                if len(ks) == 1:
                    outs = self.fork_on(s, f_eq(sub(p.off, ks[0])))
                    if len(outs) == 2:
                        res = []
                        for side, st in outs:
                            I.load_go(self, st, ins, Ptr(p.base, ks[0]) if side else p, ty)
                            st.frames[-1].idx += 1
                            res.append(("work", st))
                        return res
        I.load_go(self, s, ins, p, ty)

    @staticmethod
    def load_go(self, s, ins, p, ty):
        v = self.mem_load(s, p, ins["sz"], ty, ins.get("tb"))
        self.setreg(s, ins, v)

    @staticmethod
    def store(self, s, ins):
        v = self.ev(s, ins["ops"][0])
        p = self.ev(s, ins["ops"][1])
        self.access(s, p, ins["sz"], "write")
        if s.dead:
            return
        if isinstance(v, Agg):
            # store of a small aggregate: not produced by clang for classes
            self.havoc_obj(s, p, ins["sz"])
            return
        self.mem_store(s, p, ins["sz"], v, ins.get("tb"))

    @staticmethod
    def gep(self, s, ins):
        b = self.ev(s, ins["base"])
        if isinstance(b, Undef):
            self.setreg(s, ins, b)
            return
        off = add(b.off, num(ins["co"]))
        for v, k in ins["vo"]:
            x = self.ev(s, v)
            if isinstance(x, Undef):
                self.undef_use(s, "index")
                x = pa(fresh("undef"))
            off = add(off, scale(_num(x), k))
        self.setreg(s, ins, Ptr(b.base, off))

    @staticmethod
    def arith(self, s, ins):
        a = self.ev(s, ins["ops"][0])
        b = self.ev(s, ins["ops"][1]) if len(ins["ops"]) > 1 else None
        op = ins["op"]
        ty = ins["t"]
        if ty == "vector":
            self.setreg(s, ins, Undef("vector op"))
            return
        if ty == "i1":
            if isinstance(a, Undef) or isinstance(b, Undef):
                self.setreg(s, ins, ("b", fresh("undef", "bool")))
                return
            fa = a if isinstance(a, tuple) else p2b(a)
            fb = b if isinstance(b, tuple) else p2b(b)
            if op == "and":
                r = f_and(fa, fb)
            elif op == "or":
                r = f_or(fa, fb)
            elif op == "xor":
                if fb[0] == "T":
                    r = f_not(fa)
                elif fa[0] == "T":
                    r = f_not(fb)
                else:
                    r = f_not(t.f_iff(fa, fb))
            else:
                raise EngineError("i1 op " + op)
            self.setreg(s, ins, r)
            return
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.setreg(s, ins, a if isinstance(a, Undef) else b)
            return
        a = _num(a)
        if b is not None:
            b = _num(b)
        if op in ("add", "fadd"):
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                raise EngineError("ptr add")
            r = add(a, b)
        elif op in ("sub", "fsub"):
            r = sub(a, b)
        elif op in ("mul", "fmul"):
            r = mul(a, b)
        elif op == "fneg":
            r = neg(a)
        elif op == "fdiv":
            self.div_check(s, b)
            r = t.div(a, b)
        elif op == "frem":
            r = sub(a, mul(b, t.fn1("trunc", t.div(a, b))))
        elif op in ("sdiv", "udiv", "srem", "urem"):
            return self.intdiv(s, ins, op, a, b)
        elif op == "shl":
            c = b.cval()
            r = scale(a, 2 ** int(c)) if c is not None else pa(atom("shl", (a, b), "int"))
        elif op in ("ashr", "lshr"):
            c = b.cval()
            if c is not None:
                d = 2 ** int(c)
                x1 = a.single_atom()
                if d == 1 << 32 and x1 is not None and x1.kind == "concat":
                    r = x1.args[1]
                elif all((not isinstance(x, Fraction)) and x % d == 0 for x in a.t.values()):
                    r = scale(a, Fraction(1, d))
                else:
                    r = t.fn1("floor", scale(a, Fraction(1, d)))
            else:
                r = pa(atom("shr", (a, b), "int"))
        elif op in ("and", "or", "xor"):
            ca, cb = a.cval(), b.cval()
            if ca is not None and cb is not None:
                x, y = int(ca), int(cb)
                r = num(x & y if op == "and" else x | y if op == "or" else x ^ y)
            elif op == "xor" and cb == -1:
                r = sub(neg(a), ONE)
            elif op == "and" and (cb == 255 or cb == 4294967295) :
                r = a if self.in_range(s, a, cb) else pa(atom("and", (a, b), "int"))
            elif op == "and" and cb == 1 and all(a.t[m] in (1,) for m in a.t) and a.single_atom() is not None and a.single_atom().ty == "bool":
                r = a
            else:
                A = [a, b]
                tg = self.tagged(a)
                if tg is not None and cb is not None and not tg[0].off.t and 0 <= tg[1] < 8 and (-8 <= cb < 0 or 0 <= cb < 8) and op in ("and", "or"):
                    # objects are aligned: the low bits of their address are zero
                    cb = int(cb)
                    if op == "or":
                        r = add(a, num((tg[1] | cb) - tg[1])) if cb >= 0 else pa(atom(op, (a, b), "int"))
                    elif cb >= 0:
                        r = num(tg[1] & cb)
                    else:
                        r = sub(a, num(tg[1] - (tg[1] & cb)))
                    self.setreg(s, ins, r)
                    return
                if all(self.is_bool01(x) for x in A):
                    fa, fb = p2b(a), p2b(b)
                    r = b2i(f_and(fa, fb) if op == "and" else f_or(fa, fb) if op == "or" else f_not(t.f_iff(fa, fb)))
                else:
                    r = None
                    if op == "or":
                        for lo, hi in ((a, b), (b, a)):
                            if hi.t and all((not isinstance(x, Fraction)) and x % (1 << 32) == 0 for x in hi.t.values()):
                                r = pa(atom("concat", (lo, scale(hi, Fraction(1, 1 << 32))), "int"))
                                break
                    if r is None:
                        r = pa(atom(op, (a, b), "int"))
        else:
            raise EngineError("op " + op)
        self.setreg(s, ins, r)

    @staticmethod
    def icmp(self, s, ins):
        a = self.ev(s, ins["ops"][0])
        b = self.ev(s, ins["ops"][1])
        p = ins["p"]
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.setreg(s, ins, Undef("cmp"))
            return
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if p in ("eq", "ne"):
                f = ptr_eq(a, b)
                if f[0] not in ("T", "F") and isinstance(a, Ptr) and isinstance(b, Ptr) and a.base is b.base and any(len(m) > 1 for m in sub(a.off, b.off).t) \
                        and implied(s.facts, f_ne(sub(a.off, b.off)), 3):
                    f = F
                self.setreg(s, ins, f if p == "eq" else f_not(f))
                return
            if a.base is b.base:
                d = sub(a.off, b.off)
                f = {"ult": f_lt(d), "ule": f_le(d), "ugt": f_lt(neg(d)), "uge": f_le(neg(d))}[p]
                self.setreg(s, ins, f)
                return
            self.setreg(s, ins, ("b", atom("ptrlt", (a, b, p), "bool")))
            return
        if ins["ot"] == "i1":
            fa = a if isinstance(a, tuple) else p2b(a)
            fb = b if isinstance(b, tuple) else p2b(b)
            if fb[0] == "F":
                iff = f_not(fa)
            elif fb[0] == "T":
                iff = fa
            else:
                iff = t.f_iff(fa, fb)
            if p == "eq":
                self.setreg(s, ins, iff)
            elif p == "ne":
                self.setreg(s, ins, f_not(iff))
            else:
                return self.icmp_go(s, ins, b2i(fa), b2i(fb), p)
            return
        a, b = _num(a), _num(b)
        return self.icmp_go(s, ins, a, b, p)

    @staticmethod
    def fcmp(self, s, ins):
        a = self.ev(s, ins["ops"][0])
        b = self.ev(s, ins["ops"][1])
        p = ins["p"]
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.setreg(s, ins, Undef("fcmp"))
            return
        d = sub(a, b)
        if p in ("uno",):
            f = F
        elif p in ("ord",):
            f = T
        else:
            q = p[1:]
            f = {"lt": lambda: f_lt(d), "le": lambda: f_le(d), "gt": lambda: f_lt(neg(d)), "ge": lambda: f_le(neg(d)),
                 "eq": lambda: f_eq(d), "ne": lambda: f_not(f_eq(d))}[q]()
        self.setreg(s, ins, f)

    @staticmethod
    def pack(self, s, ins):
        a, b = (self.ev(s, x) for x in ins["ops"])
        self.setreg(s, ins, a if isinstance(a, Undef) else b if isinstance(b, Undef) else pa(atom("concat", (_num(a), _num(b)), "int")))

    @staticmethod
    def cast(self, s, ins):
        a = self.ev(s, ins["ops"][0])
        op = ins["op"]
        if isinstance(a, Undef):
            self.setreg(s, ins, a)
            return
        ot = ins["ot"]
        ty = ins["t"]
        if op == "zext":
            if "pk" in ins:
                self.setreg(s, ins, a)      # only used by a pack instruction, which takes the narrow value
                return
            if ot == "i1":
                self.setreg(s, ins, b2i(a if isinstance(a, tuple) else p2b(a)))
                return
            return self.zext(s, ins, a, ot)
        if op == "sext":
            if ot == "i1":
                self.setreg(s, ins, neg(b2i(a)))
                return
            if ot == "i8":
                self.setreg(s, ins, self.ext8(a, "sext8"))
                return
            self.setreg(s, ins, a)
            return
        if op == "trunc":
            if ty == "i1":
                if isinstance(a, Poly) and not self.is_bool01(a):
                    x = a.single_atom()
                    if x is not None and x.kind in ("load", "sym"):
                        self.setreg(s, ins, p2b(a))
                        return
                self.setreg(s, ins, p2b(a) if isinstance(a, Poly) else a)
                return
            if ty == "i8":
                x = a.single_atom()
                if x is not None and x.kind in ("zext8", "sext8"):
                    self.setreg(s, ins, x.args[0])
                    return
                c = a.cval()
                if c is not None:
                    c = int(c) & 255
                    self.setreg(s, ins, num(c - 256 if c > 127 else c))
                    return
                self.setreg(s, ins, a if self.is_bool01(a) else pa(atom("trunc8", (a,), "int")))
                return
            if ty == "i32" and isinstance(a, Poly):
                x = a.single_atom()
                if x is not None and x.kind == "concat":
                    self.setreg(s, ins, self.conv(x.args[0], "i32"))
                    return
                c = a.cval()
                if c is not None:
                    c = int(c) & 0xffffffff
                    self.setreg(s, ins, num(c - (1 << 32) if c >= (1 << 31) else c))
                    return
            self.setreg(s, ins, a)
            return
        if op in ("fpext", "fptrunc", "freeze"):
            self.setreg(s, ins, a)
            return
        if op == "sitofp":
            if ot == "i8":
                a = self.ext8(a, "sext8")
            self.setreg(s, ins, _num(a))
            return
        if op == "uitofp":
            if ot == "i1":
                self.setreg(s, ins, b2i(a))
                return
            return self.zext(s, ins, a, ot)
        if op in ("fptosi", "fptoui"):
            self.setreg(s, ins, t.fn1("trunc", a))
            return
        if op == "ptrtoint":
            self.setreg(s, ins, self.p2i(a))
            return
        if op == "inttoptr":
            self.setreg(s, ins, self.conv(a, "ptr"))
            return
        if op == "bitcast":
            if ty == ot:
                self.setreg(s, ins, a)
                return
            self.setreg(s, ins, pa(atom("bitcast", (a, ty), "real" if ty in ("float", "double") else "int")) if ty != "vector" else Undef("vec"))
            return
        raise EngineError("cast " + op)

    @staticmethod
    def select(self, s, ins):
        c = self.ev(s, ins["ops"][0])
        a = self.ev(s, ins["ops"][1])
        b = self.ev(s, ins["ops"][2])
        if isinstance(c, Undef):
            self.undef_use(s, "condition")
            c = ("b", fresh("undef", "bool"))
        if ins["t"] == "i1" and not isinstance(a, Undef) and not isinstance(b, Undef):
            self.setreg(s, ins, f_or(f_and(c, a), f_and(f_not(c), b)))
            return
        if a == b:
            self.setreg(s, ins, a)
            return
        outs = self.fork_on(s, c)
        res = []
        for side, st in outs:
            st.frames[-1].regs[ins["id"]] = a if side else b
            st.frames[-1].idx += 1
            res.append(("work", st))
        return res

    @staticmethod
    def br(self, s, ins):
        fr = s.frames[-1]
        to = ins["to"]
        if len(to) == 1:
            s.pending = to[0]
            return [("work", s)]
        c = self.ev(s, ins["c"])
        if isinstance(c, Undef):
            self.undef_use(s, "branch")
            c = ("b", fresh("undef", "bool"))
        if isinstance(c, Poly):
            c = p2b(c)
        outs = self.fork_on(s, c)
        res = []
        fn = fr.fn
        infile = ins.get("f", "")
        for side, st in outs:
            st.pending = to[0 if side else 1]
            if len(outs) == 2:
                if infile.startswith(self.repo + "/"):
                    st.trail.append((infile[len(self.repo) + 1:], ins.get("l", 0), ("" if side else "not ") + t.showf(c)[:160]))
            st.open = len(outs) == 2
            res.append(("work", st))
        return res

    @staticmethod
    def ret(self, s, ins):
        fr = s.frames.pop()
        v = None
        if ins["ops"]:
            o = ins["ops"][0]
            v = fr.regs[o] if type(o) is int else self.p.const(o)
        if not s.frames:
            return [("done", s)]
        cal = s.frames[-1]
        ci = cal.fn.blocks[cal.block][cal.idx]
        if v is not None:
            cal.regs[ci["id"]] = v
        if ci["op"] == "invoke":
            s.pending = ci["ok"]
            return [("work", s)]
        cal.idx += 1
        return [("work", s)]

    @staticmethod
    def unreachable(self, s, ins):
        s.dead = True

    @staticmethod
    def extractvalue(self, s, ins):
        v = self.ev(s, ins["ops"][0])
        for k in ins["ix"]:
            if isinstance(v, Undef):
                break
            v = v.e[k]
        if ins["t"] == "i1" and isinstance(v, Poly):
            v = p2b(v)
        self.setreg(s, ins, v)

    @staticmethod
    def insertvalue(self, s, ins):
        v = self.ev(s, ins["ops"][0])
        x = self.ev(s, ins["ops"][1])
        ix = ins["ix"]

        def put(v, ix):
            if isinstance(v, Undef):
                v = Agg([Undef("agg")] * (ix[0] + 1))
            e = list(v.e)
            while len(e) <= ix[0]:
                e.append(Undef("agg"))
            e[ix[0]] = x if len(ix) == 1 else put(e[ix[0]], ix[1:])
            return Agg(e)
        self.setreg(s, ins, put(v, ix))

    @staticmethod
    def phi(self, s, ins):
        raise EngineError("phi reached")

    @staticmethod
    def landingpad(self, s, ins):
        # selector decided at unwind time
        self.setreg(s, ins, Agg([s.exc[0] if s.exc else NULL, s.exc[2] if s.exc else ZERO]))

    @staticmethod
    def resume(self, s, ins):
        return self.unwind(s)

    @staticmethod
    def call(self, s, ins):
        return self.do_call(s, ins)

    @staticmethod
    def vecop(self, s, ins):
        self.setreg(s, ins, Undef("vector"))


def _m(cls):
    def dec(f):
        setattr(cls, f.__name__, f)
        return f
    return dec


@_m(Interp)
def undef_use(self, s, what):
    if self.check_undef:
        self.oblige(s, "uninit", F, "%s depends on a value that was never assigned" % what, assume=False)


@_m(Interp)
def div_check(self, s, b):
    pass


@_m(Interp)
def is_bool01(self, p):
    if isinstance(p, tuple):
        return True
    c = p.cval()
    if c is not None:
        return c in (0, 1)
    a = p.single_atom()
    if a is not None and a.ty == "bool":
        return True
    a = sub(ONE, p).single_atom()
    return a is not None and a.ty == "bool"


@_m(Interp)
def in_range(self, s, a, hi):
    return implied(s.facts, f_le(neg(a)), 2) and implied(s.facts, f_le(sub(a, num(hi))), 2)


@_m(Interp)
def ext8(self, a, kind):
    c = a.cval()
    if c is not None:
        c = int(c)
        return num(c & 255) if kind == "zext8" else num(c)
    if self.is_bool01(a):
        return a
    x = a.single_atom()
    if x is not None and x.kind == "trunc8":
        return pa(atom("zext8", (a,), "int"))
    return pa(atom(kind, (a,), "int"))


@_m(Interp)
def zext(self, s, ins, a, ot):
    """unsigned reading of a value; splits on the sign when it is unknown"""
    a = _num(a)
    if ot == "i8":
        self.setreg(s, ins, self.ext8(a, "zext8"))
        return
    sg = self.known_sign(s, a)
    if sg == 1:
        self.setreg(s, ins, a)
        return
    w = {"i32": 2 ** 32, "i64": 2 ** 64, "i16": 2 ** 16}.get(ot, 2 ** 32)
    if sg == -1:
        self.setreg(s, ins, add(a, num(w)))
        return
    outs = self.fork_on(s, f_le(neg(a)))
    res = []
    for side, st in outs:
        st.frames[-1].regs[ins["id"]] = a if side else add(a, num(w))
        st.frames[-1].idx += 1
        res.append(("work", st))
    return res


@_m(Interp)
def icmp_go(self, s, ins, a, b, p):
    if ins["ot"] == "i8":
        # compare bytes by their unsigned / signed reading
        k = "sext8" if p[0] == "s" else "zext8"
        a, b = self.ext8(a, k), self.ext8(b, k)
    elif p[0] == "u" and p not in ("une",):
        w = num({"i32": 2 ** 32, "i64": 2 ** 64, "i16": 2 ** 16}.get(ins["ot"], 2 ** 32))
        for x, other in ((a, b), (b, a)):
            sg = self.known_sign(s, x)
            if sg == 0:
                outs = self.fork_on(s, f_le(neg(x)))
                if len(outs) == 1:
                    s = outs[0][1]
                else:
                    return [("work", st) for _, st in outs]
        if self.known_sign(s, a) == -1:
            a = add(a, w)
        if self.known_sign(s, b) == -1:
            b = add(b, w)
    d = sub(a, b)
    q = p[1:] if p[0] in "us" and p not in ("sle", "x") and len(p) == 3 else p
    if p == "eq":
        f = f_eq(d)
    elif p == "ne":
        f = f_not(f_eq(d))
    else:
        q = p[1:]
        f = {"lt": f_lt(d), "le": f_le(d), "gt": f_lt(neg(d)), "ge": f_le(neg(d))}[q]
    self.setreg(s, ins, f)


@_m(Interp)
def intdiv(self, s, ins, op, a, b):
    c, d = a.cval(), b.cval()
    if d == 0:
        self.oblige(s, "div0", F, "integer division by zero")
        s.dead = True
        return
    if c is not None and d is not None:
        q = abs(int(c)) // abs(int(d)) * (1 if (c >= 0) == (d > 0) else -1)
        r = c - q * d
        self.setreg(s, ins, num(q if op[1:] == "div" else r))
        return
    if d is not None and all((not isinstance(x, Fraction)) and x % int(d) == 0 for x in a.t.values()):
        self.setreg(s, ins, scale(a, Fraction(1, int(d))) if op[1:] == "div" else ZERO)
        return
    if op[1:] == "div" and d == 1:
        self.setreg(s, ins, a)
        return
    unsigned = op[0] == "u"
    if unsigned:
        for x in (a, b):
            if self.known_sign(s, x) == 0:
                outs = self.fork_on(s, f_le(neg(x)))
                if len(outs) == 2:
                    return [("work", st) for _, st in outs]
        w = num({"i32": 2 ** 32, "i64": 2 ** 64}.get(ins["t"], 2 ** 32))
        if self.known_sign(s, a) == -1:
            a = add(a, w)
        if self.known_sign(s, b) == -1:
            b = add(b, w)
    k = "udiv" if (unsigned or (self.known_sign(s, a) == 1 and implied(s.facts, f_lt(neg(b)), 1))) else "idiv"
    # exact quotient: (q*b + r)/b with 0 <= r < b known
    q = pa(atom(k, (a, b), "int"))
    if d is not None and d > 1:
        # an integral bound of the quotient, where the dividend has a constant one
        m, top = 1, None
        while m <= 64:
            if implied(s.facts, f_lt(sub(a, num(d * m))), 2):
                top = m
                break
            m *= 2
        if top is not None:
            lo = top // 2
            while top - lo > 1:
                k2 = (lo + top) // 2
                if implied(s.facts, f_lt(sub(a, num(d * k2))), 2):
                    top = k2
                else:
                    lo = k2
            s.assume(f_le(sub(q, num(top - 1))))
    self.setreg(s, ins, q if op[1:] == "div" else sub(a, mul(b, q)))


@_m(Interp)
def access(self, s, p, size, what):
    if isinstance(p, Undef):
        self.undef_ptr(s, what)
        return
    b = p.base
    if b is NULLBASE:
        self.oblige(s, "null", F, "%s through a null pointer" % what)
        s.dead = True
        return
    if b.kind == "heap" and b.name != "exception" and self.gget(s, Ptr(b), "freed") is not None:
        self.oblige(s, "use-after-free", F, "%s of a released object" % what)
        s.dead = True
        return
    if not self.check_bounds:
        return
    lim = None
    if b.kind == "heap" or (b.kind == "alloca" and not p.off.is_const()) or (b.kind == "global" and not p.off.is_const()):
        lim = b.size
    elif b.kind == "sym" and isinstance(b.info, tuple) and b.info[0] == "data":
        n = self.gget(s, b.info[1], "vsize")
        if n is None:
            n = self.M.ghost_initial(s, b.info[1], "vsize")
        es = b.size
        if n is not None and es is not None:
            lim = mul(es, n)
    if lim is None:
        return
    file, line, fn = self.where(s)
    self.oblige(s, ("bounds", file, line), f_and(f_le(neg(p.off)), f_le(sub(add(p.off, num(size)), lim))),
                "%s of %d byte(s) at offset %s of an object of %s bytes" % (what, size, t.show(p.off)[:120], t.show(lim)[:80]))


@_m(Interp)
def do_call(self, s, ins):
    name = ins.get("fn")
    if name is None:
        fp = self.ev(s, ins["fp"])
        if isinstance(fp, Ptr) and fp.base.kind == "fn":
            name = fp.base.info
        elif isinstance(fp, Ptr) and fp.base is NULLBASE:
            self.oblige(s, "null", F, "call through a null pointer")
            s.dead = True
            return
        else:
            return self.M.unknown_call(s, ins, fp)
    fn = self.p.fns.get(name)
    if fn is None:
        raise EngineError("call of unknown function " + name)
    args = [self.ev(s, a) for a in ins["args"]]
    rf = self.M.replaced.get(fn.qn)
    if rf is not None and not any(f.fn is rf for f in s.frames):
        fn = rf     # (a call from within the replacement means the original)
    r = self.M.call(s, ins, fn, args)
    if r is not NotImplemented:
        return r
    if fn.blocks:
        mode = self.M.merge_mode(fn)
        if mode and sum(1 for f in s.frames if f.fn is fn) == 0:
            r = self.enter(s, ins, fn, args)
            if len(r) == 1 and r[0][0] == "work" and len(s.frames) > 1 and s.frames[-1].fn is fn:
                # (a copy: the state itself must not die with one of the paths through the call)
                _, exits = self.explore([s.fork()], Region(len(s.frames), None, AllBlocks()))
                return [("work", x) for x in self.merge_exits(exits, mode)]
            return r
        return self.enter(s, ins, fn, args)
    return self.M.opaque(s, ins, fn, args)


@_m(Interp)
def merge_exits(self, states, mode):
    """join the states in which a call ends (values that differ become unknown)"""
    groups = {}
    for b in states:
        fr = b.frames[-1]
        groups.setdefault((len(b.frames), fr.block, fr.idx, b.pending, id(b.exc)), []).append(b)
    out = []
    for g in groups.values():
        todo = list(g)
        while todo:
            m = todo.pop(0)
            rest = []
            for b in todo:
                j = self.join2(m, b, (), mode)
                if j is None:
                    rest.append(b)
                else:
                    m = j
            out.append(m)
            todo = rest
    if os.environ.get("VPC"):
        print("MERGE %s %d -> %d" % (states[0].frames[-1].fn.dem if states else "", len(states), len(out)))
    return out


@_m(Interp)
def enter(self, s, ins, fn, args):
    depth = sum(1 for f in s.frames if f.fn is fn)
    if depth >= 3 or len(s.frames) > self.lim.max_depth:
        self.opaque["recursion:" + fn.qn] = self.opaque.get("recursion:" + fn.qn, 0) + 1
        return self.M.opaque(s, ins, fn, args)
    self.fns_seen[fn.name] = self.fns_seen.get(fn.name, 0) + 1
    fr = self.new_frame(fn)
    for a, v in zip(fn.args, args):
        if "byval" in a:
            b = Base("alloca", a["n"] or "byval", size=num(a["byval"]))
            b.born = t.fresh_id()
            self.memcpy(s, Ptr(b), v, num(a["byval"]))
            v = Ptr(b)
        fr.regs[a["id"]] = v
    s.frames.append(fr)
    return [("work", s)]


@_m(Interp)
def finish_call(self, s, ins, v):
    """a modelled call returned v in the current state"""
    fr = s.frames[-1]
    if v is not None:
        fr.regs[ins["id"]] = v
    if ins["op"] == "invoke":
        s.pending = ins["ok"]
        return [("work", s)]
    fr.idx += 1
    return [("work", s)]


@_m(Interp)
def unwind(self, s):
    """propagate s.exc=(ptr, typename) to the nearest handler"""
    while s.frames:
        fr = s.frames[-1]
        ins = fr.fn.blocks[fr.block][fr.idx]
        if ins["op"] == "invoke":
            tgt = ins["ex"]
            lp = None
            for x in fr.fn.blocks[tgt]:
                if x["op"] == "landingpad":
                    lp = x
                    break
            sel = ZERO
            for c in lp["cl"]:
                if not c["catch"]:
                    continue
                v = c["v"]
                if v["k"] == "p":
                    sel = num(1)
                    break
                if self.M.exc_matches(s.exc[1], v.get("n")):
                    sel = self.M.typeid(v.get("n"))
                    break
            s.exc = (s.exc[0], s.exc[1], sel)
            s.pending = tgt
            return [("work", s)]
        s.frames.pop()
    self.M.uncaught(s)
    return [("done", s)]


DISPATCH = {
    "pack": I.pack,
    "alloca": I.alloca, "load": I.load, "store": I.store, "gep": I.gep, "icmp": I.icmp, "fcmp": I.fcmp,
    "select": I.select, "br": I.br, "ret": I.ret, "unreachable": I.unreachable, "extractvalue": I.extractvalue,
    "insertvalue": I.insertvalue, "phi": I.phi, "landingpad": I.landingpad, "resume": I.resume, "call": I.call, "invoke": I.call,
    "freeze": I.cast, "extractelement": I.vecop, "insertelement": I.vecop, "shufflevector": I.vecop,
}
for _o in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "shl", "lshr", "ashr", "and", "or", "xor"):
    DISPATCH[_o] = I.arith
for _o in ("zext", "sext", "trunc", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "ptrtoint", "inttoptr", "bitcast"):
    DISPATCH[_o] = I.cast
