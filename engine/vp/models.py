"""Semantics of the functions outside /repo: the C++ runtime, libm, the standard
containers, and the vp_* vocabulary used by the driver files."""
import itertools
import re
from fractions import Fraction
from . import terms as t
from .terms import (Poly, Ptr, Base, Undef, Agg, ZERO, ONE, NULL, NULLBASE, T, F, num, pa, add, sub, mul, neg, scale,
                    f_le, f_lt, f_eq, f_not, f_and, f_or, b2i, p2b, Stamp, atom, fresh, sym_base, ptr_eq)
from .poly import implied

SCALAR = {"bool": 1, "char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4,
          "long": 8, "unsigned long": 8, "float": 4, "double": 8, "long long": 8, "unsigned long long": 8}

MATH1 = {"sqrt": "sqrt", "sqrtf": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "asin": "asin", "acos": "acos", "atan": "atan", "exp": "exp",
         "log": "log", "floor": "floor", "floorf": "floor", "ceil": "ceil", "ceilf": "ceil", "round": "round", "roundf": "round", "lround": "round",
         "trunc": "trunc", "rint": "round", "nearbyint": "round", "lrint": "round", "llround": "round", "sinf": "sin", "cosf": "cos"}

OPAQUE_PREFIX = ("std::basic_string", "std::basic_ostream", "std::basic_istream", "std::basic_ios", "std::basic_stringstream", "std::basic_ostringstream",
                 "std::operator<<", "std::ios_base", "std::endl", "std::to_string", "std::getline", "std::locale", "std::basic_filebuf",
                 "std::basic_ofstream", "std::basic_ifstream", "std::allocator", "std::setprecision", "std::hex", "std::dec", "std::flush",
                 "std::runtime_error", "std::logic_error", "std::invalid_argument", "std::out_of_range", "std::exception", "boost::exception")


def tmpl_arg(d, cls):
    """first template argument of cls<...> in a demangled name"""
    i = d.find(cls + "<")
    if i < 0:
        return None
    j = i + len(cls) + 1
    depth = 0
    k = j
    while k < len(d):
        c = d[k]
        if c in "<(":
            depth += 1
        elif c in ">)":
            if depth == 0:
                break
            depth -= 1
        elif c == "," and depth == 0:
            break
        k += 1
    return d[j:k].strip()


def params(d):
    """parameter list text of a demangled function"""
    depth = 0
    # last balanced parenthesis group
    e = d.rfind(")")
    if e < 0:
        return ""
    k = e
    while k >= 0:
        if d[k] == ")":
            depth += 1
        elif d[k] == "(":
            depth -= 1
            if depth == 0:
                return d[k + 1:e]
        k -= 1
    return ""


class Models:
    def __init__(self, I):
        self.I = I
        self.cache = {}
        self.tids = {}
        self.havoc_fns = set()
        self.replaced = {}
        self.merged = set()
        self.extra = {}     # qualname -> handler(I, s, ins, fn, args)

    # ------------------------------------------------------------------ dispatch
    def call(self, s, ins, fn, args):
        h = self.cache.get(fn.name)
        if h is None:
            h = self.find(fn)
            self.cache[fn.name] = h
        if h is NotImplemented:
            return NotImplemented
        return h(s, ins, fn, args)

    def find(self, fn):
        n, q, d = fn.name, fn.qn, fn.dem
        if q in self.extra:
            x = self.extra[q]
            return lambda s, ins, f, a: x(self.I, s, ins, f, a)
        if q in self.havoc_fns:
            return self.havoc_this
        if n.startswith("vp_pure_"):
            return self.vp_pure
        if n.startswith("vp_"):
            h = getattr(self, n, None)
            if h is not None:
                return h
            if n.startswith("vp_any_"):
                return self.vp_any
            return NotImplemented if fn.blocks else self.opaque
        if n.startswith("llvm."):
            return self.intrinsic
        if q.startswith("Eigen::internal::print_matrix") or q.startswith("Eigen::operator<<"):
            return lambda s, ins, f, a: self.ret(s, ins, a[0])
        if n in MATH1:
            return self.math1
        h = getattr(self, "f_" + n.replace(".", "_"), None)
        if h is not None and not (n == "rand" and fn.blocks):
            return h
        if n.startswith("_Znw") or n.startswith("_Zna"):
            return self.op_new
        if n.startswith("_Zdl") or n.startswith("_Zda"):
            return self.op_delete
        if n.startswith("__cxa_") or n in ("_ZSt9terminatev", "__clang_call_terminate", "abort", "exit", "__assert_fail"):
            return self.cxa
        m = re.match(r"std::vector::(.*)$", q)
        if m and "std::vector<bool" not in d:
            meth = m.group(1)
            hn = {"operator[]": "index", "operator=": "assign_op", "~vector": "dtor", "vector": "ctor", "begin": "begin", "cbegin": "begin", "end": "end", "cend": "end"}.get(meth, meth)
            h = getattr(self, "v_" + hn, None)
            if h is not None:
                return lambda s, ins, f, a: self.vec(h, s, ins, f, a)
            return NotImplemented
        if q.startswith("std::_Vector_base"):
            return self.noop
        if q.startswith("__gnu_cxx::new_allocator") or q.startswith("std::__new_allocator") or q.startswith("std::allocator"):
            if "allocator_traits<Eigen::aligned_allocator" in d or q.endswith("::construct"):
                return NotImplemented
            return self.noop
        if q in ("std::swap",) or q.startswith("std::move") or q.startswith("std::forward"):
            return NotImplemented
        for p in OPAQUE_PREFIX:
            if q.startswith(p):
                return self.std_opaque
        if q in self.I.stop_fns:
            return self.opaque
        return NotImplemented

    def ret(self, s, ins, v=None):
        return self.I.finish_call(s, ins, v)

    def noop(self, s, ins, fn, args):
        return self.ret(s, ins, self.fresh_ret(fn, "noop") if fn.ret != "void" else None)

    def fresh_ret(self, fn, nm):
        r = fn.ret
        if r == "void":
            return None
        if r == "ptr":
            return Ptr(sym_base(("opq", Stamp(t.fresh_id())), "ret:" + nm))
        if r == "i1":
            return ("b", fresh(nm, "bool"))
        if r in ("float", "double"):
            return pa(fresh(nm, "real"))
        if r in ("struct", "array", "vector"):
            return Undef("ret:" + nm)
        return pa(fresh(nm, "int"))

    def std_opaque(self, s, ins, fn, args):
        if fn.qn.startswith("std::operator<<") or fn.qn.endswith("operator<<"):
            return self.ret(s, ins, args[0] if fn.ret == "ptr" else self.fresh_ret(fn, "os"))
        for a in args[:1]:
            if isinstance(a, Ptr) and a.base.kind in ("alloca", "heap"):
                self.I.havoc_obj(s, a, 32)
        return self.ret(s, ins, self.fresh_ret(fn, fn.qn))

    def opaque(self, s, ins, fn, args):
        """unknown code: may write every object it is handed"""
        self.I.opaque[fn.qn] = self.I.opaque.get(fn.qn, 0) + 1
        for a in args:
            if isinstance(a, Ptr) and a.base is not NULLBASE:
                self.I.havoc_obj(s, a)
        return self.ret(s, ins, self.fresh_ret(fn, fn.qn))

    def unknown_call(self, s, ins, fp):
        self.I.opaque["indirect"] = self.I.opaque.get("indirect", 0) + 1
        for a in ins["args"]:
            v = self.I.ev(s, a)
            if isinstance(v, Ptr) and v.base is not NULLBASE:
                self.I.havoc_obj(s, v)

        class R:
            ret = ins["t"]
            qn = "indirect"
        return self.ret(s, ins, self.fresh_ret(R, "indirect"))

    # ------------------------------------------------------------------ driver vocabulary
    def cstr(self, p):
        if isinstance(p, Ptr) and p.base in self.I.p.ginit:
            ini = self.I.p.ginit[p.base]
            out = []
            o = int(p.off.cval() or 0)
            while o in ini:
                c = self.I.p.const(ini[o][2])
                c = int(c.cval()) if isinstance(c, Poly) else 0
                if c == 0:
                    break
                out.append(chr(c & 255))
                o += 1
            return "".join(out)
        return str(p)

    def vp_int(self, s, ins, fn, a):
        return self.ret(s, ins, pa(fresh(self.cstr(a[0]) if a else "int", "int")))

    def vp_nat(self, s, ins, fn, a):
        return self.ret(s, ins, pa(fresh(self.cstr(a[0]) if a else "nat", "nat")))
    vp_u32 = vp_nat
    vp_size = vp_nat

    def vp_real(self, s, ins, fn, a):
        return self.ret(s, ins, pa(fresh(self.cstr(a[0]) if a else "real", "real")))

    def vp_u8(self, s, ins, fn, a):
        return self.ret(s, ins, pa(fresh(self.cstr(a[0]) if a else "u8", "int")))

    def vp_bool(self, s, ins, fn, a):
        return self.ret(s, ins, ("b", fresh(self.cstr(a[0]) if a else "bool", "bool")))

    def vp_ptr(self, s, ins, fn, a):
        """a distinct object with unknown contents"""
        b = Base("sym", self.cstr(a[0]) if a else "obj", info=("arg", Stamp(t.fresh_id())))
        b.const = True
        return self.ret(s, ins, Ptr(b))

    def vp_nodeptr(self, s, ins, fn, a):
        """a pointer that may alias other pointers of its type"""
        b = sym_base(("np", Stamp(t.fresh_id())), self.cstr(a[0]))
        return self.ret(s, ins, Ptr(b))

    def vp_any(self, s, ins, fn, a):
        return self.ret(s, ins, self.fresh_ret(fn, fn.name[7:]))

    def vp_pure(self, s, ins, fn, a):
        r = fn.ret
        args = (fn.name[8:],) + tuple(a)
        if any(isinstance(x, Undef) for x in a):
            self.I.undef_use(s, "argument of " + fn.name[8:])
            return self.ret(s, ins, self.fresh_ret(fn, fn.name))
        nm = fn.name[8:]
        if r == "ptr":
            return self.ret(s, ins, Ptr(sym_base(("pure",) + args, nm)))
        if r == "i1":
            return self.ret(s, ins, ("b", atom("call", args, "bool")))
        if r in ("float", "double"):
            return self.ret(s, ins, pa(atom("call", args, "real")))
        x = pa(atom("call", args, "int"))
        if nm.startswith("u_"):
            s.assume(f_le(neg(x)))
        return self.ret(s, ins, x)

    def form(self, v):
        if isinstance(v, Undef):
            return ("b", fresh("undef", "bool"))
        return v if isinstance(v, tuple) else p2b(v)

    def vp_assume(self, s, ins, fn, a):
        f = self.form(a[0])
        from .poly import consistent_with
        if not consistent_with(s.facts, f, 3):
            s.dead = True
            return None
        s.assume(f)
        return self.ret(s, ins)

    def vp_assert(self, s, ins, fn, a):
        I = self.I
        msg = self.cstr(a[1])
        if isinstance(a[0], Undef):
            I.oblige(s, ("assert", msg), F, msg + " (depends on a value that was never assigned)")
            return self.ret(s, ins)
        f = self.form(a[0])
        I.oblige(s, ("assert", msg), f, msg)
        if s.dead:
            return None
        return self.ret(s, ins)

    def vp_reach(self, s, ins, fn, a):
        """coverage point: the driver must be able to get here"""
        msg = self.cstr(a[0])
        o = self.I.obl.setdefault(("reach", msg), {"ok": 0, "fail": [], "msg": msg, "reach": True})
        o["ok"] += 1
        return self.ret(s, ins)

    vp_must = vp_reach

    def vp_stop(self, s, ins, fn, a):
        s.dead = True
        return None

    def vp_fail(self, s, ins, fn, a):
        msg = self.cstr(a[0])
        self.I.oblige(s, ("assert", msg), F, msg)
        s.dead = True
        return None

    def vp_note(self, s, ins, fn, a):
        s.notes.append(self.cstr(a[0]) + " " + " ".join(str(x) for x in a[1:]))
        return self.ret(s, ins)

    def vp_havoc(self, s, ins, fn, a):
        n = a[1].cval() if len(a) > 1 else None
        self.I.havoc_obj(s, a[0], int(n) if n is not None else None)
        return self.ret(s, ins)

    def vp_bounds(self, s, ins, fn, a):
        self.I.check_bounds = a[0].cval() != 0
        return self.ret(s, ins)

    def vp_uninit(self, s, ins, fn, a):
        self.I.check_undef = a[0].cval() != 0
        return self.ret(s, ins)

    def vp_opaque(self, s, ins, fn, a):
        """calls of the named function change the object it is called on in an unknown way"""
        self.havoc_fns.add(self.cstr(a[0]))
        return self.ret(s, ins)

    def vp_merge(self, s, ins, fn, a):
        """the paths through calls of the named function are joined where the call ends (an approximation that only
        loses precision; a name that does not exist has no effect)"""
        self.merged.add(self.cstr(a[0]))
        return self.ret(s, ins)

    def merge_mode(self, fn):
        if not self.merged:
            return None
        if fn.qn in self.merged:
            return "all"
        for m in self.merged:
            if m[-1] == "*" and fn.qn.startswith(m[:-1]):
                return "real"       # only floating point values may be forgotten
        return None

    def vp_replace(self, s, ins, fn, a):
        """calls of the named function go to the named driver function (same parameters, extern C)"""
        q, n = self.cstr(a[0]), self.cstr(a[1])
        if q[0] == "?":         # need not exist
            q = q[1:]
            if not any(f.qn == q for f in self.I.p.fns.values()):
                return self.ret(s, ins)
        if n not in self.I.p.fns or not any(f.qn == q for f in self.I.p.fns.values()):
            from .interp import EngineError
            raise EngineError("vp_replace: %s or %s does not exist" % (q, n))
        self.replaced[q] = self.I.p.fns[n]
        return self.ret(s, ins)

    def havoc_this(self, s, ins, fn, a):
        I = self.I
        if isinstance(a[0], Ptr):
            o = s.mem.wr(a[0].base)
            keep = {k: c for k, c in o.cells.items() if not isinstance(k, tuple) and isinstance(c[1], Ptr) and c[1].base.kind == "global" and str(c[1].base.info).startswith("_ZTV")}
            I.havoc_obj(s, a[0], None)
            o = s.mem.wr(a[0].base)
            o.cells.update(keep)
        return self.ret(s, ins, self.fresh_ret(fn, fn.qn) if fn.ret != "void" else None)

    def vp_assigned(self, s, ins, fn, a):
        """bool vp_assigned(const void*, size): the scalar at p has been written"""
        n = int(a[1].cval())
        ty = {1: "i8", 4: "i32", 8: "double"}[n]
        v = self.I.mem_load(s, a[0], n, ty, None, raw=True)
        return self.ret(s, ins, F if isinstance(v, Undef) else T)

    def vp_unroll(self, s, ins, fn, a):
        self.I.lim.unroll = int(a[0].cval())
        m = int(a[1].cval()) if len(a) > 1 else 40
        self.I.lim.unroll_states, self.I.lim.insist = abs(m), m < 0
        return self.ret(s, ins)

    def vp_print(self, s, ins, fn, a):
        print("vp_print", self.cstr(a[0]), [str(x) for x in a[1:]])
        for f in s.facts:
            print("   ", t.showf(f))
        return self.ret(s, ins)

    def vp_live_heap(self, s, ins, fn, a):
        """number of heap objects allocated and not released on this path"""
        n = 0
        for b in s.mem.objs:
            if b.kind == "heap":
                if self.I.gget(s, Ptr(b), "freed") is None:
                    n += 1
        return self.ret(s, ins, num(n))

    # ------------------------------------------------------------------ arithmetic
    def math1(self, s, ins, fn, a):
        k = MATH1[fn.name]
        return self.ret(s, ins, self.m1(s, k, a[0]))

    def m1(self, s, k, x):
        if isinstance(x, Undef):
            return x
        if k == "sqrt":
            return self.root(s, x)
        if k == "sin":
            return t.fsin(x)
        if k == "cos":
            return t.fcos(x)
        if k == "tan":
            return t.div(t.fsin(x), t.fcos(x))
        if k == "floor" and x.cval() is None and not x.is_int():
            whole = t.Poly({m: c for m, c in x.t.items() if t.Poly({m: c}).is_int()})
            rest = sub(x, whole)
            if len(rest.t) <= 3 and implied(s.facts, f_le(neg(rest)), 1) and implied(s.facts, f_lt(sub(rest, num(1))), 1):
                return whole
        return t.fn1(k, x)

    def root(self, s, p):
        if len(p.t) == 1 and p.cval() is None:
            (m, c), = p.t.items()
            r = t._isqrt_frac(c)
            if r is not None and all(e % 2 == 0 for a, e in m):
                q = Poly({tuple((a, e // 2) for a, e in m): int(r) if r.denominator == 1 else r})
                if implied(s.facts, f_le(neg(q)), 1):
                    return q
                if implied(s.facts, f_le(q), 1):
                    return neg(q)
        if 3 <= len(p.t) <= 6:
            # the square of a sum
            sq = []
            for m, c in p.t.items():
                r = t._isqrt_frac(c) if c > 0 else None
                if r is not None and all(e % 2 == 0 for a, e in m):
                    sq.append(Poly({tuple((a, e // 2) for a, e in m): int(r) if r.denominator == 1 else r}))
            if 2 <= len(sq) <= 3:
                for c in itertools.product((1, -1), repeat=len(sq) - 1):
                    q = sq[0]
                    for k, x in zip(c, sq[1:]):
                        q = add(q, scale(x, k))
                    if mul(q, q) == p:
                        if implied(s.facts, f_le(neg(q)), 1):
                            return q
                        if implied(s.facts, f_le(q), 1):
                            return neg(q)
                        break
        return t.fsqrt(p)

    def clamp(self, s, d):
        if len(d.t) == 1 and d.cval() is None and implied(s.facts, f_lt(sub(neg(d), t.PPI)), 1) and implied(s.facts, f_lt(sub(d, t.PPI)), 1):
            return d
        return t.clamp(d)

    def f_atan2(self, s, ins, fn, a):
        if any(isinstance(x, Undef) for x in a):
            return self.ret(s, ins, a[0] if isinstance(a[0], Undef) else a[1])
        # atan2(sin d, cos d) = d up to whole turns
        ang = []
        for x in a[1].atoms():
            x = t._atom_list[x] if isinstance(x, int) else x
            if x.kind in ("sin", "cos") and x.args[0] not in ang:
                ang.append(x.args[0])
        if 0 < len(ang) <= 3:
            for c in itertools.product((1, -1, 0), repeat=len(ang)):
                d = t.ZERO
                for k, x in zip(c, ang):
                    d = add(d, scale(x, k))
                sd, cd = t.fsin(d), t.fcos(d)
                if sd == a[0] and cd == a[1]:
                    return self.ret(s, ins, self.clamp(s, d))
                if mul(a[0], cd) == mul(a[1], sd):
                    r = add(mul(a[0], sd), mul(a[1], cd))
                    if implied(s.facts, f_lt(neg(r)), 1):
                        return self.ret(s, ins, self.clamp(s, d))
                    if implied(s.facts, f_lt(r), 1):
                        return self.ret(s, ins, self.clamp(s, add(d, t.PPI)))
                elif mul(a[0], sd) == neg(mul(a[1], cd)):
                    r = sub(mul(a[0], cd), mul(a[1], sd))
                    if implied(s.facts, f_lt(neg(r)), 1):
                        return self.ret(s, ins, self.clamp(s, add(d, scale(t.PPI, Fraction(1, 2)))))
                    if implied(s.facts, f_lt(r), 1):
                        return self.ret(s, ins, self.clamp(s, sub(d, scale(t.PPI, Fraction(1, 2)))))
        return self.ret(s, ins, pa(atom("atan2", (a[0], a[1]), "real")))
    f_atan2f = f_atan2

    def vp_angle_clamp(self, s, ins, fn, a):
        if isinstance(a[0], Undef):
            return self.ret(s, ins, a[0])
        return self.ret(s, ins, self.clamp(s, a[0]))

    def f_hypot(self, s, ins, fn, a):
        return self.ret(s, ins, self.root(s, add(mul(a[0], a[0]), mul(a[1], a[1]))))
    f_hypotf = f_hypot

    def f_pow(self, s, ins, fn, a):
        e = a[1].cval()
        if e is not None:
            if Fraction(e).denominator == 1 and 0 <= e <= 8:
                return self.ret(s, ins, t.powi(a[0], int(e)))
            if e == Fraction(1, 2):
                return self.ret(s, ins, t.fsqrt(a[0]))
        return self.ret(s, ins, pa(atom("pow", (a[0], a[1]), "real")))

    def f_fmod(self, s, ins, fn, a):
        return self.ret(s, ins, sub(a[0], mul(a[1], t.fn1("trunc", t.div(a[0], a[1])))))

    def absv(self, s, ins, x):
        if isinstance(x, Undef):
            return self.ret(s, ins, x)
        outs = self.I.fork_on(s, f_le(neg(x)))
        r = []
        for side, st in outs:
            r += self.I.finish_call(st, ins, x if side else neg(x))
        return r

    def f_fabs(self, s, ins, fn, a):
        return self.absv(s, ins, a[0])
    f_fabsf = f_abs = f_labs = f_fabs

    def f_rand(self, s, ins, fn, a):
        return self.ret(s, ins, pa(fresh("rand", "nat")))

    def f_time(self, s, ins, fn, a):
        return self.ret(s, ins, pa(fresh("time", "nat")))
    f_clock = f_time

    def minmax(self, s, ins, a, b, mx):
        outs = self.I.fork_on(s, f_le(sub(b, a)) if mx else f_le(sub(a, b)))
        r = []
        for side, st in outs:
            r += self.I.finish_call(st, ins, a if side else b)
        return r

    def f_fmin(self, s, ins, fn, a):
        return self.minmax(s, ins, a[0], a[1], False)

    def f_fmax(self, s, ins, fn, a):
        return self.minmax(s, ins, a[0], a[1], True)

    def f_memcpy(self, s, ins, fn, a):
        self.I.memcpy(s, a[0], a[1], a[2])
        return self.ret(s, ins, a[0])
    f_memmove = f_memcpy

    def f_strcmp(self, s, ins, fn, a):
        def lit(p):
            if isinstance(p, Ptr) and (p.base in self.I.p.ginit or (p.base.kind == "global" and str(p.base.info).startswith("_ZTS"))):
                return self.cstr(p) if p.base in self.I.p.ginit else str(p.base.info) if p.off == ZERO else None
        x, y = lit(a[0]), lit(a[1])
        if x is not None and y is not None:
            return self.ret(s, ins, num((x > y) - (x < y)))
        return self.ret(s, ins, pa(fresh("strcmp", "int")))
    f_strlen = f_time
    f_printf = f_rand
    f_puts = f_rand

    def intrinsic(self, s, ins, fn, a):
        n = fn.name
        I = self.I
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            I.access(s, a[0], int(a[2].cval() or 1), "write")
            if s.dead:
                return None
            I.memcpy(s, a[0], a[1], a[2])
            return self.ret(s, ins)
        if n.startswith("llvm.memset"):
            self.memset(s, a[0], a[1], a[2])
            return self.ret(s, ins)
        m = re.match(r"llvm\.([a-z0-9]+)\.", n)
        k = m.group(1) if m else ""
        if k in ("fabs", "abs"):
            return self.absv(s, ins, a[0])
        if k in ("smax", "umax", "maxnum", "maximum"):
            return self.minmax(s, ins, a[0], a[1], True)
        if k in ("smin", "umin", "minnum", "minimum"):
            return self.minmax(s, ins, a[0], a[1], False)
        if k in MATH1:
            return self.ret(s, ins, self.m1(s, MATH1[k], a[0]))
        if k == "fmuladd" or k == "fma":
            return self.ret(s, ins, add(mul(a[0], a[1]), a[2]))
        if k == "pow":
            return self.f_pow(s, ins, fn, a)
        if k == "powi":
            e = a[1].cval()
            if e is not None and 0 <= e <= 8:
                return self.ret(s, ins, t.powi(a[0], int(e)))
        if n.startswith("llvm.eh.typeid.for"):
            g = a[0].base.info
            return self.ret(s, ins, self.typeid(g))
        if n.startswith("llvm.umul.with.overflow"):
            return self.ret(s, ins, Agg([mul(a[0], a[1]), F]))
        if n.startswith("llvm.uadd.with.overflow") or n.startswith("llvm.sadd.with.overflow"):
            return self.ret(s, ins, Agg([add(a[0], a[1]), F]))
        if n.startswith("llvm.stacksave"):
            return self.ret(s, ins, NULL)
        if n.startswith("llvm.trap"):
            s.dead = True
            return None
        if n.startswith("llvm.is.constant"):
            return self.ret(s, ins, F)
        if n.startswith("llvm.expect"):
            return self.ret(s, ins, a[0])
        if n.startswith("llvm.objectsize"):
            return self.ret(s, ins, num(-1))
        if fn.ret == "void":
            return self.ret(s, ins)
        return self.ret(s, ins, self.fresh_ret(fn, n))

    def memset(self, s, p, v, n):
        I = self.I
        if isinstance(p, Undef):
            I.undef_ptr(s, "memset")
            return
        o = s.mem.wr(p.base)
        nc = n.cval()
        for k in list(o.cells):
            ko = k[0] if isinstance(k, tuple) else k
            if not I.disjoint(s.facts, ko, o.cells[k][0], p.off, int(nc) if nc is not None else None):
                del o.cells[k]
        ver = t.fresh_id()
        o.log.append((ver, p.off if nc is not None else None, int(nc) if nc is not None else None, None))
        o.fills.append((ver, p.off, n, "byte", v if isinstance(v, Poly) else ZERO))

    # ------------------------------------------------------------------ heap, exceptions
    def op_new(self, s, ins, fn, a):
        b = Base("heap", "new@%s" % (ins.get("l", 0)), size=a[0])
        b.born = t.fresh_id()
        s.mem.wr(b)
        return self.ret(s, ins, Ptr(b))

    def f_malloc(self, s, ins, fn, a):
        return self.op_new(s, ins, fn, a)

    def op_delete(self, s, ins, fn, a):
        p = a[0]
        I = self.I
        if isinstance(p, Undef):
            I.oblige(s, "uninit-pointer", F, "delete of an uninitialised pointer")
            s.dead = True
            return None
        if p.base is NULLBASE:
            return self.ret(s, ins)
        if p.base.kind == "heap":
            if I.gget(s, Ptr(p.base), "freed") is not None:
                I.oblige(s, "double-free", F, "object released twice")
                s.dead = True
                return None
            I.gset(s, Ptr(p.base), "freed", ONE)
        elif p.base.kind in ("alloca", "global"):
            I.oblige(s, "bad-free", F, "delete of a non-heap object")
        else:
            g = I.gget(s, Ptr(p.base), "freed")
            if g is not None:
                I.oblige(s, "double-free", F, "object released twice")
                s.dead = True
                return None
            I.gset(s, Ptr(p.base), "freed", ONE)
        return self.ret(s, ins)

    f_free = op_delete

    def typeid(self, g):
        if g not in self.tids:
            self.tids[g] = len(self.tids) + 2
        return num(self.tids[g])

    def exc_matches(self, thrown, handler):
        if thrown == handler:
            return True
        seen = set()
        todo = [thrown]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == handler:
                return True
            b = self.I.p.globals.get(x)
            ini = self.I.p.ginit.get(b) if b is not None else None
            if ini:
                for o, e in ini.items():
                    if e[2].get("k") == "g" and e[2]["n"].startswith("_ZTI"):
                        todo.append(e[2]["n"])
        return False

    def cxa(self, s, ins, fn, a):
        n = fn.name
        if n == "__cxa_allocate_exception":
            b = Base("heap", "exception", size=a[0])
            b.born = t.fresh_id()
            self.I.gset(s, Ptr(b), "freed", ONE)
            return self.ret(s, ins, Ptr(b))
        if n == "__cxa_free_exception":
            return self.ret(s, ins)
        if n == "__cxa_throw":
            s.exc = (a[0], a[1].base.info, ZERO)
            return self.I.unwind(s)
        if n == "__cxa_rethrow":
            if s.exc is None:
                s.dead = True
                return None
            return self.I.unwind(s)
        if n == "__cxa_begin_catch":
            return self.ret(s, ins, a[0])
        if n in ("__cxa_end_catch", "__cxa_atexit", "__cxa_guard_release", "__cxa_guard_abort"):
            return self.ret(s, ins, ZERO if fn.ret != "void" else None)
        if n == "__cxa_guard_acquire":
            return self.ret(s, ins, num(1))
        if n == "__cxa_pure_virtual":
            self.I.oblige(s, "pure-virtual", F, "call of a pure virtual function")
        s.dead = True
        return None

    def uncaught(self, s):
        """an exception leaves the driver"""
        nm = self.I.p.gdem.get(s.exc[1], s.exc[1])
        s.notes.append("uncaught " + nm)

    def f___dynamic_cast(self, s, ins, fn, a):
        p = a[0]
        if isinstance(p, Ptr):
            if p.base is NULLBASE:
                return self.ret(s, ins, NULL)
            v = self.I.mem_load(s, p, 8, "ptr", None, raw=True)
            if isinstance(v, Ptr) and v.base.kind == "global" and v.base.info.startswith("_ZTV"):
                ti = "_ZTI" + v.base.info[4:]
                return self.ret(s, ins, p if self.exc_matches(ti, a[2].base.info) else NULL)
        outs = self.I.fork_on(s, ("b", fresh("dyncast", "bool")))
        r = []
        for side, st in outs:
            r += self.I.finish_call(st, ins, p if side else NULL)
        return r

    def vp_dyn(self, s, ins, fn, a):
        return self.f___dynamic_cast(s, ins, fn, a)

    # ------------------------------------------------------------------ std::vector
    def elem(self, fn):
        ty = tmpl_arg(fn.dem, "std::vector")
        return ty, self.sizeof(ty)

    def sizeof(self, ty):
        ty = ty.strip()
        if ty.endswith(" const"):
            ty = ty[:-6]
        if ty.endswith("*"):
            return 8
        if ty in SCALAR:
            return SCALAR[ty]
        r = self.I.p.types.get(ty)
        if r is None and ty.startswith("std::vector<"):
            r = 24
        if r is None:
            tn = ty.replace(" ", "")
            for k, v in self.I.p.types.items():
                if k.replace(" ", "") == tn:
                    r = v
                    break
        if r is None:
            r = self.I.extra_sizes.get(ty) if hasattr(self.I, "extra_sizes") else None
        if r is None:
            from .interp import EngineError
            raise EngineError("unknown element size of std::vector<%s>" % ty)
        return r

    def ghost_initial(self, s, V, tag):
        I = self.I
        if tag == "vsize":
            o = s.mem.rd(V.base)
            ver = 0
            if o is not None:
                for e in reversed(o.log):
                    if not I.disjoint(s.facts, e[1], e[2], V.off, 24):
                        ver = e[0]
                        break
                for fl in reversed(o.fills):
                    if fl[0] < ver:
                        break
                    if fl[3] == "copy":
                        m, sp = fl[4]
                        d = sub(V.off, fl[1])
                        inside = fl[2] is None or (implied(s.facts, f_le(neg(d)), 1) and implied(s.facts, f_le(sub(d, fl[2])), 1))
                        if inside:
                            old = s.mem
                            s.mem = m
                            try:
                                w = Ptr(sp.base, add(sp.off, d))
                                g = I.gget(s, w, "vsize")
                                return g if g is not None else self.ghost_initial(s, w, "vsize")
                            finally:
                                s.mem = old
                    if fl[3] == "elem":
                        stride, m, sp = fl[4]
                        return I.gget(s, sp, "vsize")
                    if fl[3] == "zerovec":
                        return ZERO
            return pa(atom("size", (V, Stamp(ver)), "int"))
        if tag == "vdata":
            return None
        return None

    def vsize(self, s, V):
        v = self.I.gget(s, V, "vsize")
        if v is None:
            v = self.ghost_initial(s, V, "vsize")
            self.I.gset(s, V, "vsize", v)
            o = s.mem.wr(V.base)
            o.cells[(V.off, "vsize")] = (1, v, False)
        return v

    def vdata(self, s, V, es):
        v = self.I.gget(s, V, "vdata")
        if v is None:
            o = s.mem.rd(V.base)
            ver = 0
            if o is not None:
                for e in reversed(o.log):
                    if not self.I.disjoint(s.facts, e[1], e[2], V.off, 24):
                        ver = e[0]
                        break
            src = None
            if o is not None:
                for fl in reversed(o.fills):
                    if fl[0] < ver:
                        break
                    if fl[3] == "copy":
                        src = fl
                        break
            b = sym_base(("data", V, Stamp(ver)), "%s%s.data" % (V.base.name, "+" + t.show(V.off) if V.off.t else ""))
            b.const = True
            if b.size is None:
                b.size = num(es)
            v = Ptr(b)
            o = s.mem.wr(V.base)
            o.cells[(V.off, "vdata")] = (1, v, False)
            if src is not None:
                m, sp = src[4]
                d = sub(V.off, src[1])
                w = Ptr(sp.base, add(sp.off, d))
                old = s.mem
                tmp = m.clone()
                s.mem = tmp
                try:
                    wd = self.vdata(s, w, es)
                    ws = self.vsize(s, w)
                finally:
                    s.mem = old
                ob = s.mem.wr(b)
                if not ob.fills:
                    self.copy_content(s, v, wd, mul(num(es), ws), tmp)
        elif v.base.size is None:
            v.base.size = num(es)
        return v

    def copy_content(self, s, dst, src, n, snap):
        I = self.I
        o = s.mem.wr(dst.base)
        ver = t.fresh_id()
        o.log.append((ver, None, None, None))
        o.fills.append((ver, dst.off, None, "copy", (snap, src)))
        so = snap.rd(src.base)
        if so is not None:
            for k, c in so.cells.items():
                ko = k[0] if isinstance(k, tuple) else k
                no = add(dst.off, sub(ko, src.off))
                o.cells[(no, k[1]) if isinstance(k, tuple) else no] = (c[0], c[1], True)

    def newdata(self, s, V, es):
        b = sym_base(("data", V, Stamp(t.fresh_id())), "%s%s.data'" % (V.base.name, "+" + t.show(V.off) if V.off.t else ""))
        b.const = True
        b.size = num(es)
        self.I.gset(s, V, "vdata", Ptr(b))
        return Ptr(b)

    def setsize(self, s, V, n):
        self.I.gset(s, V, "vsize", n)

    def vec(self, h, s, ins, fn, a):
        # sret first?
        sret = fn.args and fn.args[0].get("sret")
        V = a[1] if sret else a[0]
        if isinstance(V, Undef):
            self.I.undef_ptr(s, "vector access")
            return None
        if V.base is NULLBASE:
            self.I.oblige(s, "null", F, "vector method on a null object")
            s.dead = True
            return None
        ty, es = self.elem(fn)
        args = a[2:] if sret else a[1:]
        r = h(s, fn, V, args, ty, es, ins)
        if s.dead:
            return None
        if isinstance(r, list):
            return r
        if sret:
            # iterators returned through memory
            self.I.mem_store(s, a[0], 8, r, None)
            r = None
        return self.ret(s, ins, r)

    def v_ctor(self, s, fn, V, a, ty, es, ins):
        p = params(fn.dem)
        self.I.havoc_obj(s, V, 24)
        if not a or (len(a) == 1 and "allocator" in p.split(",")[0] and "vector<" not in p.split("allocator")[0]):
            self.newdata(s, V, es)
            self.setsize(s, V, ZERO)
            return None
        first = a[0]
        if p.startswith("std::vector<") or p.startswith("std::vector <"):
            self.vcopy(s, V, first, es, "&&" in p)
            return None
        if p.startswith("std::initializer_list"):
            # (ptr, n)
            n = a[1]
            d = self.newdata(s, V, es)
            self.setsize(s, V, n)
            self.copy_content(s, d, a[0], mul(num(es), n), s.mem.clone())
            return None
        if isinstance(first, Poly):
            d = self.newdata(s, V, es)
            self.setsize(s, V, first)
            if len(a) > 1 and isinstance(a[1], Ptr) and "const&" in p and p.count(",") >= 2:
                self.fill_elem(s, d, a[1], es)
            else:
                self.fill_default(s, d, ZERO, first, ty, es)
            return None
        if isinstance(first, Ptr) and len(a) >= 2 and isinstance(a[1], Ptr):
            self.assign_range(s, V, first, a[1], es)
            return None
        self.newdata(s, V, es)
        n = pa(fresh("vsize", "nat"))
        self.setsize(s, V, n)
        return None

    def fill_elem(self, s, d, src, es):
        snap = s.mem.clone()
        o = s.mem.wr(d.base)
        ver = t.fresh_id()
        o.log.append((ver, None, None, None))
        o.fills.append((ver, d.off, None, "elem", (es, snap, src)))

    def fill_default(self, s, d, lo, n, ty, es):
        """value-initialised elements [lo, lo+n)"""
        o = s.mem.wr(d.base)
        ver = t.fresh_id()
        off = add(d.off, scale(lo, es))
        for k in list(o.cells):
            ko = k[0] if isinstance(k, tuple) else k
            if not implied(s.facts, f_le(sub(add(ko, num(o.cells[k][0])), off)), 1):
                del o.cells[k]
        scalar = ty in SCALAR or ty.endswith("*") or ty.startswith("std::pair<")
        base_ver = ver
        if lo.t:
            # keep knowledge about the elements below lo: only the tail is refreshed
            o.log.append((ver, None, None, None))
        else:
            o.log.append((ver, None, None, None))
        if scalar:
            o.fills.append((ver, off, scale(n, es), "byte", ZERO))
        elif ty.startswith("std::vector<"):
            o.fills.append((ver, off, scale(n, es), "zerovec", None))

    def assign_range(self, s, V, b, e, es):
        snap = s.mem.clone()
        n = None
        if b.base is e.base:
            d = sub(e.off, b.off)
            n = scale(d, Fraction(1, es))
        if n is None:
            n = pa(fresh("range", "nat"))
        nd = self.newdata(s, V, es)
        self.setsize(s, V, n)
        self.copy_content(s, nd, b, scale(n, es), snap)

    def vcopy(self, s, V, W, es, move):
        n = self.vsize(s, W)
        wd = self.vdata(s, W, es)
        snap = s.mem.clone()
        d = self.newdata(s, V, es)
        self.setsize(s, V, n)
        self.copy_content(s, d, wd, scale(n, es), snap)
        if move:
            self.newdata(s, W, es)
            self.setsize(s, W, ZERO)

    def v_assign_op(self, s, fn, V, a, ty, es, ins):
        p = params(fn.dem)
        if isinstance(a[0], Ptr) and V == a[0]:
            return V
        if p.startswith("std::initializer_list"):
            n = a[1]
            snap = s.mem.clone()
            d = self.newdata(s, V, es)
            self.setsize(s, V, n)
            self.copy_content(s, d, a[0], None, snap)
            return V
        self.vcopy(s, V, a[0], es, "&&" in p)
        return V

    def v_dtor(self, s, fn, V, a, ty, es, ins):
        return None

    def v_size(self, s, fn, V, a, ty, es, ins):
        return self.vsize(s, V)

    def v_capacity(self, s, fn, V, a, ty, es, ins):
        n = pa(fresh("cap", "nat"))
        s.assume(f_le(sub(self.vsize(s, V), n)))
        return n

    def v_begin(self, s, fn, V, a, ty, es, ins):
        return self.vdata(s, V, es)
    v_data = v_begin

    def v_end(self, s, fn, V, a, ty, es, ins):
        d = self.vdata(s, V, es)
        return Ptr(d.base, add(d.off, scale(self.vsize(s, V), es)))

    def v_index(self, s, fn, V, a, ty, es, ins):
        d = self.vdata(s, V, es)
        i = a[0]
        if isinstance(i, Undef):
            self.I.undef_use(s, "vector index")
            i = pa(fresh("undef"))
        r = Ptr(d.base, add(d.off, scale(i, es)))
        if self.I.check_bounds:
            n = self.vsize(s, V)
            file, line, f = self.I.where(s)
            self.I.oblige(s, ("bounds", file, line), f_and(f_le(neg(i)), f_lt(sub(i, n))),
                          "element %s of a vector with %s element(s)" % (t.show(i)[:120], t.show(n)[:80]))
        return r

    def v_clear(self, s, fn, V, a, ty, es, ins):
        self.vdata(s, V, es)
        self.setsize(s, V, ZERO)
        return None

    def v_push_back(self, s, fn, V, a, ty, es, ins):
        d = self.vdata(s, V, es)
        n = self.vsize(s, V)
        dst = Ptr(d.base, add(d.off, scale(n, es)))
        ob = self.observer("push", ty)
        cc = self.copy_ctor(ty) if ob is None else None
        if cc is not None:
            self.setsize(s, V, add(n, ONE))
            return self.I.enter(s, ins, cc, [dst, a[0]])
        self.put(s, dst, a[0], ty, es)
        self.setsize(s, V, add(n, ONE))
        if ob is not None:
            return self.I.enter(s, ins, ob, [V, dst, n])
        if fn.ret == "ptr":
            return dst
        return None

    def copy_ctor(self, ty):
        """the copy constructor of a class with a destructor"""
        if not ty.startswith("lib_path::") or ty.endswith("*") or "<" in ty:
            return None
        cc = self.I.p.__dict__.setdefault("_copy_ctors", {})
        if ty not in cc:
            d = "%s::%s(%s const&)" % (ty, ty.split("::")[-1], ty)
            dt = "%s::~%s()" % (ty, ty.split("::")[-1])
            own = any(f.dem == dt and f.blocks for f in self.I.p.fns.values())
            cc[ty] = next((f for f in self.I.p.fns.values() if f.dem == d and f.blocks), None) if own else None
        return cc[ty]

    def observer(self, ev, ty):
        """driver function watching an event on vectors of the given element type"""
        ptr = ty.endswith("*")
        b = ty.rstrip("*").strip()
        b = "ii" if b == "std::pair<int, int>" else b.split("<")[0].split("::")[-1]
        f = self.I.p.fns.get("vp_on_%s_%s%s" % (ev, b, "_ptr" if ptr else ""))
        return f if f is not None and f.blocks else None

    def put(self, s, dst, src, ty, es):
        I = self.I
        if ty.endswith("*"):
            I.mem_store(s, dst, 8, I.mem_load(s, src, 8, "ptr"))
        elif ty in SCALAR:
            lt = {"float": "float", "double": "double"}.get(ty, {1: "i8", 2: "i16", 4: "i32", 8: "i64"}[es])
            I.mem_store(s, dst, es, I.mem_load(s, src, es, lt))
        else:
            I.memcpy(s, dst, src, num(es))

    def v_emplace_back(self, s, fn, V, a, ty, es, ins):
        if len(a) == 1 and (ty.endswith("*") or ty in SCALAR or True):
            return self.v_push_back(s, fn, V, a, ty, es, ins)
        d = self.vdata(s, V, es)
        n = self.vsize(s, V)
        dst = Ptr(d.base, add(d.off, scale(n, es)))
        self.I.havoc_obj(s, dst, es)
        self.setsize(s, V, add(n, ONE))
        return dst

    def v_pop_back(self, s, fn, V, a, ty, es, ins):
        n = self.vsize(s, V)
        if self.I.check_bounds:
            file, line, f = self.I.where(s)
            self.I.oblige(s, ("bounds", file, line), f_lt(neg(n)), "pop_back on a vector with %s element(s)" % t.show(n)[:80])
        self.setsize(s, V, sub(n, ONE))
        return None

    def v_reserve(self, s, fn, V, a, ty, es, ins):
        return None
    v_shrink_to_fit = v_reserve

    def v_resize(self, s, fn, V, a, ty, es, ins):
        I = self.I
        n0 = self.vsize(s, V)
        n = a[0]
        d = self.vdata(s, V, es)
        self.setsize(s, V, n)
        if n0 == n:
            return None
        if len(a) > 1:
            if n0.cval() == 0:
                nd = self.newdata(s, V, es)
                self.fill_elem(s, nd, a[1], es)
            else:
                nd = self.newdata(s, V, es)
            return None
        if n0.cval() == 0:
            nd = self.newdata(s, V, es)
            self.fill_default(s, nd, ZERO, n, ty, es)
            return None
        if implied(s.facts, f_le(sub(n, n0)), 1):
            return None
        # growth over unknown old size: old elements keep, new ones default
        self.I.havoc_obj(s, d)
        return None

    def v_assign(self, s, fn, V, a, ty, es, ins):
        if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and "unsigned long" not in params(fn.dem).split(",")[0]:
            self.assign_range(s, V, a[0], a[1], es)
            return None
        if isinstance(a[0], Poly):
            snap_src = a[1]
            d = self.newdata(s, V, es)
            self.setsize(s, V, a[0])
            self.fill_elem(s, d, snap_src, es)
            return None
        self.I.havoc_obj(s, V, 24)
        return None

    def v_insert(self, s, fn, V, a, ty, es, ins):
        n = self.vsize(s, V)
        d = self.vdata(s, V, es)
        pos = a[0]
        k = ONE
        if len(a) >= 3 and isinstance(a[1], Ptr) and isinstance(a[2], Ptr):
            if a[1].base is a[2].base:
                k = scale(sub(a[2].off, a[1].off), Fraction(1, es))
            else:
                k = pa(fresh("ins", "nat"))
            if isinstance(pos, Ptr) and pos.base is d.base and implied(s.facts, f_eq(sub(pos.off, add(d.off, scale(n, es)))), 1):
                self.I.memcpy(s, pos, a[1], scale(k, es))
                self.setsize(s, V, add(n, k))
                return pos
        elif len(a) >= 3 and isinstance(a[1], Poly):
            k = a[1]
        elif len(a) == 2 and isinstance(a[1], Ptr) and isinstance(pos, Ptr) and pos.base is d.base and implied(s.facts, f_eq(sub(pos.off, add(d.off, scale(n, es)))), 1):
            self.put(s, pos, a[1], ty, es)
            self.setsize(s, V, add(n, ONE))
            return pos
        nd = self.newdata(s, V, es)
        self.setsize(s, V, add(n, k))
        return Ptr(nd.base, add(nd.off, sub(pos.off, d.off))) if isinstance(pos, Ptr) and pos.base is d.base else Ptr(nd.base, pa(fresh("it")))

    def v_erase(self, s, fn, V, a, ty, es, ins):
        n = self.vsize(s, V)
        d = self.vdata(s, V, es)
        k = ONE
        if len(a) >= 2 and isinstance(a[1], Ptr) and a[0].base is a[1].base:
            k = scale(sub(a[1].off, a[0].off), Fraction(1, es))
        nd = self.newdata(s, V, es)
        self.setsize(s, V, sub(n, k))
        return Ptr(nd.base, sub(a[0].off, d.off)) if a[0].base is d.base else Ptr(nd.base, pa(fresh("it")))

    def v_swap(self, s, fn, V, a, ty, es, ins):
        W = a[0]
        n1, d1 = self.vsize(s, V), self.vdata(s, V, es)
        n2, d2 = self.vsize(s, W), self.vdata(s, W, es)
        snap = s.mem.clone()
        e1, e2 = self.newdata(s, V, es), self.newdata(s, W, es)
        self.setsize(s, V, n2)
        self.setsize(s, W, n1)
        self.copy_content(s, e1, d2, None, snap)
        self.copy_content(s, e2, d1, None, snap)
        return None
