"""Value domain of the analyser: hash-consed atoms, polynomial normal forms over
them (a value-numbering domain), pointers and branch formulas.

Numbers are modelled as mathematical integers / reals (see DESIGN.md, trusted
base).  Nothing here executes the analysed program."""
from fractions import Fraction
import math

# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("kind", "args", "ty", "id", "key", "_deps")

    def __repr__(self):
        return show_atom(self)


_atoms = {}
_atom_list = []


def atom(kind, args=(), ty="real"):
    """ty: 'int' | 'real' | 'bool' (0/1 valued int)"""
    key = (kind, args, ty)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind = kind
        a.args = args
        a.ty = ty
        a.id = len(_atom_list)
        a.key = key
        a._deps = None
        _atoms[key] = a
        _atom_list.append(a)
    return a


def by_id(i):
    return _atom_list[i]


_fresh = [0]


def fresh_id():
    _fresh[0] += 1
    return _fresh[0]


def sym(name, ty="int"):
    return atom("sym", (name,), ty)


def fresh(name, ty="int"):
    return atom("sym", (name, fresh_id()), ty)


_vt = {}


def vtime(v):
    """creation stamp of the newest nondeterministic choice a value depends on"""
    if isinstance(v, Poly):
        r = 0
        for m in v.t:
            for a, e in m:
                x = _vt.get(a)
                if x is None:
                    x = _atime(_atom_list[a])
                if x > r:
                    r = x
        return r
    if isinstance(v, Ptr):
        return max(vtime(v.base), vtime(v.off))
    if isinstance(v, Base):
        if v.kind == "sym":
            if isinstance(v.info, tuple):
                return max([0] + [vtime(x) for x in v.info])
            return 0
        return v.born
    if isinstance(v, Atom):
        x = _vt.get(v.id)
        return _atime(v) if x is None else x
    if isinstance(v, tuple):
        return max([0] + [vtime(x) for x in v])
    if isinstance(v, Stamp):
        return v.n
    if isinstance(v, Agg):
        return max([0] + [vtime(x) for x in v.e])
    return 0


def _atime(a):
    if a.kind == "sym":
        r = a.args[1] if len(a.args) > 1 else 0
    else:
        r = 0
        for x in a.args:
            y = vtime(x)
            if y > r:
                r = y
    _vt[a.id] = r
    return r


class Stamp:
    """a memory version used as an atom argument"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return hash(("stamp", self.n))

    def __eq__(self, o):
        return isinstance(o, Stamp) and o.n == self.n

    def __repr__(self):
        return "v%d" % self.n


# ---------------------------------------------------------------- polynomials
def _norm(c):
    if type(c) is int:
        return c
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("t", "_h", "_int")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._int = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def cval(self):
        """constant value or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def single_atom(self):
        """the atom if the polynomial is exactly 1*atom"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return by_id(m[0][0])
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m:
                s.add(a)
        return s

    def is_int(self):
        if self._int is None:
            r = True
            for m, c in self.t.items():
                if isinstance(c, Fraction) and c.denominator != 1:
                    r = False
                    break
                for a, e in m:
                    if e < 0 or _atom_list[a].ty == "real":
                        r = False
                        break
                if not r:
                    break
            self._int = r
        return self._int

    def __repr__(self):
        return show(self)


ZERO = Poly({})
ONE = Poly({(): 1})


def num(c):
    if c == 0:
        return ZERO
    return Poly({(): _norm(c)})


def pa(a):
    """polynomial of an atom"""
    return Poly({((a.id, 1),): 1})


def add(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    t = dict(p.t)
    for m, c in q.t.items():
        n = t.get(m, 0) + c
        if n == 0:
            t.pop(m, None)
        else:
            t[m] = _norm(n)
    return Poly(t)


def neg(p):
    return Poly({m: -c for m, c in p.t.items()})


def sub(p, q):
    return add(p, neg(q))


def scale(p, k):
    if k == 0:
        return ZERO
    if k == 1:
        return p
    return Poly({m: _norm(c * k) for m, c in p.t.items()})


_MONO = {}
_MULS = {}


def mul_memo(p, q):
    r = _MULS.get((p, q))
    if r is None:
        if len(_MULS) > 500000:
            _MULS.clear()
        r = _MULS[(p, q)] = mul(p, q)
    return r


def _mono_mul(m1, m2):
    """multiply monomials; returns monomial"""
    if not m1:
        return m2
    if not m2:
        return m1
    r = _MONO.get((m1, m2))
    if r is not None:
        return r
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0:
            del d[a]
        else:
            d[a] = n
    r = tuple(sorted(d.items()))
    if len(_MONO) > 500000:
        _MONO.clear()
    _MONO[(m1, m2)] = r
    return r


def _reduce_mono(m):
    """apply atom reductions; returns None if nothing applies, else Poly"""
    for i, (a, e) in enumerate(m):
        at = _atom_list[a]
        k = at.kind
        if e >= 2:
            if k == "sqrt":
                rest = m[:i] + ((a, e - 2),) * (1 if e > 2 else 0) + m[i + 1:]
                return mul(Poly({tuple(rest): 1}), at.args[0])
            if k == "sin":
                rest = m[:i] + ((a, e - 2),) * (1 if e > 2 else 0) + m[i + 1:]
                c = atom("cos", at.args)
                one_minus = Poly({(): 1, ((c.id, 2),): -1})
                return mul(Poly({tuple(rest): 1}), one_minus)
            if at.ty == "bool":
                rest = m[:i] + ((a, 1),) + m[i + 1:]
                return Poly({tuple(rest): 1})
        if k == "sqrt" and e <= -1:
            # 1/sqrt(x) = sqrt(x)/x
            rest = m[:i] + ((a, e + 2),) * (1 if e != -2 else 0) + m[i + 1:]
            return mul(Poly({tuple(rest): 1}), inv(at.args[0]))
        if k == "inv" and e < 0:
            rest = m[:i] + m[i + 1:]
            q = ONE
            for _ in range(-e):
                q = mul(q, at.args[0])
            return mul(Poly({tuple(rest): 1}), q)
    return None


def mul(p, q):
    if not p.t or not q.t:
        return ZERO
    c = p.cval()
    if c is not None:
        return scale(q, c)
    c = q.cval()
    if c is not None:
        return scale(p, c)
    t = {}
    extra = None
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m = _mono_mul(m1, m2)
            c = c1 * c2
            r = _reduce_mono(m)
            if r is not None:
                r = scale(r, c)
                extra = r if extra is None else add(extra, r)
                continue
            n = t.get(m, 0) + c
            if n == 0:
                t.pop(m, None)
            else:
                t[m] = _norm(n)
    r = Poly(t)
    if extra is not None:
        r = add(r, extra)
    return r


def powi(p, n):
    r = ONE
    for _ in range(n):
        r = mul(r, p)
    return r


def content(p):
    """rational content with the sign of the leading coefficient"""
    from math import gcd
    g = 0
    l = 1
    for c in p.t.values():
        f = Fraction(c)
        g = gcd(g, abs(f.numerator))
        l = l * f.denominator // gcd(l, f.denominator)
    if g == 0:
        return 1
    lead = p.t[min(p.t)] if p.t else 1
    lead = p.t[max(p.t)]
    c = Fraction(g, l)
    # recompute exactly: gcd of numerators over lcm of denominators
    return -c if lead < 0 else c


def inv(p):
    c = p.cval()
    if c is not None:
        if c == 0:
            return pa(atom("inv0", (), "real"))
        return num(Fraction(1) / Fraction(c))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        mi = tuple((a, -e) for a, e in m)
        r = Poly({mi: _norm(Fraction(1) / Fraction(c))})
        red = _reduce_mono(mi)
        if red is not None:
            return scale(red, Fraction(1) / Fraction(c))
        return r
    k = content(p)
    q = scale(p, 1 / Fraction(k))
    return scale(pa(atom("inv", (q,), "real")), 1 / Fraction(k))


def div(p, q):
    if p == q:
        return ONE
    return mul(p, inv(q))


# ---------------------------------------------------------------- functions
PI = atom("sym", ("pi",), "real")
PPI = pa(PI)


def from_float(d):
    if math.isinf(d):
        r = pa(atom("sym", ("inf",), "real"))
        return r if d > 0 else neg(r)
    if math.isnan(d):
        return pa(atom("sym", ("nan",), "real"))
    if abs(d) > 1e100:
        return num(Fraction(d))
    if d != 0:
        for den in (1, 2, 3, 4, 6, 8, 12, 180, 360):
            k = d * den / math.pi
            kr = round(k)
            if kr != 0 and abs(kr) < 10000 and abs(k - kr) < 1e-9 and (math.pi * kr / den == d or abs(math.pi * kr / den - d) <= abs(d) * 3e-16):
                return scale(PPI, Fraction(kr, den))
        # x/pi constants (degrees)
        k = d * math.pi
        if abs(k - round(k)) < 1e-9 and abs(round(k)) >= 1 and abs(d) > 1e-3 and abs(round(k) / math.pi - d) <= abs(d) * 3e-16:
            return scale(inv(PPI), round(k))
        for r, n in ((math.sqrt(2), 2), (math.sqrt(3), 3), (math.sqrt(5), 5)):
            for dd in (1, 2):
                if abs(d * dd / r - round(d * dd / r)) < 1e-12 and 1 <= abs(round(d * dd / r)) <= 8:
                    return scale(fsqrt(num(n)), Fraction(round(d * dd / r), dd))
        # short decimal literals denote the decimal value
        f = Fraction(d)
        g = f.limit_denominator(1000000)
        if abs(float(g) - d) == 0:
            return num(g)
        s = repr(d)
        if len(s) <= 18:
            return num(Fraction(s))
        return num(f)
    return ZERO


def _split_pi(p):
    """p = k*pi + rest"""
    m = ((PI.id, 1),)
    k = p.t.get(m, 0)
    if k == 0:
        return 0, p
    t = dict(p.t)
    del t[m]
    return k, Poly(t)


_SIN12 = None


def _pi_sincos(k):
    """(sin, cos) of k*pi for k multiple of 1/2, 1/4, 1/6 - None otherwise"""
    k = Fraction(k) % 2
    h = fsqrt
    half = num(Fraction(1, 2))
    s2 = scale(fsqrt(num(2)), Fraction(1, 2))
    s3 = scale(fsqrt(num(3)), Fraction(1, 2))
    tab = {
        Fraction(0): (ZERO, ONE), Fraction(1, 6): (half, s3), Fraction(1, 4): (s2, s2), Fraction(1, 3): (s3, half),
        Fraction(1, 2): (ONE, ZERO),
    }
    if k in tab:
        return tab[k]
    if k <= 1 and (1 - k) in tab:
        s, c = tab[1 - k]
        return s, neg(c)
    if k > 1:
        r = _pi_sincos(k - 1)
        if r:
            return neg(r[0]), neg(r[1])
    return None


_sc_cache = {}


def sincos(p):
    """(sin p, cos p) with the addition theorems applied to a sum of terms"""
    r = _sc_cache.get(p)
    if r is not None:
        return r
    k, rest = _split_pi(p)
    # accumulate
    s, c = ZERO, ONE

    def addang(s, c, s2, c2):
        return add(mul(s, c2), mul(c, s2)), sub(mul(c, c2), mul(s, s2))
    if k != 0:
        # even multiples vanish; also integer-valued multiples of 2*pi (handled in terms below)
        kk = _pi_sincos(k)
        if kk is None:
            a = scale(PPI, Fraction(k) % 2)
            kk = (pa(atom("sin", (a,))), pa(atom("cos", (a,))))
        s, c = kk
    for m, co in sorted(rest.t.items()):
        # 2*pi*integer vanishes
        d = dict(m)
        if d.get(PI.id) == 1:
            others = [(a, e) for a, e in m if a != PI.id]
            if all(_atom_list[a].ty in ("int", "bool", "nat") and e > 0 for a, e in others) and Fraction(co).denominator == 1 and int(co) % 2 == 0:
                continue
        sgn = 1
        if co < 0:
            sgn = -1
            co = -co
        f = Fraction(co)
        n, base = (f.numerator, Fraction(1, f.denominator)) if f.numerator <= 4 else (1, f)
        arg = Poly({m: _norm(base)})
        st, ct = _sincos_atom(arg, m, base)
        if sgn < 0:
            st = neg(st)
        for _ in range(n):
            s, c = addang(s, c, st, ct)
    r = (s, c)
    _sc_cache[p] = r
    return r


def _sincos_atom(arg, m, base):
    if base == 1 and len(m) == 1 and m[0][1] == 1:
        a = _atom_list[m[0][0]]
        if a.kind == "acos":
            t = a.args[0]
            return fsqrt(sub(ONE, mul(t, t))), t
        if a.kind == "asin":
            t = a.args[0]
            return t, fsqrt(sub(ONE, mul(t, t)))
        if a.kind == "atan2":
            y, x = a.args
            h = inv(fsqrt(add(mul(x, x), mul(y, y))))
            return mul(y, h), mul(x, h)
        if a.kind == "atan":
            y = a.args[0]
            h = inv(fsqrt(add(ONE, mul(y, y))))
            return mul(y, h), h
    return pa(atom("sin", (arg,))), pa(atom("cos", (arg,)))


def clamp(p):
    """p - 2*pi*k in [-pi, pi]; k only depends on p modulo 2*pi (whole turns inside p are dropped first)"""
    d = {}
    for m, co in p.t.items():
        if dict(m).get(PI.id) == 1 and Fraction(co).denominator == 1 and int(co) % 2 == 0:
            o = [(a, e) for a, e in m if a != PI.id]
            if not o or all(_atom_list[a].ty in ("int", "bool", "nat") and e > 0 for a, e in o):
                continue
        d[m] = co
    p = Poly(d)
    c = p.cval()
    if c is not None and abs(c) < 3:
        return p
    k = pa(atom("clampk", (p,), "int"))
    kp = _split_pi(p)
    if not kp[1].t:
        f = Fraction(kp[0])
        if -1 < f < 1:
            return p
    return sub(p, scale(mul(PPI, k), 2))


def fsin(p):
    return sincos(p)[0]


def fcos(p):
    return sincos(p)[1]


def _isqrt_frac(f):
    f = Fraction(f)
    if f < 0:
        return None
    a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if a * a == f.numerator and b * b == f.denominator:
        return Fraction(a, b)
    return None


def fsqrt(p):
    c = p.cval()
    if c is not None:
        r = _isqrt_frac(c)
        if r is not None:
            return num(r)
        f = Fraction(c)
        if f > 0:
            # pull out square factors, rationalise
            n = f.numerator * f.denominator
            k = 1
            d = 2
            while d * d <= n and d < 1000:
                while n % (d * d) == 0:
                    n //= d * d
                    k *= d
                d += 1
            return scale(pa(atom("sqrt", (num(n),))), Fraction(k, f.denominator))
        return pa(atom("sqrt", (p,)))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = _isqrt_frac(c) if c > 0 else None
        if r is not None and all(e % 4 == 0 for a, e in m):
            return scale(Poly({tuple((a, e // 2) for a, e in m): 1}), r)
    if len(p.t) >= 1:
        k = abs(content(p))
        r = _isqrt_frac(k)
        if r is not None and r != 1:
            return scale(pa(atom("sqrt", (scale(p, 1 / Fraction(k)),))), r)
    return pa(atom("sqrt", (p,)))


def fn1(kind, p, ty="real"):
    c = p.cval()
    if c is not None:
        f = Fraction(c)
        if kind == "floor":
            return num(f.numerator // f.denominator)
        if kind == "ceil":
            return num(-((-f.numerator) // f.denominator))
        if kind == "trunc":
            return num(int(f))
        if kind == "round":
            return num(int(f + Fraction(1, 2)) if f >= 0 else -int(-f + Fraction(1, 2)))
        if kind == "acos":
            if f == 1:
                return ZERO
            if f == 0:
                return scale(PPI, Fraction(1, 2))
            if f == -1:
                return PPI
    if kind in ("floor", "ceil", "trunc", "round") and p.is_int():
        return p
    if kind in ("floor", "ceil", "trunc", "round"):
        ty = "int"
        if kind in ("floor", "ceil"):
            # pull integer part out
            ti = {m: c for m, c in p.t.items() if Poly({m: c}).is_int()}
            if ti and len(ti) < len(p.t):
                pi_ = Poly(ti)
                return add(pi_, fn1(kind, sub(p, pi_)))
    return pa(atom(kind, (p,), ty))


# ---------------------------------------------------------------- pointers
class Base:
    """identity of a memory object"""
    __slots__ = ("kind", "name", "id", "size", "info", "const", "born", "ctag")
    # kind: 'alloca','heap','global','sym'(arg / loaded pointer),'null','fn'

    def __init__(self, kind, name, size=None, info=None):
        self.kind = kind
        self.name = name
        self.id = fresh_id()
        self.size = size
        self.info = info
        self.const = False
        self.born = 0
        self.ctag = None

    def __repr__(self):
        return "%s" % (self.name,)


NULLBASE = Base("null", "null")


class Ptr:
    __slots__ = ("base", "off", "_h")

    def __init__(self, base, off=ZERO):
        self.base = base
        self.off = off
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.base.id, self.off))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Ptr) and self.base is o.base and self.off == o.off)

    def __repr__(self):
        if self.base is NULLBASE:
            return "null" if not self.off.t else "null+%s" % self.off
        return "&%s%s" % (self.base, "" if not self.off.t else "+" + show(self.off))


NULL = Ptr(NULLBASE)

_symbase = {}


def sym_base(key, name):
    b = _symbase.get(key)
    if b is None:
        b = Base("sym", name, info=key)
        _symbase[key] = b
    return b


class Undef:
    """value of uninitialised storage"""
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "undef(%s)" % self.why


class Agg:
    __slots__ = ("e", "_h")

    def __init__(self, e):
        self.e = tuple(e)
        self._h = None

    def __hash__(self):
        return hash(self.e)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.e == o.e

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.e))


# ---------------------------------------------------------------- formulas
# ('T',) ('F',) ('le',p) p<=0   ('lt',p) p<0   ('eq',p)   ('ne',p)
# ('b',atom) ('nb',atom)  ('and',(..)) ('or',(..))
T = ("T",)
F = ("F",)


def _prim(p):
    """divide by positive content"""
    k = abs(content(p))
    if k != 1:
        p = scale(p, 1 / Fraction(k))
    return p


def _memo(fn):
    d = {}

    def g(p):
        r = d.get(p)
        if r is None:
            if len(d) > 300000:
                d.clear()
            r = d[p] = fn(p)
        return r
    return g


@_memo
def f_le(p):
    c = p.cval()
    if c is not None:
        return T if c <= 0 else F
    q = _two_roots(p)
    if q is not None:
        return f_le(q)
    isint = p.is_int()
    p = _prim2(p)
    if isint:
        # all non-constant coefficients integral & coprime: tighten constant
        c = p.const()
        fl = Fraction(c)
        up = -((-fl.numerator) // fl.denominator)  # ceil
        if up != c:
            t = dict(p.t)
            if up == 0:
                t.pop((), None)
            else:
                t[()] = up
            p = Poly(t)
    return ("le", p)


def _two_roots(p):
    """the difference of two square roots has the sign of the difference of the squares"""
    if len(p.t) != 2:
        return None
    r = []
    for m, c in p.t.items():
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = _atom_list[m[0][0]]
        if a.kind != "sqrt":
            return None
        r.append((a.args[0], Fraction(c)))
    (a, c), (b, d) = r
    if (c > 0) == (d > 0):
        return None
    return add(scale(a, c * abs(c)), scale(b, d * abs(d)))


def _prim2(p):
    """divide by the positive content of the non-constant part"""
    for m, c in p.t.items():
        if m != () and (c == 1 or c == -1):
            if all(type(x) is int for m, x in p.t.items() if m != ()):
                return p
            break
    t = {m: c for m, c in p.t.items() if m != ()}
    k = abs(content(Poly(t)))
    if k != 1:
        p = scale(p, 1 / Fraction(k))
    return p


@_memo
def f_lt(p):
    c = p.cval()
    if c is not None:
        return T if c < 0 else F
    if p.is_int():
        return f_le(add(p, ONE))
    q = _two_roots(p)
    if q is not None:
        return f_lt(q)
    q = _over_pi(p)
    if q is not None:
        # a multiple of pi
        return f_le(add(p, PPI))
    return ("lt", _prim2(p))


def _over_pi(p):
    """q if p = pi * q with an integer q"""
    k = _pi_key()
    r = {}
    for m, c in p.t.items():
        if (k, 1) not in m:
            return None
        r[tuple(x for x in m if x[0] != k)] = c
    q = Poly(r)
    return q if q.is_int() else None


def _pi_key():
    global _PIK
    if _PIK is None:
        _PIK = max(PPI.t)[0][0]
    return _PIK


_PIK = None


def f_eq(p):
    c = p.cval()
    if c is not None:
        return T if c == 0 else F
    if len(p.t) <= 2:
        ks = [m for m in p.t if m != ()]
        if len(ks) == 1 and len(ks[0]) == 1 and ks[0][0][1] == 1:
            a = _atom_list[ks[0][0][0]]
            if a.kind == "b2i":
                v = -Fraction(p.const()) / Fraction(p.t[ks[0]])
                return a.args[0] if v == 1 else f_not(a.args[0]) if v == 0 else F
    isint = p.is_int()
    if not isint:
        q = _over_pi(p)
        if q is not None:
            return f_eq(q)
    p = _prim2(p)
    if isint and Fraction(p.const()).denominator != 1:
        return F
    lead = p.t[max(p.t)]
    if lead < 0:
        p = neg(p)
    return ("eq", p)


def f_ne(p):
    return f_not(f_eq(p))


@_memo
def f_not(f):
    k = f[0]
    if k == "T":
        return F
    if k == "F":
        return T
    if k == "le":
        return f_lt(neg(f[1]))
    if k == "lt":
        return f_le(neg(f[1]))
    if k == "eq":
        return ("ne", f[1])
    if k == "ne":
        return ("eq", f[1])
    if k == "b":
        return ("nb", f[1])
    if k == "nb":
        return ("b", f[1])
    if k == "and":
        return f_or(*[f_not(x) for x in f[1]])
    if k == "or":
        return f_and(*[f_not(x) for x in f[1]])
    raise ValueError(k)


def f_and(*fs):
    out = []
    for f in fs:
        if f[0] == "F":
            return F
        if f[0] == "T":
            continue
        if f[0] == "and":
            for g in f[1]:
                if g not in out:
                    out.append(g)
        elif f not in out:
            out.append(f)
    if not out:
        return T
    if len(out) == 1:
        return out[0]
    for g in out:
        if f_not(g) in out:
            return F
    return ("and", tuple(out))


def f_or(*fs):
    out = []
    for f in fs:
        if f[0] == "T":
            return T
        if f[0] == "F":
            continue
        if f[0] == "or":
            for g in f[1]:
                if g not in out:
                    out.append(g)
        elif f not in out:
            out.append(f)
    if not out:
        return F
    if len(out) == 1:
        return out[0]
    for g in out:
        if f_not(g) in out:
            return T
    return ("or", tuple(out))


def b2i(f):
    """0/1 polynomial of a formula"""
    if f[0] == "T":
        return ONE
    if f[0] == "F":
        return ZERO
    if f[0] == "nb" or f[0] == "ne":
        return sub(ONE, b2i(f_not(f)))
    if f[0] == "b" and f[1].kind == "boolval":
        return f[1].args[0]
    return pa(atom("b2i", (f,), "bool"))


def p2b(p):
    """formula p != 0"""
    c = p.cval()
    if c is not None:
        return T if c != 0 else F
    a = p.single_atom()
    if a is not None:
        if a.kind == "b2i":
            return a.args[0]
        if a.ty == "bool":
            return ("b", a)
    q = sub(ONE, p)
    a = q.single_atom()
    if a is not None and a.ty == "bool":
        if a.kind == "b2i":
            return f_not(a.args[0])
        return ("nb", a)
    return f_ne(p)


def f_iff(a, b):
    return f_or(f_and(a, b), f_and(f_not(a), f_not(b)))


# ---------------------------------------------------------------- traversal
def val_atoms(v, out):
    """all atoms occurring (deeply) in a value / formula"""
    if isinstance(v, Poly):
        for i in v.atoms():
            if i not in out:
                out.add(i)
                for x in _atom_list[i].args:
                    val_atoms(x, out)
    elif isinstance(v, Ptr):
        val_atoms(v.off, out)
        if v.base.kind == "sym" and isinstance(v.base.info, tuple):
            for x in v.base.info:
                val_atoms(x, out)
    elif isinstance(v, Agg):
        for x in v.e:
            val_atoms(x, out)
    elif isinstance(v, Base):
        if v.kind == "sym" and isinstance(v.info, tuple):
            for x in v.info:
                val_atoms(x, out)
    elif isinstance(v, Atom):
        if v.id not in out:
            out.add(v.id)
            for x in v.args:
                val_atoms(x, out)
    elif isinstance(v, tuple):
        for x in v:
            val_atoms(x, out)
    return out


def deep(atomid):
    """frozenset of atoms occurring in the atom, itself included"""
    a = _atom_list[atomid]
    if a._deps is None:
        s = {atomid}
        for x in a.args:
            val_atoms(x, s)
        a._deps = frozenset(s)
    return a._deps


def rebuild(a, args):
    """rebuild an atom with new arguments, re-normalising; returns Poly"""
    k = a.kind
    if k == "sin":
        return fsin(args[0])
    if k == "cos":
        return fcos(args[0])
    if k == "sqrt":
        return fsqrt(args[0])
    if k == "inv":
        return inv(args[0])
    if k in ("floor", "ceil", "trunc", "round"):
        return fn1(k, args[0])
    if k == "acos":
        return fn1(k, args[0])
    if k == "b2i":
        return b2i(args[0])
    return pa(atom(k, args, a.ty))


class Subst:
    def __init__(self, m):
        self.m = m  # atom id -> Poly
        self.keys = frozenset(m)
        self.bm = {}
        self.cache = {}

    def val(self, v):
        if isinstance(v, Poly):
            return self.poly(v)
        if isinstance(v, Ptr):
            return self.ptr(v)
        if isinstance(v, tuple):
            if v and v[0] in ("le", "lt", "eq", "ne", "b", "nb", "and", "or", "T", "F"):
                return self.form(v)
            return tuple(self.val(x) for x in v)
        if isinstance(v, Agg):
            return Agg([self.val(x) for x in v.e])
        if isinstance(v, Base):
            return self.base(v)
        if isinstance(v, Atom):
            return v
        return v

    def base(self, b):
        r = self.bm.get(b.id)
        if r is None:
            r = b
            if b.kind == "sym" and isinstance(b.info, tuple):
                at = val_atoms(b.info, set())
                if at & self.keys:
                    info = tuple(self.val(x) for x in b.info)
                    if info != b.info:
                        r = sym_base(info, b.name)
            self.bm[b.id] = r
        return r

    def ptr(self, p):
        b = self.base(p.base)
        if isinstance(b, Ptr):
            return Ptr(b.base, add(b.off, self.poly(p.off)))
        o = self.poly(p.off)
        if b is p.base and o is p.off:
            return p
        return Ptr(b, o)

    def at(self, i):
        r = self.cache.get(i)
        if r is not None:
            return r
        a = _atom_list[i]
        if i in self.m:
            r = self.m[i]
        elif not a.args or not (deep(i) & self.keys):
            r = pa(a)
        else:
            args = tuple(self.val(x) for x in a.args)
            r = pa(a) if args == a.args else rebuild(a, args)
        self.cache[i] = r
        return r

    def poly(self, p):
        hit = False
        for i in p.atoms():
            if deep(i) & self.keys:
                hit = True
                break
        if not hit:
            return p
        r = ZERO
        for m, c in p.t.items():
            t = num(c)
            for a, e in m:
                q = self.at(a)
                if e < 0:
                    q = inv(q)
                    e = -e
                for _ in range(e):
                    t = mul(t, q)
            r = add(r, t)
        return r

    def form(self, f):
        k = f[0]
        if k in ("T", "F"):
            return f
        if k == "le":
            return f_le(self.poly(f[1]))
        if k == "lt":
            return f_lt(self.poly(f[1]))
        if k == "eq":
            return f_eq(self.poly(f[1]))
        if k == "ne":
            return f_not(f_eq(self.poly(f[1])))
        if k in ("b", "nb"):
            a = f[1]
            if a.id in self.m:
                g = p2b(self.m[a.id])
            elif deep(a.id) & self.keys:
                args = tuple(self.val(x) for x in a.args)
                if a.kind == "ptreq":
                    g = ptr_eq(args[0], args[1])
                elif args == a.args:
                    g = ("b", a)
                else:
                    g = p2b(rebuild(a, args)) if a.kind != "boolval" else p2b(args[0])
            else:
                return f
            return g if k == "b" else f_not(g)
        if k == "and":
            return f_and(*[self.form(x) for x in f[1]])
        if k == "or":
            return f_or(*[self.form(x) for x in f[1]])
        raise ValueError(k)


def identified(b):
    return b.kind in ("alloca", "heap", "global", "null", "fn")


def ptr_eq(p, q):
    """formula for pointer equality"""
    if isinstance(p, Undef) or isinstance(q, Undef):
        return ("b", fresh("undefcmp", "bool"))
    if p.base is q.base:
        return f_eq(sub(p.off, q.off))
    if identified(p.base) and identified(q.base):
        return F
    a, b = p, q
    for x, y in ((p, q), (q, p)):
        # 'this'-like / container data pointers are never null
        if x.base is NULLBASE and not x.off.t and y.base.kind == "sym" and y.base.const:
            return F
        if identified(x.base) and x.base is not NULLBASE and y.base.kind == "sym" and y.base.born < x.base.born:
            return F
    if (a.base.id, hash(a.off)) > (b.base.id, hash(b.off)):
        a, b = b, a
    return ("b", atom("ptreq", (a, b), "bool"))


# ---------------------------------------------------------------- printing
def show_atom(a):
    if a.kind == "sym":
        return str(a.args[0]) + ("#%d" % a.args[1] if len(a.args) > 1 else "")
    if a.kind == "load":
        return "[%s]%s" % (", ".join(str(x) for x in a.args[:2]), "" if not a.args[2].n else "@%s" % (a.args[2],))
    if a.kind == "b2i":
        return "b2i(%s)" % showf(a.args[0])
    return "%s(%s)" % (a.kind, ", ".join(str(x) for x in a.args))


def show(p):
    if isinstance(p, tuple):
        return showf(p)
    if not isinstance(p, Poly):
        return repr(p)
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items()):
        s = "*".join(show_atom(_atom_list[a]) + ("^%d" % e if e != 1 else "") for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = "%s*%s" % (c, s)
        out.append(s)
    return " + ".join(out)


def showf(f):
    k = f[0]
    if k == "T":
        return "true"
    if k == "F":
        return "false"
    if k in ("le", "lt", "eq", "ne"):
        op = {"le": "<=", "lt": "<", "eq": "==", "ne": "!="}[k]
        # move negative terms right
        l = Poly({m: c for m, c in f[1].t.items() if c > 0})
        r = Poly({m: -c for m, c in f[1].t.items() if c < 0})
        return "%s %s %s" % (show(l), op, show(r))
    if k == "b":
        return show_atom(f[1])
    if k == "nb":
        return "!" + show_atom(f[1])
    return "(" + (" && " if k == "and" else " || ").join(showf(x) for x in f[1]) + ")"
