"""Entailment test of the relational domain: conjunctions of (in)equalities between
polynomials, decided by congruence/substitution plus emptiness of a convex
polyhedron over the monomials (exact rational simplex tableau)."""
import ctypes
import math
from array import array
from fractions import Fraction
from math import gcd
from . import terms as t
from .terms import (Poly, ZERO, ONE, add, sub, mul, neg, scale, pa, num, by_id, f_le, f_lt, f_eq, f_ne, f_not, T, F)

STATS = {"lp": 0, "queries": 0, "hits": 0, "maxrows": 0}


# ------------------------------------------------------------- polyhedron emptiness
_LIB = None


def _lib():
    global _LIB
    if _LIB is None:
        from . import build
        _LIB = ctypes.CDLL(build.lp_library()).vp_lp
        _LIB.restype = ctypes.c_int
    return _LIB


_K = {"le": b"l", "lt": b"<", "eq": b"e"}
_BIG = 1 << 60


def lp_infeasible(cons):
    """cons: list of (poly, kind) kind in 'le','lt','eq' meaning poly kind 0.
    True iff the rational relaxation over monomials has no solution."""
    STATS["lp"] += 1
    var = {}
    start, vs, cs, ks = array("i", [0]), array("i"), array("q"), array("q")
    kinds = bytearray()
    try:
        for p, kind in cons:
            items = p.t
            k = 0
            d = 1
            for c in items.values():
                if type(c) is not int and c.denominator != 1:
                    d = d * c.denominator // gcd(d, c.denominator)
            n = len(vs)
            for m, c in items.items():
                c = int(c * d) if d != 1 else int(c)
                if m == ():
                    k = -c
                    continue
                v = var.get(m)
                if v is None:
                    v = var[m] = len(var)
                vs.append(v)
                cs.append(c)
            if len(vs) == n:
                if (kind == "le" and k < 0) or (kind == "lt" and k <= 0) or (kind == "eq" and k != 0):
                    return True
                continue
            start.append(len(vs))
            ks.append(k)
            kinds += _K[kind]
        r = _lib()(len(ks), _adr(start), _adr(vs), _adr(cs), _adr(ks), bytes(kinds), len(var))
    except OverflowError:
        r = -1
    if r >= 0:
        return r == 1
    STATS["slow"] = STATS.get("slow", 0) + 1
    return lp_infeasible_exact(cons)


def _adr(a):
    return ctypes.c_void_p(a.buffer_info()[0])


def lp_infeasible_exact(cons):
    # variables
    upper = {}
    lower = {}
    rows = {}   # basic var -> {nonbasic: coef}
    var = {}
    nvars = 0
    slack = {}

    def setup(x, k):
        return x

    bounds = []
    for p, kind in cons:
        lin = {}
        for m, c in p.t.items():
            if m == ():
                continue
            if m not in var:
                var[m] = nvars
                nvars += 1
            lin[var[m]] = Fraction(c)
        k = -Fraction(p.const())
        if not lin:
            if (kind == "le" and k < 0) or (kind == "lt" and k <= 0) or (kind == "eq" and k != 0):
                return True
            continue
        bounds.append((lin, k, kind))
    n0 = nvars
    # normalise rows: first coefficient 1 -> share slack variables
    rowvar = {}
    asserts = []
    for lin, k, kind in bounds:
        if len(lin) == 1:
            (v, c), = lin.items()
            asserts.append((v, k / c, kind if kind == "eq" else kind, c > 0))
            continue
        keys = sorted(lin)
        c0 = lin[keys[0]]
        key = tuple((x, lin[x] / c0) for x in keys)
        v = rowvar.get(key)
        if v is None:
            v = nvars
            nvars += 1
            rowvar[key] = v
            rows[v] = {x: c for x, c in key}
        asserts.append((v, k / c0, kind, c0 > 0))
    # delta-rationals as pairs
    for v, k, kind, pos in asserts:
        if kind == "eq":
            ub = lb = (k, 0)
        elif pos:
            ub, lb = ((k, 0) if kind == "le" else (k, -1)), None
        else:
            ub, lb = None, ((k, 0) if kind == "le" else (k, 1))
        if ub is not None:
            if v not in upper or ub < upper[v]:
                upper[v] = ub
        if lb is not None:
            if v not in lower or lb > lower[v]:
                lower[v] = lb
    for v in upper:
        if v in lower and lower[v] > upper[v]:
            return True
    val = {}
    for v in range(n0):
        if v in lower:
            val[v] = lower[v]
        elif v in upper:
            val[v] = upper[v]
        else:
            val[v] = (Fraction(0), 0)
    for b, r in rows.items():
        x = Fraction(0)
        y = 0
        for v, c in r.items():
            x += c * val[v][0]
            y += c * val[v][1]
        val[b] = (x, y)
    if len(rows) > STATS["maxrows"]:
        STATS["maxrows"] = len(rows)
    cols = {}
    for b, r in rows.items():
        for v in r:
            cols.setdefault(v, set()).add(b)
    steps = 0
    while True:
        steps += 1
        if steps > 400:
            return False
        # Bland: smallest violated basic var
        bad = None
        for b in sorted(rows):
            vb = val[b]
            if b in lower and vb < lower[b]:
                bad = (b, True)
                break
            if b in upper and vb > upper[b]:
                bad = (b, False)
                break
        if bad is None:
            return False
        b, low = bad
        r = rows[b]
        target = lower[b] if low else upper[b]
        piv = None
        for v in sorted(r):
            c = r[v]
            inc = (c > 0) == low   # v must increase
            if inc:
                if v not in upper or val[v] < upper[v]:
                    piv = v
                    break
            else:
                if v not in lower or val[v] > lower[v]:
                    piv = v
                    break
        if piv is None:
            return True
        c = r[piv]
        d0 = (target[0] - val[b][0]) / c
        d1 = (target[1] - val[b][1]) / c
        # update
        val[b] = target
        val[piv] = (val[piv][0] + d0, val[piv][1] + d1)
        for b2 in cols.get(piv, ()):
            if b2 != b:
                c2 = rows[b2][piv]
                val[b2] = (val[b2][0] + c2 * d0, val[b2][1] + c2 * d1)
        # pivot
        del rows[b]
        for v in r:
            cols[v].discard(b)
        newr = {}
        ic = 1 / c
        for v, cc in r.items():
            if v != piv:
                newr[v] = -cc * ic
        newr[b] = ic
        for b2 in list(cols.get(piv, ())):
            rr = rows[b2]
            k = rr.pop(piv)
            for v, cc in newr.items():
                n = rr.get(v, 0) + k * cc
                if n == 0:
                    if v in rr:
                        del rr[v]
                        cols[v].discard(b2)
                else:
                    if v not in rr:
                        cols.setdefault(v, set()).add(b2)
                    rr[v] = n
        cols[piv] = set()
        rows[piv] = newr
        for v in newr:
            cols.setdefault(v, set()).add(piv)


# ------------------------------------------------------------- axioms of atoms
def axioms(a):
    """list of formulas valid for the atom"""
    k = a.kind
    out = []
    v = pa(a)
    if k == "floor":
        p = a.args[0]
        out += [f_le(sub(v, p)), f_lt(sub(p, add(v, ONE)))]
    elif k == "ceil":
        p = a.args[0]
        out += [f_le(sub(p, v)), f_lt(sub(v, add(p, ONE)))]
    elif k == "trunc":
        p = a.args[0]
        out += [f_lt(sub(v, add(p, ONE))), f_lt(sub(sub(p, ONE), v))]
        out.append(t.f_or(t.f_and(f_le(neg(p)), f_le(neg(v)), f_le(sub(v, p))),
                          t.f_and(f_lt(p), f_le(v), f_le(sub(p, v)))))
    elif k == "round":
        p = a.args[0]
        h = num(Fraction(1, 2))
        out += [f_le(sub(sub(v, p), h)), f_le(sub(sub(p, v), h))]
    elif k == "sqrt":
        out += [f_le(neg(v)), f_le(neg(a.args[0]))]
        c = a.args[0].cval()
        if c is not None and c > 0:
            d = 10 ** 9
            lo = math.isqrt((c.numerator * d * d) // c.denominator)
            out += [f_lt(sub(num(Fraction(lo, d) - Fraction(1, d)), v)), f_lt(sub(v, num(Fraction(lo + 2, d))))]
    elif k == "exp":
        out += [f_lt(neg(v))]
    elif k in ("sin", "cos"):
        out += [f_le(sub(v, ONE)), f_le(sub(neg(v), ONE))]
    elif k == "acos":
        out += [f_le(neg(v)), f_le(sub(v, t.PPI))]
    elif k in ("asin", "atan"):
        h = scale(t.PPI, Fraction(1, 2))
        out += [f_le(sub(v, h)), f_le(sub(neg(v), h))]
    elif k == "atan2":
        out += [f_le(sub(v, t.PPI)), f_lt(sub(neg(v), t.PPI))]
    elif k == "idiv":
        p, q = a.args
        r = sub(p, mul(q, v))
        qc = q.cval()
        if qc is not None and qc > 0:
            out += [f_lt(sub(r, q)), f_lt(neg(add(r, q)))]
            out.append(t.f_or(t.f_and(f_le(neg(p)), f_le(neg(r)), f_le(neg(v))), t.f_and(f_lt(p), f_le(r), f_le(v))))
    elif k == "udiv":
        p, q = a.args
        r = sub(p, mul(q, v))
        out += [f_le(neg(r)), f_lt(sub(r, q)), f_le(neg(v))]
    elif k in ("zext8",):
        out += [f_le(neg(v)), f_le(sub(v, num(255)))]
    elif k == "sext8":
        out += [f_le(sub(neg(v), num(128))), f_le(sub(v, num(127)))]
    elif k in ("size", "nat", "zext32", "addr"):
        out += [f_le(neg(v))]
    elif k == "and" and a.args[1].cval() is not None and a.args[1].cval() >= 0:
        out += [f_le(neg(v)), f_le(sub(v, a.args[1]))]
    elif k == "clampk":
        p = a.args[0]
        r = sub(p, scale(mul(t.PPI, v), 2))
        out += [f_le(sub(r, t.PPI)), f_le(neg(add(r, t.PPI)))]
    elif k == "sym":
        if a is t.PI:
            out += [f_lt(sub(v, num(Fraction(104348, 33215)))), f_lt(sub(num(Fraction(103993, 33102)), v))]
        elif a.args[0] == "inf":
            out += [f_le(sub(num(10**30), v))]
        elif a.ty == "nat":
            out += [f_le(neg(v))]
    if a.ty == "bool":
        out += [f_le(neg(v)), f_le(sub(v, ONE))]
    return out


def lit_atoms(f, out):
    t.val_atoms(f, out)
    return out


_MEMO = {}


def flatten(lits):
    out = []
    st = list(lits)
    while st:
        f = st.pop()
        if f[0] == "and":
            st.extend(f[1])
        elif f[0] == "T":
            continue
        elif f[0] == "F":
            return None
        else:
            out.append(f)
    return out


def _elim_candidate(p):
    """choose an atom to eliminate from p == 0; returns (atom id, Poly) or None"""
    best = None
    occ = {}
    for m in p.t:
        for a, e in m:
            occ[a] = occ.get(a, 0) + 1
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and occ[m[0][0]] == 1:
            i = m[0][0]
            a = by_id(i)
            if a is t.PI:
                continue
            bad = False
            for m2 in p.t:
                for b, e in m2:
                    if b != i and i in t.deep(b):
                        bad = True
            if bad:
                continue
            f = Fraction(c)
            isint = a.ty != "real"
            unit = abs(f) == 1
            if isint and not unit:
                rest = scale(neg(Poly({mm: cc for mm, cc in p.t.items() if mm != m})), 1 / f)
                if not rest.is_int():
                    continue
            pr = (1 if (unit or not isint) else 0, 1 if a.kind == "sym" else 0, len(t.deep(i)), i)
            if best is None or pr > best[0]:
                best = (pr, i, scale(neg(Poly({mm: cc for mm, cc in p.t.items() if mm != m})), 1 / f))
    if best is None:
        return None
    return best[1], best[2]


def clear_inv(p):
    """multiply p by the denominators occurring in it (negative powers, inv atoms);
    sign is not preserved in general: only usable for equalities"""
    for _ in range(12):
        worst = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    worst[a] = max(worst.get(a, 0), -e)
                elif by_id(a).kind == "inv":
                    worst[(a, "inv")] = max(worst.get((a, "inv"), 0), e)
        if not worst:
            return p
        k = next(iter(worst))
        n = worst[k]
        if isinstance(k, tuple):
            a = by_id(k[0])
            q = a.args[0]
            r = ZERO
            for m, c in p.t.items():
                e0 = dict(m).get(k[0], 0)
                d = dict(m)
                if e0:
                    del d[k[0]]
                rest = Poly({tuple(sorted(d.items())): c})
                for _i in range(n - e0):
                    rest = mul(rest, q)
                r = add(r, rest)
            p = r
        else:
            p = mul(p, Poly({((k, n),): 1}))
    return p


def _common_factor(p):
    """p / (greatest common monomial), or None if there is no common factor"""
    com = None
    for m in p.t:
        d = {a: e for a, e in m if e > 0}
        if com is None:
            com = d
        else:
            com = {a: min(e, d[a]) for a, e in com.items() if a in d}
        if not com:
            return None
    if not com:
        return None
    out = {}
    for m, c in p.t.items():
        d = dict(m)
        for a, e in com.items():
            d[a] -= e
        out[tuple(sorted((a, e) for a, e in d.items() if e))] = c
    return Poly(out)


class Refuter:
    def __init__(self, depth=6):
        self.depth = depth

    def refute(self, lits, depth=None):
        """True if the conjunction of literals is inconsistent (sound, incomplete)"""
        if depth is None:
            depth = self.depth
        lits = flatten(lits)
        if lits is None:
            return True
        # ---- equalities / boolean substitution to a fixpoint
        for _round in range(40):
            s = set()
            for f in lits:
                if f_not(f) in s:
                    return True
                s.add(f)
            m = None
            src = None
            # boolean atoms
            bm = {}
            atoms_all = None
            for f in lits:
                if f[0] == "b" and f[1].kind != "ptreq" and f[1].ty == "bool":
                    bm[f[1].id] = ONE
                elif f[0] == "nb" and f[1].kind != "ptreq" and f[1].ty == "bool":
                    bm[f[1].id] = ZERO
            allat = set()
            for f in lits:
                for x in f[1:]:
                    if isinstance(x, (Poly, tuple)):
                        t.val_atoms(x, allat)
                    elif isinstance(x, t.Atom) and f[0] in ("b", "nb"):
                        for y in x.args:
                            t.val_atoms(y, allat)
            for i in allat:
                a = by_id(i)
                if a.kind == "b2i":
                    g = a.args[0]
                    if g in s:
                        bm[i] = ONE
                    elif f_not(g) in s:
                        bm[i] = ZERO
            use = {i: v for i, v in bm.items() if i in allat}
            # pointers equal
            changed = False
            if use:
                sb = t.Subst(use)
                nl = []
                for f in lits:
                    if f[0] in ("b", "nb") and f[1].id in use:
                        nl.append(f)
                        continue
                    g = sb.form(f)
                    if g != f:
                        changed = True
                    nl.append(g)
                lits = flatten(nl)
                if lits is None:
                    return True
            # pointer equalities -> base substitution
            for f in lits:
                if f[0] == "b" and f[1].kind == "ptreq":
                    p, q = f[1].args
                    for x, y in ((p, q), (q, p)):
                        if x.base.kind == "sym" and not x.off.t and x.base is not y.base:
                            sb = t.Subst({})
                            sb = PtrSubst(x.base, y)
                            nl = []
                            ch2 = False
                            for g in lits:
                                if g is f:
                                    nl.append(g)
                                    continue
                                h = sb.form(g)
                                if h != g:
                                    ch2 = True
                                nl.append(h)
                            if ch2:
                                changed = True
                                lits = flatten(nl)
                                if lits is None:
                                    return True
                            break
                    if changed:
                        break
            cand = None
            for f in lits:
                if f[0] == "eq":
                    c = _elim_candidate(f[1])
                    if c is not None:
                        cand = c
                        src = f
                        break
            if cand is not None:
                sb = t.Subst({cand[0]: cand[1]})
                nl = []
                a = by_id(cand[0])
                ax = axioms(a)
                for f in lits + [x for x in ax]:
                    if f is src:
                        continue
                    nl.append(sb.form(f))
                if a.ty == "int" and not cand[1].is_int():
                    pass
                lits = flatten(nl)
                if lits is None:
                    return True
                changed = True
            # implicit equalities: p<=0 and -p<=0
            if cand is None and not changed:
                les = {}
                for f in lits:
                    if f[0] == "le":
                        les[f[1]] = f
                neweq = None
                for p in les:
                    if neg(p) in les:
                        neweq = (les[p], les[neg(p)], f_eq(p))
                        break
                if neweq is not None:
                    lits = [x for x in lits if x is not neweq[0] and x is not neweq[1]] + [neweq[2]]
                    lits = flatten(lits)
                    if lits is None:
                        return True
                    changed = True
            if not changed:
                break
        lits = list(dict.fromkeys(lits))
        extra_ne = []
        for f in lits:
            if f[0] == "ne":
                q = clear_inv(f[1])
                if not q.t:
                    return True
                g = _common_factor(f[1])
                if g is not None:
                    # a product is non-zero: so is every factor
                    extra_ne.append(f_ne(g))
        for f in extra_ne:
            if f[0] == "F":
                return True
            if f not in lits and f[0] == "ne":
                lits.append(f)
        # ---- arithmetic part
        arith = [f for f in lits if f[0] in ("le", "lt", "eq")]
        ats = set()
        for f in lits:
            if f[0] in ("le", "lt", "eq", "ne"):
                ats |= f[1].atoms()
        ors = [f for f in lits if f[0] == "or"]
        seen = set()
        todo = list(ats)
        axs = []
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            for x in axioms(by_id(i)):
                for y in (x[1] if x[0] == "and" else (x,)):
                    if y[0] == "or":
                        ors.append(y)
                    elif y[0] in ("le", "lt", "eq"):
                        axs.append(y)
                        todo.extend(y[1].atoms() - seen)
                    elif y[0] == "F":
                        return True
        cons = [(f[1], f[0]) for f in arith] + [(f[1], f[0]) for f in axs]
        if len(cons) > 400:
            return False
        if cons:
            if lp_infeasible(cons):
                return True
            prods = self.products(cons, [f[1] for f in lits if f[0] in ("le", "lt", "eq")])
            if prods and lp_infeasible(cons + prods):
                return True
        # ---- splits
        if depth <= 0:
            return False
        for f in lits:
            if f[0] == "ne" and (f[1].is_int() or len(f[1].t) <= 3):
                a = f_lt(f[1])
                b = f_lt(neg(f[1]))
                base = [x for x in lits if x is not f]
                # only worthwhile when one side dies immediately
                if self._quick(base + [a], cons, a):
                    return self.refute(base + [b], depth - 1)
                if self._quick(base + [b], cons, b):
                    return self.refute(base + [a], depth - 1)
        best = None
        for f in ors:
            alive = []
            for g in f[1]:
                gl = flatten([g])
                if gl is None:
                    continue
                if any(f_not(x) in lits for x in gl):
                    continue
                ar = [(x[1], x[0]) for x in gl if x[0] in ("le", "lt", "eq")]
                if ar and lp_infeasible(cons + ar):
                    continue
                alive.append(g)
            if not alive:
                return True
            if len(alive) == 1:
                best = (f, alive)
                break
            if best is None or len(alive) < len(best[1]):
                if f in lits or best is None:
                    best = (f, alive)
        if best is not None:
            f, alive = best
            if len(alive) > 1 and depth <= 1:
                return False
            base = [x for x in lits if x is not f]
            if f in ors and f not in lits and len(alive) > 1 and depth < 3:
                return False
            for g in alive:
                if g in lits:
                    return False
                gl = flatten([g])
                if all(x in lits for x in gl):
                    # no progress
                    return False
                d = depth if len(alive) == 1 else depth - 2
                if not self.refute(base + gl, d if d < depth or f in lits else depth - 1):
                    return False
            return True
        # b2i atoms
        for i in seen:
            a = by_id(i)
            if a.kind == "b2i":
                g = a.args[0]
                return (self.refute(lits + [g], depth - 2) and self.refute(lits + [f_not(g)], depth - 2))
        for f in lits:
            if f[0] == "ne" and f[1].is_int():
                base = [x for x in lits if x is not f]
                return (self.refute(base + [f_lt(f[1])], depth - 2) and self.refute(base + [f_lt(neg(f[1]))], depth - 2))
        return False

    def _quick(self, lits, cons, extra):
        if extra[0] == "F":
            return True
        if extra[0] == "T":
            return False
        return lp_infeasible(cons + [(extra[1], extra[0])])

    def products(self, cons, goals):
        isnl = _isnl
        nl = set()
        for p, k in cons:
            for m in p.t:
                if isnl(m):
                    nl.add(m)
        if not nl:
            return []
        nat = set()
        negs = set()
        out = []
        for m in nl:
            if m and all(e % 2 == 0 for a, e in m):
                out.append((Poly({m: -1}), "le"))
            for a, e in m:
                nat.add(a)
                if e < 0:
                    negs.add((a, e))
                    negs.add((a, -1))
        extra = []
        for a, e in sorted(negs):
            v = Poly({((a, 1),): 1})
            if by_id(a).kind == "sqrt" or lp_infeasible(cons + [(v, "le")]):
                extra.append((Poly({((a, e),): -1}), "lt"))
            elif lp_infeasible(cons + [(neg(v), "le")]):
                extra.append((Poly({((a, e),): 1 if e % 2 else -1}), "lt"))
        for a in sorted(nat):
            at = by_id(a)
            if at.kind == "inv":
                q = at.args[0]
                if lp_infeasible(cons + [(q, "le")]):
                    extra.append((neg(pa(at)), "lt"))
                elif lp_infeasible(cons + [(neg(q), "le")]):
                    extra.append((pa(at), "lt"))
                # q * inv(q) == 1
                out.append((sub(mul(q, pa(at)), ONE), "eq"))
        # sign of a product of three or more factors of known sign
        sg = {}
        for m in nl:
            if len(m) < 3 or len(m) > 6:
                continue
            r = 1
            for a, e in m:
                if e % 2 == 0:
                    continue
                if a not in sg:
                    v = Poly({((a, 1),): 1})
                    sg[a] = 1 if lp_infeasible(cons + [(v, "le")]) else -1 if lp_infeasible(cons + [(neg(v), "le")]) else 0
                r *= sg[a]
                if not r:
                    break
            else:
                if all(e % 2 for a, e in m):
                    out.append((Poly({m: -r}), "lt"))
        out += extra
        first = [(p, k) for p, k in cons if k != "eq" and (len(p.t) <= 5 or (len(p.t) <= 7 and any(e < 0 for m in p.t for a, e in m))) and (p.atoms() & nat)]
        near = set()
        for p, k in first:
            near |= p.atoms()
        small = extra + first + [(p, k) for p, k in cons if k != "eq" and len(p.t) <= 3 and not (p.atoms() & nat) and (p.atoms() & near)]
        small = small[:44]
        nout = len(out)
        seen = set()
        cand = []
        nl2 = set(nl)
        for rnd in (0, 1):
            new = set()
            for i in range(len(small)):
                p, k = small[i]
                for j in range(i, len(small)):
                    q, k2 = small[j]
                    r = t.mul_memo(p, q)
                    if len(r.t) > 14 or nl2.isdisjoint(r.t) or r in seen:
                        continue
                    bm = [m for m in r.t if isnl(m) and m not in nl2]
                    if len(bm) > (2 if rnd == 0 else 0):
                        continue
                    new.update(bm)
                    seen.add(r)
                    cand.append((len(bm) if rnd == 0 else 3, len(r.t), len(cand), (neg(r), "lt" if (k == "lt" and k2 == "lt") else "le")))
            if not new or len(cand) > 200:
                break
            nl2 |= new
        cand.sort(key=lambda x: x[:3])
        out += [c[3] for c in cand[:90]]
        for p, k in cons:
            if k == "eq" and len(p.t) <= 4:
                for a in sorted(nat):
                    r = mul(p, pa(by_id(a)))
                    if set(r.t) & nl and len(r.t) <= 8:
                        out.append((r, "eq"))
        return out[:180]


_NL = {}


def _isnl(m):
    r = _NL.get(m)
    if r is None:
        r = _NL[m] = sum(abs(e) for a, e in m) >= 2 or any(e < 0 or by_id(a).kind == "inv" for a, e in m)
    return r


class PtrSubst(t.Subst):
    """replace pointers based on `base` by target"""

    def __init__(self, base, target):
        super().__init__({})
        self.pb = base
        self.tgt = target

    def base(self, b):
        if b is self.pb:
            return self.tgt
        r = self.bm.get(b.id)
        if r is None:
            r = b
            if b.kind == "sym" and isinstance(b.info, tuple):
                info = tuple(self.val(x) for x in b.info)
                if info != b.info:
                    r = t.sym_base(info, b.name)
            self.bm[b.id] = r
        return r

    def at(self, i):
        r = self.cache.get(i)
        if r is not None:
            return r
        a = by_id(i)
        if not a.args:
            r = pa(a)
        else:
            args = tuple(self.val(x) for x in a.args)
            r = pa(a) if args == a.args else t.rebuild(a, args)
        self.cache[i] = r
        return r

    def poly(self, p):
        r = ZERO
        same = True
        parts = []
        for m, c in p.t.items():
            q = num(c)
            for a, e in m:
                x = self.at(a)
                if x.single_atom() is not by_id(a):
                    same = False
                if e < 0:
                    x = t.inv(x)
                    e = -e
                for _ in range(e):
                    q = mul(q, x)
            parts.append(q)
        if same:
            return p
        for q in parts:
            r = add(r, q)
        return r

    def form(self, f):
        k = f[0]
        if k in ("b", "nb"):
            a = f[1]
            args = tuple(self.val(x) for x in a.args)
            if a.kind == "ptreq":
                g = t.ptr_eq(args[0], args[1])
            elif args == a.args:
                return f
            else:
                g = t.p2b(t.rebuild(a, args))
            return g if k == "b" else f_not(g)
        return super().form(f)


REF = Refuter()


def relevant(facts, goal_atoms, rounds=4, limit=140):
    """facts transitively sharing atoms with the goal"""
    keep = []
    rem = [(f, _latoms(f)) for f in facts]
    cur = set(goal_atoms)
    for _ in range(rounds):
        nxt = []
        new = set()
        for f, a in rem:
            if a & cur or not a:
                keep.append(f)
                new |= a
            else:
                nxt.append((f, a))
        rem = nxt
        if not (new - cur):
            break
        cur |= new
        if len(keep) > limit:
            break
    return keep


_LA = {}


def _latoms(f):
    r = _LA.get(f)
    if r is None:
        s = t.val_atoms(f, set())
        s.discard(t.PI.id)
        r = frozenset(s)
        if len(_LA) < 400000:
            _LA[f] = r
    return r


def ne_factor(facts, p):
    """p = a * q after replacing equal variables; (a, q) or None"""
    sub_ = {}
    for f in facts:
        if f[0] == "eq" and len(f[1].t) == 2 and sorted(f[1].t.values()) == [-1, 1] and all(len(m) == 1 and m[0][1] == 1 for m in f[1].t):
            (m1, _), (m2, _) = f[1].t.items()
            sub_[m1[0][0]] = Poly({m2: 1})
    if sub_:
        p = t.Subst(sub_).poly(p)
    if not p.t or () in p.t:
        return None
    common = None
    for m in p.t:
        at = {a for a, e in m}
        common = at if common is None else common & at
    for a in common or ():
        q = {}
        for m, c in p.t.items():
            n = tuple((x, e - 1 if x == a else e) for x, e in m if not (x == a and e == 1))
            q[n] = c
        return Poly({((a, 1),): 1}), Poly(q)
    return None


def row_major(facts, p):
    """p = a*q + r with |r| < a: p = 0 needs q = 0 and r = 0"""
    cand = {}
    for m in p.t:
        if len(m) > 1 or (m and m[0][1] > 1):
            for a, e in m:
                cand[a] = cand.get(a, 0) + 1
    for a in sorted(cand, key=lambda x: -cand[x]):
        q, r = {}, {}
        for m, c in p.t.items():
            if any(x == a for x, e in m):
                q[tuple((x, e - 1 if x == a else e) for x, e in m if not (x == a and e == 1))] = c
            else:
                r[m] = c
        q, r = Poly(q), Poly(r)
        if any(len(m) > 1 for m in q.t) or any(len(m) > 1 for m in r.t) or not q.is_int():
            continue
        pa_ = Poly({((a, 1),): 1})
        rel = relevant(facts, _latoms(("eq", add(q, r))) | {a})
        if not REF.refute(rel + [("eq", q), ("eq", r)], 2):
            continue
        if implied(facts, f_le(add(sub(r, pa_), ONE)), 1) and implied(facts, f_le(add(sub(neg(r), pa_), ONE)), 1):
            return True
    return False


def implied(facts, goal, depth=6):
    """facts |= goal ? (sound, incomplete)"""
    STATS["queries"] += 1
    k = goal[0]
    if k == "T":
        return True
    if k == "and":
        return all(implied(facts, g, depth) for g in goal[1])
    if goal in facts:
        return True
    if k == "F":
        key = None
        rel = list(facts)
    else:
        rel = relevant(facts, _latoms(goal))
    if k == "eq":
        # try polynomial identity first
        q = clear_inv(goal[1])
        if not q.t:
            return True
    key = (frozenset(rel), goal, depth)
    r = _MEMO.get(key)
    if r is not None:
        STATS["hits"] += 1
        return r
    if k == "ne" and any(len(m) > 1 for m in goal[1].t):
        q = ne_factor(rel, goal[1])
        if q is not None and implied(facts, ("ne", q[0]), 2) and implied(facts, ("ne", q[1]), 2):
            _MEMO[key] = True
            return True
        if goal[1].is_int() and row_major(facts, goal[1]):
            _MEMO[key] = True
            return True
    if k == "eq" and not goal[1].is_int() or k == "eq":
        r = REF.refute(rel + [("ne", goal[1])], depth)
        if not r:
            r = implied(facts, f_le(goal[1]), depth) and implied(facts, f_le(neg(goal[1])), depth)
    else:
        r = REF.refute(rel + [f_not(goal)], depth)
    _MEMO[key] = r
    return r


def consistent_with(facts, new, depth=2):
    """False if facts + new is recognised as contradictory"""
    if new[0] == "F":
        return False
    if new[0] == "T":
        return True
    if f_not(new) in facts:
        return False
    rel = relevant(facts, _latoms(new))
    key = (frozenset(rel), new, -depth)
    r = _MEMO.get(key)
    if r is None:
        r = not REF.refute(rel + [new], depth)
        _MEMO[key] = r
    else:
        STATS["hits"] += 1
    return r
