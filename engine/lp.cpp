// Emptiness of a polyhedron (exact rational simplex, Bland's rule); C++ twin of
// lp_infeasible_exact in vp/poly.py.
#include <cstdint>
#include <vector>
#include <map>
#include <algorithm>
#include <gmpxx.h>
typedef __int128 W;
struct Over {};
static W gcdw(W a, W b) {
    if (a < 0) a = -a;
    if (b < 0) b = -b;
    while (b) {
        if (!(a >> 63) && !(b >> 63)) {
            uint64_t x = (uint64_t)a, y = (uint64_t)b;
            while (y) { uint64_t z = x % y; x = y; y = z; }
            return (W)x;
        }
        W c = a % b; a = b; b = c;
    }
    return a;
}
static const int64_t LIM = INT64_MAX / 2;
struct Q {
    int64_t n, d;
    Q(int64_t a = 0) : n(a), d(1) {}
    static Q mk(W a, W b) {
        if (b != 1) {
            W g = gcdw(a, b);
            if (g > 1) { a /= g; b /= g; }
            if (b < 0) { a = -a; b = -b; }
            if (a == 0) b = 1;
        }
        if (a > LIM || a < -LIM || b > LIM) throw Over();
        Q q; q.n = (int64_t)a; q.d = (int64_t)b; return q;
    }
    bool zero() const { return n == 0; }
};
static Q operator*(const Q& a, const Q& b) {
    if (a.n == 0 || b.n == 0) return Q();
    return Q::mk((W)a.n * b.n, (W)a.d * b.d);
}
static Q operator/(const Q& a, const Q& b) {
    if (a.n == 0) return Q();
    W n = (W)a.n * b.d, d = (W)a.d * b.n;
    if (d < 0) { n = -n; d = -d; }
    return Q::mk(n, d);
}
static Q operator+(const Q& a, const Q& b) {
    if (a.n == 0) return b;
    if (b.n == 0) return a;
    if (a.d == 1 && b.d == 1) return Q::mk((W)a.n + b.n, 1);
    // |a.n*b.d| < 2^126/... : both factors are below 2^62, the sum fits
    return Q::mk((W)a.n * b.d + (W)b.n * a.d, (W)a.d * b.d);
}
static Q operator-(const Q& a) { Q r = a; r.n = -r.n; return r; }
static Q operator-(const Q& a, const Q& b) { return a + (-b); }
static int cmp(const Q& a, const Q& b) {
    W x = (W)a.n * b.d, y = (W)b.n * a.d;
    return x < y ? -1 : x > y;
}
static int sgn(const Q& a) { return a.n > 0 ? 1 : a.n < 0 ? -1 : 0; }
// unbounded numbers for the rare systems that need them
struct M {
    mpq_class v;
    M(int64_t a = 0) : v((long)a) {}
    bool zero() const { return sgn(v) == 0; }
};
static M mk(const mpq_class& v) { M m; m.v = v; return m; }
static M operator*(const M& a, const M& b) { return mk(a.v * b.v); }
static M operator/(const M& a, const M& b) { return mk(a.v / b.v); }
static M operator+(const M& a, const M& b) { return mk(a.v + b.v); }
static M operator-(const M& a, const M& b) { return mk(a.v - b.v); }
static M operator-(const M& a) { return mk(-a.v); }
static int cmp(const M& a, const M& b) { return ::cmp(a.v, b.v); }
static int sgn(const M& a) { return ::sgn(a.v); }
static bool operator<(const Q& a, const Q& b) { return a.n != b.n ? a.n < b.n : a.d < b.d; }
static bool operator<(const M& a, const M& b) { return a.v < b.v; }
template <class Q> struct DD { Q a, b; };
template <class Q> static int cmp(const DD<Q>& x, const DD<Q>& y) { int c = cmp(x.a, y.a); return c ? c : cmp(x.b, y.b); }
template <class Q> static int solve(int nc, const int32_t* start, const int32_t* var, const int64_t* num, const int64_t* rhs, const char* kind, int n0) {
    typedef DD<Q> D;
    std::map<std::vector<std::pair<int, Q> >, int> rowvar;
    struct A { int v; Q k; char kind; bool pos; };
    std::vector<A> as;
    std::vector<std::vector<std::pair<int, Q> > > rows0;
    int nv = n0;
    for (int i = 0; i < nc; ++i) {
        int s = start[i], e = start[i + 1];
        Q k(rhs[i]);
        if (e - s == 1) {
            as.push_back(A{var[s], k / Q(num[s]), kind[i], num[s] > 0});
            continue;
        }
        std::vector<std::pair<int, int64_t> > r;
        for (int j = s; j < e; ++j) r.push_back(std::make_pair(var[j], num[j]));
        std::sort(r.begin(), r.end());
        Q c0(r[0].second);
        std::vector<std::pair<int, Q> > row;
        for (auto& x : r) {
            Q c = Q(x.second) / c0;
            row.push_back(std::make_pair((int)x.first, c));
        }
        auto it = rowvar.find(row);
        int v;
        if (it == rowvar.end()) {
            v = nv++;
            rowvar[row] = v;
            rows0.push_back(row);
        } else v = it->second;
        as.push_back(A{v, k / c0, kind[i], sgn(c0) > 0});
    }
    std::vector<char> hl(nv), hu(nv);
    std::vector<D> lo(nv), up(nv), val(nv);
    for (auto& a : as) {
        bool u = false, l = false;
        D b;
        b.a = a.k;
        if (a.kind == 'e') u = l = true;
        else if (a.pos) { u = true; b.b = Q(a.kind == 'l' ? 0 : -1); }
        else { l = true; b.b = Q(a.kind == 'l' ? 0 : 1); }
        if (u && (!hu[a.v] || cmp(b, up[a.v]) < 0)) { up[a.v] = b; hu[a.v] = 1; }
        if (l && (!hl[a.v] || cmp(b, lo[a.v]) > 0)) { lo[a.v] = b; hl[a.v] = 1; }
    }
    for (int v = 0; v < nv; ++v) if (hl[v] && hu[v] && cmp(lo[v], up[v]) > 0) return 1;
    for (int v = 0; v < n0; ++v) {
        if (hl[v]) val[v] = lo[v];
        else if (hu[v]) val[v] = up[v];
    }
    // tableau: one dense row per basic variable
    std::vector<std::vector<Q> > T(rows0.size(), std::vector<Q>(nv));
    std::vector<int> basic(rows0.size()), rowof(nv, -1);
    for (size_t i = 0; i < rows0.size(); ++i) {
        int b = n0 + (int)i;
        basic[i] = b; rowof[b] = (int)i;
        for (auto& x : rows0[i]) {
            T[i][x.first] = x.second;
            val[b].a = val[b].a + x.second * val[x.first].a;
            val[b].b = val[b].b + x.second * val[x.first].b;
        }
    }
    std::vector<int> nz;
    for (int steps = 0; ; ) {
        if (++steps > 400) return 0;
        int b = -1;
        bool low = false;
        for (int v = 0; v < nv && b < 0; ++v) {
            if (rowof[v] < 0) continue;
            if (hl[v] && cmp(val[v], lo[v]) < 0) { b = v; low = true; }
            else if (hu[v] && cmp(val[v], up[v]) > 0) b = v;
        }
        if (b < 0) return 0;
        int ri = rowof[b];
        std::vector<Q>& r = T[ri];
        D target = low ? lo[b] : up[b];
        int piv = -1;
        for (int v = 0; v < nv; ++v) {
            if (r[v].zero()) continue;
            bool inc = (sgn(r[v]) > 0) == low;
            if (inc ? (!hu[v] || cmp(val[v], up[v]) < 0) : (!hl[v] || cmp(val[v], lo[v]) > 0)) { piv = v; break; }
        }
        if (piv < 0) return 1;
        Q c = r[piv];
        Q d0 = (target.a - val[b].a) / c, d1 = (target.b - val[b].b) / c;
        val[b] = target;
        val[piv].a = val[piv].a + d0;
        val[piv].b = val[piv].b + d1;
        Q ic = Q(1) / c;
        r[piv] = Q();
        nz.clear();
        for (int v = 0; v < nv; ++v) if (!r[v].zero()) { r[v] = -(r[v] * ic); nz.push_back(v); }
        r[b] = ic;
        nz.push_back(b);
        rowof[b] = -1; rowof[piv] = ri; basic[ri] = piv;
        for (size_t i = 0; i < T.size(); ++i) {
            if ((int)i == ri) continue;
            std::vector<Q>& rr = T[i];
            Q k = rr[piv];
            if (k.zero()) continue;
            int bv = basic[i];
            val[bv].a = val[bv].a + k * d0;
            val[bv].b = val[bv].b + k * d1;
            rr[piv] = Q();
            for (int v : nz) rr[v] = rr[v] + k * r[v];
        }
    }
}
extern "C" int vp_lp(int nc, const int32_t* start, const int32_t* var, const int64_t* num, const int64_t* rhs, const char* kind, int n0) {
    try { return solve<Q>(nc, start, var, num, rhs, kind, n0); } catch (const Over&) { return solve<M>(nc, start, var, num, rhs, kind, n0); }
}
