//@src src/geometry/circle.cpp src/geometry/line.cpp src/geometry/intersector.cpp
// Points that two shapes have in common.
#include "vp.h"
#include <cslibs_path_planning/geometry/intersector.h>
using namespace path_geom;
typedef Eigen::Vector2d V;
static bool eq(const V& a, const V& b) { return a.x() == b.x() && a.y() == b.y(); }
static bool crossed;
static V arg[4], crossing;
static double tolerance;
bool segmentIntersection(const point2D& a, const point2D& b, const point2D& c, const point2D& d, point2D& p, double&, double&, double tol) {
    vp_assert(eq(V(a.first, a.second), arg[0]) && eq(V(b.first, b.second), arg[1]) && eq(V(c.first, c.second), arg[2]) && eq(V(d.first, d.second), arg[3]) && tol == tolerance,
              "the two lines are intersected with the tolerance");
    p.first = crossing.x(); p.second = crossing.y();
    return crossed;
}
static V any(const char*) { return V(vp_real("x"), vp_real("y")); }
VP_DRIVER drv_lines() {
    for (int i = 0; i < 4; ++i) arg[i] = any("p");
    crossing = any("crossing");
    crossed = vp_bool("crossed"); tolerance = vp_real("tolerance");
    V before = any("before"), out = before;
    bool ok = Intersector::intersect(Line(arg[0], arg[1]), Line(arg[2], arg[3]), out, tolerance);
    vp_assert(ok == crossed, "lines that cross are reported");
    vp_assert(eq(out, ok ? crossing : before), "the crossing is delivered");
}
static void old(std::vector<V>& p) { if (vp_bool("used")) p.resize(3, V(vp_real("x"), vp_real("y"))); }
static double side() { return vp_bool("left") ? ARC_LEFT : ARC_RIGHT; }
// a line past a circle: u, v: beginning and foot of the center in parts of its length
VP_DRIVER drv_crossing_line() {
    vp_unroll(12, -1000);
    V c = any("c");
    double phi = vp_real("phi"), len = vp_real("length"), rho = vp_real("rho"), beta = vp_real("beta"), u = vp_real("u"), tol = vp_real("tolerance");
    double cb = std::cos(beta), sb = std::sin(beta), h = rho * cb;
    vp_assume(len > 0 && rho > 0 && cb > 0 && tol >= 0);
    vp_assume(h > 0 && len * rho * cb > 0 && 4 * len * len * len * len * rho * rho * cb * cb > tol * tol);
    V dir(std::cos(phi), std::sin(phi)), ortho(-std::sin(phi), std::cos(phi));
    V foot = c + rho * len * sb * ortho, s = foot - u * len * dir, e = foot + (1 - u) * len * dir;
    Circle k(c, rho * len, side());
    std::vector<V> p;
    old(p);
    Intersector::intersect(Line(s, e), k, p, vp_bool("negative") ? -tol : tol);
    V a = foot - h * len * dir, b = foot + h * len * dir;
    bool first = u - h >= 0 && u - h <= 1, second = u + h >= 0 && u + h <= 1;
    vp_assert((int) p.size() == (first ? 1 : 0) + (second ? 1 : 0), "exactly the crossings within the line are delivered");
    vp_assert(!first || eq(p[0], a), "the first crossing");
    vp_assert(!second || eq(p[first ? 1 : 0], b), "the second crossing");
    vp_reach("done");
}
static void beside(bool tangent) {
    double m = tangent ? 0 : vp_real("m");
    vp_unroll(12, -1000);
    V c = any("c");
    double phi = vp_real("phi"), len = vp_real("length"), r = vp_real("r"), u = vp_real("u"), tol = vp_real("tolerance");
    vp_assume(len > 0 && r > 0 && tol >= 0);
    if (!tangent) vp_assume(m > 0 && len * len * r * m > 0 && len * len * m * m > 0);   // products of positive factors
    V dir(std::cos(phi), std::sin(phi)), ortho(-std::sin(phi), std::cos(phi));
    V foot = c + (r + m) * ortho, s = foot - u * len * dir, e = foot + (1 - u) * len * dir;
    std::vector<V> p;
    old(p);
    Intersector::intersect(Line(s, e), Circle(c, r, side()), p, tol);
    vp_assert(p.size() <= 1 || (tol == 0 && m == 0), "a line beside a circle has at most one point in common with it");
    vp_assert(p.empty() || tol > 0 || m == 0, "without tolerance a line beside a circle has none");
    vp_assert(m != 0 || tol == 0 || (p.size() == 1) == (u >= 0 && u <= 1), "a tangent has one point in common with the circle");
    vp_assert(m != 0 || tol == 0 || p.empty() || eq(p[0], foot), "a tangent has its foot point in common with the circle");
    vp_reach("done");
}
VP_DRIVER drv_line_beside() { beside(false); }
VP_DRIVER drv_tangent() { beside(true); }
struct Two {
    V a, b; double ra, rb, d, phi, tol, abs;
    Two() : a(any("a")), ra(vp_real("ra")), rb(vp_real("rb")), d(vp_real("d")), phi(vp_real("phi")), tol(vp_real("tolerance")), abs(ra > rb ? ra - rb : rb - ra) {
        vp_assume(ra > 0 && rb > 0 && d >= 0 && tol >= 0);
        b = V(a.x() + d * std::cos(phi), a.y() + d * std::sin(phi));
    }
};
VP_DRIVER drv_circles() {
    vp_unroll(12, -1000);
    Two t;
    std::vector<V> p;
    old(p);
    Intersector::intersect(Circle(t.a, t.ra, side()), Circle(t.b, t.rb, side()), p, vp_bool("negative") ? -t.tol : t.tol);
    vp_assert(p.size() <= 2, "two circles have at most two points in common");
    if (t.d > t.ra + t.rb + t.tol || t.d + t.tol < t.abs || t.d < t.tol) {
        vp_assert(p.empty(), "circles apart or within each other have no point in common");
        vp_reach("apart");
    } else if (t.d < t.ra + t.rb - t.tol && t.d > t.abs + t.tol) {
        double x = (t.ra * t.ra - t.rb * t.rb + t.d * t.d) / (2 * t.d);
        if (t.ra * t.ra - x * x <= t.tol * t.tol) return;
        vp_assert(p.size() == 2, "crossing circles have two points in common");
        for (int i = 0; i < 2; ++i)
            vp_assert((p[i] - t.a).squaredNorm() == t.ra * t.ra && (p[i] - t.b).squaredNorm() == t.rb * t.rb, "the points lie on both circles");
        V n(-std::sin(t.phi), std::cos(t.phi));
        double l = (p[0] - t.a).dot(n), r = (p[1] - t.a).dot(n);
        vp_assert(l == -r && l * l > 0, "the points lie on both sides of the line between the centers");
        vp_reach("crossing");
    } else if (t.d == t.ra + t.rb && t.tol > 0) {
        vp_assert(p.size() == 1 && eq(p[0], V(t.a.x() + t.ra * std::cos(t.phi), t.a.y() + t.ra * std::sin(t.phi))), "touching circles have one point in common");
        vp_reach("touching");
    }
}
// the arcs are stand-ins that cover either, both or none of the common points
static const Circle* arcs[2];
static std::vector<V>* found;
static bool covers[2][2];
static double arc_tol;
extern "C" bool arc_covers(const Circle* c, const V& p, double tol) {
    vp_assert((c == arcs[0] || c == arcs[1]) && tol == arc_tol, "the given arcs are looked at, with the tolerance");
    int k = c == arcs[0] ? 0 : 1;
    for (unsigned i = 0; i < found->size(); ++i) if (eq((*found)[i], p)) return covers[k][i];
    vp_fail("only common points are looked at");
    return false;
}
static void two_arcs(bool through) {
    vp_unroll(12, -1000);
    vp_replace("path_geom::Circle::isPointOnArc", "arc_covers");
    Two t;
    Circle a(t.a, t.ra, side()), b(t.b, t.rb, side());
    arcs[0] = &a; arcs[1] = &b;
    for (int i = 0; i < 4; ++i) covers[i / 2][i % 2] = vp_bool("covers");
    std::vector<V> all, p;
    Intersector::intersect(a, b, all, t.tol);
    found = &all; arc_tol = t.tol;
    old(p);
    bool negative = vp_bool("negative");
    if (through) a.intersect(b, p, negative ? -t.tol : t.tol); else Intersector::intersectArcs(a, b, p, negative ? -t.tol : t.tol);
    unsigned n = 0;
    for (unsigned i = 0; i < 2; ++i) if (i < all.size() && arc_covers(&a, all[i], t.tol) && arc_covers(&b, all[i], t.tol)) {
        vp_assert(n < p.size() && eq(p[n], all[i]), "common points on both arcs are delivered");
        ++n;
    }
    vp_assert(p.size() == n, "only common points on both arcs are delivered");
    vp_reach("done");
}
VP_DRIVER drv_arcs() { two_arcs(false); }
VP_DRIVER drv_arcs_of() { two_arcs(true); }
