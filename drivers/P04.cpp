//@src src/geometry/circle.cpp src/geometry/line.cpp src/geometry/intersector.cpp src/geometry/tangentor.cpp
// Circles and arcs that are tangent to two shapes.
#include "vp.h"
#include <cslibs_path_planning/geometry/tangentor.h>
#include <cslibs_path_planning/geometry/intersector.h>
using namespace path_geom;
typedef Eigen::Vector2d V;
typedef aligned<Circle>::vector Circles;
bool segmentIntersection(const point2D&, const point2D&, const point2D&, const point2D&, point2D&, double&, double&, double) { vp_fail("no lines are intersected"); return false; }
static bool eq(const V& a, const V& b) { return a.x() == b.x() && a.y() == b.y(); }
static void old(Circles& p) { if (vp_bool("used")) p.push_back(Circle(V(1, 2), 3)); }
struct Scene {     // a line and a circle
    double phi, len, u, off, r, radius, tol; int dir; V c, along, ortho, s, e;
    Scene() : phi(vp_real("phi")), len(vp_real("length")), u(vp_real("u")), off(vp_real("offset")), tol(vp_real("tolerance")), dir(vp_bool("left") ? ARC_LEFT : ARC_RIGHT),
              c(vp_real("cx"), vp_real("cy")), along(std::cos(phi), std::sin(phi)), ortho(-std::sin(phi), std::cos(phi)) {
        double q = vp_real("r"), p = vp_real("radius");
        vp_assume(len > 0 && q > 0 && p > 0 && tol >= 0);
        r = q * q; radius = p * p;
        vp_assume(r > 0 && radius > 0 && radius * len > tol);
        V foot = c + off * ortho;         // the center lies `off` to the right of the line
        s = foot - u * along; e = s + len * along;
    }
    double left(const V& p) const { return (p - s).dot(ortho); }
    bool clear() const {                  // no parallel line is nearly tangent
        for (int k = -1; k < 2; k += 2) {
            double d = off + k * radius, D = 4 * len * len * ((r + radius) * (r + radius) - d * d);
            if (D >= -tol * tol && D < tol * tol) return false;
        }
        return true;
    }
};
VP_DRIVER drv_circles() {
    vp_unroll(12, -1000);
    Scene t;
    if (!t.clear()) return;
    Line l(t.s, t.e);
    Circle k(t.c, t.r, t.dir);
    Circles p;
    old(p);
    Tangentor::tangentCircles(l, k, t.radius, p, t.tol);
    vp_assert(p.size() <= 4, "at most four circles of a size are tangent to a line and a circle");
    for (unsigned i = 0; i < 4; ++i) {
        if (i >= p.size()) break;
        double d = t.left(p[i].center());
        vp_assert(d == t.radius || d == -t.radius, "the circles are tangent to the line");
        vp_assert((p[i].center() - t.c).squaredNorm() == (t.r + t.radius) * (t.r + t.radius), "the circles are tangent to the circle from outside");
        vp_assert(p[i].radius() == t.radius && p[i].direction() == -t.dir, "the circles have the radius and the other direction");
        vp_reach("circle");
    }
}
// A tangent circle on either side of the line, above or below the circle.
static void all(int k) {
    vp_unroll(12, -1000);
    Scene t;
    double beta = vp_real("beta"), R = t.r + t.radius, h = R * std::cos(beta);
    t.off = R * std::sin(beta) - k * t.radius;
    V foot = t.c + t.off * t.ortho;
    t.s = foot - t.u * t.along; t.e = t.s + t.len * t.along;
    vp_assume(2 * t.len * h > t.tol || -2 * t.len * h > t.tol);
    vp_assume(t.u + h >= 0 && t.u + h <= t.len);
    Line l(t.s, t.e);
    Circle c(t.c, t.r, t.dir);
    Circles p;
    old(p);
    Tangentor::tangentCircles(l, c, t.radius, p, t.tol);
    V m = foot + h * t.along + k * t.radius * t.ortho;
    bool found = false;
    for (unsigned i = 0; i < 4; ++i) if (!found && i < p.size() && eq(p[i].center(), m)) found = true;
    vp_assert(found, "each circle that is tangent to the line and, from outside, to the circle is delivered");
    vp_reach("found");
}
VP_DRIVER drv_left_of_line() { all(1); }
VP_DRIVER drv_right_of_line() { all(-1); }
VP_DRIVER drv_inner() {
    vp_unroll(12, -1000);
    V a(vp_real("ax"), vp_real("ay"));
    double d = vp_real("d"), phi = vp_real("phi"), ra = vp_real("ra"), rb = vp_real("rb"), radius = vp_real("radius"), r1 = ra - radius, r2 = rb + radius, tol = vp_real("tolerance");
    vp_assume(d >= 0 && r1 > 0 && r2 > 0 && radius > 0 && ra > 0 && tol >= 0);
    V b(a.x() + d * std::cos(phi), a.y() + d * std::sin(phi));
    int d1 = vp_bool("left") ? ARC_LEFT : ARC_RIGHT, d2 = vp_bool("left") ? ARC_LEFT : ARC_RIGHT;
    Circles p;
    old(p);
    double abs = ra > rb ? ra - rb : rb - ra;
    Tangentor::tangentInnerCircles(Circle(a, r1, d1), Circle(b, r2, d2), radius, p, tol);
    vp_assert(p.size() <= 2, "at most two circles are tangent");
    if (radius >= r2) {
        vp_assert(p.empty(), "a circle that is too large is not tangent from inside");
        vp_reach("large");
    } else if (d < ra + rb - tol && d > abs + tol) {
        double x = (ra * ra - rb * rb + d * d) / (2 * d);
        if (ra * ra - x * x <= tol * tol) return;
        vp_assert(p.size() == 2, "there are two tangent circles");
        for (int i = 0; i < 2; ++i) {
            vp_assert((p[i].center() - a).squaredNorm() == ra * ra && (p[i].center() - b).squaredNorm() == rb * rb, "the circles are tangent to the first circle from outside and to the second from inside");
            vp_assert(p[i].radius() == radius && p[i].direction() == d2, "the circles have the radius and the direction of the second one");
        }
        vp_reach("found");
    }
}
// Arcs that lead from a line to a circle or back: the tangent circle is a stand-in,
// in general position, on either side of the line.
static V tangent_center;
static double tangent_radius, tangent_tol;
static bool tangent_none;
static int tangent_dir;
extern "C" void tangent_one(const Line&, const Circle&, double radius, Circles& res, double tol) {
    vp_assert(radius == tangent_radius && tol == tangent_tol, "tangent circles of the radius are looked for");
    res.clear();
    if (!tangent_none) res.push_back(Circle(tangent_center, tangent_radius, tangent_dir));
}
static void arcs(bool to_circle, int dir) {
    vp_unroll(12, -1000);
    vp_replace("path_geom::Tangentor::tangentCircles", "tangent_one");
    double phi = vp_real("phi"), a = vp_real("a"), len = vp_real("length"), u = vp_real("u"), all = vp_real("R"), radius = vp_real("radius"), r = all - radius;
    vp_assume(len > 0 && radius > 0 && all > radius);
    tangent_tol = vp_real("tolerance");
    vp_assume(tangent_tol >= 0 && radius * len > tangent_tol && 4 * all * all * radius * radius > tangent_tol * tangent_tol);
    int side = vp_bool("side") ? 1 : -1;
    V c(vp_real("cx"), vp_real("cy")), along(std::cos(phi), std::sin(phi)), ortho(-std::sin(phi), std::cos(phi)), towards(std::cos(a), std::sin(a));
    V m = c - all * towards, foot = m - side * radius * ortho, s = foot - u * along, e = s + len * along;
    tangent_center = m; tangent_radius = radius; tangent_dir = -dir; tangent_none = vp_bool("none");
    Line l(s, e);
    Circle k(c, r, dir);
    Circles p;
    old(p);
    if (to_circle) Tangentor::tangentArc(l, k, radius, p, tangent_tol); else Tangentor::tangentArc(k, l, radius, p, tangent_tol);
    vp_assert(p.size() == (tangent_none || side != -dir ? 0 : 1), "there is an arc for each tangent circle on that side of the line to which it turns");
    for (unsigned i = 0; i < 1; ++i) {
        if (i >= p.size()) break;
        V on_line = to_circle ? p[i].startPoint() : p[i].endPoint(), on_circle = to_circle ? p[i].endPoint() : p[i].startPoint();
        vp_assert(eq(p[i].center(), m) && p[i].direction() == -dir && p[i].radius() == radius, "an arc is part of its tangent circle");
        vp_assert(eq(on_line, foot), "an arc touches the line where it begins (ends)");
        vp_assert(eq(on_circle, m + radius * towards), "an arc touches the circle where it ends (begins)");
        vp_reach("arc");
    }
}
VP_DRIVER drv_arc_to_left() { arcs(true, ARC_LEFT); }
VP_DRIVER drv_arc_to_right() { arcs(true, ARC_RIGHT); }
VP_DRIVER drv_arc_from_left() { arcs(false, ARC_LEFT); }
VP_DRIVER drv_arc_from_right() { arcs(false, ARC_RIGHT); }
