//@src src/geometry/circle.cpp src/geometry/line.cpp src/geometry/intersector.cpp src/geometry/tangentor.cpp
// Paths of a line, an arc and a circle, or of a circle, an arc and another circle.
#include "vp.h"
#include <cslibs_path_planning/geometry/tangentor.h>
#include <cslibs_path_planning/geometry/intersector.h>
using namespace path_geom;
typedef Eigen::Vector2d V;
typedef aligned<Circle>::vector Circles;
typedef std::vector<std::shared_ptr<Shape> > Path;
bool segmentIntersection(const point2D&, const point2D&, const point2D&, const point2D&, point2D&, double&, double&, double) { vp_fail("no lines are intersected"); return false; }
static bool eq(const V& a, const V& b) { return a.x() == b.x() && a.y() == b.y(); }
static void old(Path& p) { if (vp_bool("used")) p.push_back(std::shared_ptr<Shape>()); }
// The counting of references is left out: nothing is released here.
extern "C" void not_released(std::_Sp_counted_base<>*) {}
extern "C" void not_counted(std::_Sp_counted_base<>*) {}
static void shared() {
    vp_replace("std::_Sp_counted_base::_M_release", "not_released");
    vp_replace("std::_Sp_counted_base::_M_add_ref_copy", "not_counted");
}
// The arcs between a line and a circle that the path can take: none, one or two.
static const void *first, *second;
static double radius, tol;
static int arcs, dir;
static V m[2];
static double begin[2], end[2], angle[2];
extern "C" void given_arcs(const void* a, const void* b, double r, Circles& res, double t) {
    vp_assert(a == first && b == second && r == radius, "arcs between the two shapes are looked for, in their order");
    vp_assert(t == tol, "arcs are looked for with the tolerance");
    res.clear();
    for (int i = 0; i < 2; ++i) {
        if (i >= arcs) break;
        Circle c(m[i], radius, -dir);
        c.setArc(begin[i], angle[i], -dir);
        res.push_back(c);
    }
}

// how the i-th arc lies on its circle: from angle `begin` to `end`, over `angle`
static V at(int i, double a) { return m[i] + radius * V(std::cos(a), std::sin(a)); }
static void lie(int i) {
    begin[i] = vp_real("begin"); end[i] = vp_real("end");
    vp_assume(begin[i] > -M_PI && begin[i] < M_PI && end[i] > -M_PI && end[i] < M_PI && begin[i] != end[i]);
    angle[i] = dir * (begin[i] - end[i]);
    if (angle[i] < 0) angle[i] += 2 * M_PI;
}
static void scene(int n, bool to_circle, double r, V& c) {
    radius = vp_real("radius"); tol = vp_real("tolerance");
    vp_assume(radius > 0 && tol > 0);
    arcs = n;
    for (int i = 0; i < 2; ++i) {
        if (i >= n) break;
        lie(i);
        double t = to_circle ? end[i] : begin[i];     // where it touches the circle
        if (i == 0) { m[0] = V(vp_real("mx"), vp_real("my")); c = m[0] + (radius + r) * V(std::cos(t), std::sin(t)); }
        else m[i] = c - (radius + r) * V(std::cos(t), std::sin(t));
    }
}

template <int n> static void line_path(bool to_circle, bool as_shape) {
    vp_unroll(12, -1000);
    shared();
    vp_replace("path_geom::Tangentor::tangentArc", "given_arcs");
    dir = vp_bool("left") ? ARC_LEFT : ARC_RIGHT;
    double r = vp_real("r");
    vp_assume(r > 0);
    V c(vp_real("cx"), vp_real("cy")), s(vp_real("sx"), vp_real("sy")), e(vp_real("ex"), vp_real("ey"));
    scene(n, to_circle, r, c);
    Circle k(c, r, dir);
    Path p;
    old(p);
    if (as_shape) {
        auto l = make_aligned<Line>(s, e);
        first = to_circle ? (void*)l.get() : (void*)&k; second = to_circle ? (void*)&k : (void*)l.get();
        std::shared_ptr<Shape> shape = l;
        Tangentor::tangentPath(shape, k, radius, to_circle, p, tol);
    } else {
        Line l(s, e);
        first = to_circle ? (void*)&l : (void*)&k; second = to_circle ? (void*)&k : (void*)&l;
        if (to_circle) Tangentor::tangentPath(l, k, radius, p, tol); else Tangentor::tangentPath(k, l, radius, p, tol);
    }
    vp_assert(p.size() == 3, "a path has three parts");
    int i = n > 1 && angle[1] < angle[0] ? 1 : 0;
    if (n > 1 && angle[0] == angle[1]) return;
    Circle* arc = dynamic_cast<Circle*>(p[1].get());
    Line* line = dynamic_cast<Line*>(p[to_circle ? 0 : 2].get());
    Circle* round = dynamic_cast<Circle*>(p[to_circle ? 2 : 0].get());
    vp_assert(arc && line && round, "a path leads along a line, an arc and a circle");
    vp_assert(eq(arc->center(), m[i]) && arc->radius() == radius && arc->direction() == -dir && eq(arc->startPoint(), at(i, begin[i])) && eq(arc->endPoint(), at(i, end[i])), "the arc of least angle is taken");
    vp_assert(eq(round->center(), c) && round->radius() == r && round->direction() == dir, "the circle is followed in its direction");
    bool lead = to_circle ? eq(line->startPoint(), s) && eq(line->endPoint(), at(i, begin[i])) : eq(line->startPoint(), at(i, end[i])) && eq(line->endPoint(), e);
    vp_assert(lead, "the line leads from its start to the arc or from the arc to its end");
    bool whole = to_circle ? eq(round->startPoint(), at(i, end[i])) && round->getArcAngle() == 2 * M_PI : eq(round->endPoint(), at(i, begin[i])) && eq(round->startPoint(), k.startPoint());
    vp_assert(whole, "the circle is followed once from the end of the arc, or from its start to the arc");
    vp_reach("path");
}
VP_DRIVER drv_none() {
    shared();
    vp_replace("path_geom::Tangentor::tangentArc", "given_arcs");
    Line l(V(vp_real("sx"), vp_real("sy")), V(vp_real("ex"), vp_real("ey")));
    Circle k(V(vp_real("cx"), vp_real("cy")), vp_real("r"), vp_bool("left") ? ARC_LEFT : ARC_RIGHT);
    arcs = 0; radius = vp_real("radius"); tol = vp_real("tolerance");
    Path p;
    old(p);
    if (vp_bool("to")) { first = &l; second = &k; Tangentor::tangentPath(l, k, radius, p, tol); }
    else { first = &k; second = &l; Tangentor::tangentPath(k, l, radius, p, tol); }
    vp_assert(p.empty(), "there is no path without an arc");
    vp_reach("none");
}
VP_DRIVER drv_to() { line_path<1>(true, false); }
VP_DRIVER drv_from() { line_path<1>(false, false); }
VP_DRIVER drv_to_best() { line_path<2>(true, false); }
VP_DRIVER drv_from_best() { line_path<2>(false, false); }
VP_DRIVER drv_shape_to() { line_path<1>(true, true); }
VP_DRIVER drv_shape_from() { line_path<1>(false, true); }
// Paths between two circles of which the first lies in the second: up to two circles are tangent to both.
static const Circle *small_one, *large_one;
static V on_small[2], on_large[2];
static bool touches_small, touches_large;
static int nsmall, nlarge;
extern "C" void given_circles(const Circle& a, const Circle& b, double r, Circles& res, double t) {
    vp_assert(&a == small_one && &b == large_one && r == radius && t == tol, "circles tangent to the two circles are looked for");
    res.clear();
    for (int i = 0; i < 2; ++i) if (i < arcs) res.push_back(Circle(m[i], radius, -dir));
}
extern "C" void given_contact(const Circle& a, const Circle& b, std::vector<V>& res, double t) {
    vp_assert(t == tol, "contacts are looked for with the tolerance");
    res.clear();
    bool with_small = &a == small_one || &b == small_one;
    vp_assert(with_small || &a == large_one || &b == large_one, "contacts with the given circles are looked for");
    int& n = with_small ? nsmall : nlarge;
    vp_assert(n < arcs, "contacts of the tangent circles are looked for");
    if (with_small ? touches_small : touches_large) res.push_back((with_small ? on_small : on_large)[n]);
    ++n;
}
static int best;
static void two(int n, bool from_small, double rs, double rl, V& cs, V& cl) {
    vp_unroll(12, -1000);
    shared();
    vp_replace("path_geom::Tangentor::tangentInnerCircles", "given_circles");
    vp_replace("path_geom::Intersector::intersectArcs", "given_contact");
    nsmall = nlarge = 0;
    radius = vp_real("radius"); tol = vp_real("tolerance");
    vp_assume(radius > 0 && tol > 0 && rs > 0 && rl > radius);
    arcs = n;
    for (int i = 0; i < 2; ++i) {
        if (i >= n) break;
        lie(i);
        m[i] = V(vp_real("mx"), vp_real("my"));
        on_small[i] = at(i, from_small ? begin[i] : end[i]);
        on_large[i] = at(i, from_small ? end[i] : begin[i]);
    }
    best = n > 1 && angle[1] < angle[0] ? 1 : 0;
    cs = m[best] + (rs + radius) * (on_small[best] - m[best]) / radius;
    cl = m[best] + (radius - rl) * (on_large[best] - m[best]) / radius;
    touches_small = n > 1 || vp_bool("touches small"); touches_large = n > 1 || vp_bool("touches large");
}
static void circle_path(int n, bool from_small, bool as_shape) {
    dir = vp_bool("left") ? ARC_LEFT : ARC_RIGHT;
    double rs = vp_real("rs"), rl = vp_real("rl"), b1 = vp_real("small begin"), a1 = vp_real("small angle"), b2 = vp_real("large begin"), a2 = vp_real("large angle");
    vp_assume(b1 >= 0 && b1 <= 2 * M_PI && b2 >= 0 && b2 <= 2 * M_PI && a1 > 0 && a1 <= 2 * M_PI && a2 > 0 && a2 <= 2 * M_PI);
    V cs, cl;
    two(n, from_small, rs, rl, cs, cl);
    Path p;
    old(p);
    auto small = make_aligned<Circle>(cs, rs, dir);
    Circle large(cl, rl, -dir);
    if (n < 2) {
    small->setArc(b1, a1, dir);
    large.setArc(b2, a2, -dir);
    }
    // as a shape the large one is shared
    auto shape = make_aligned<Circle>(large);
    Circle other(*small);
    small_one = as_shape ? &other : small.get(); large_one = as_shape ? shape.get() : &large;
    if (as_shape) Tangentor::tangentPath(std::shared_ptr<Shape>(shape), other, radius, !from_small, p, tol);
    else Tangentor::tangentPath(*small, large, radius, from_small, p, tol);
    if (n > 1 && angle[0] == angle[1]) return;
    if (angle[best] == M_PI) return;
    if (!n || !touches_small || !touches_large || angle[best] > M_PI) {
        vp_assert(p.empty(), "there is no path without an arc of at most half a turn between the circles");
        vp_reach("none");
        return;
    }
    vp_assert(p.size() == 3, "a path has three parts");
    Circle* arc = dynamic_cast<Circle*>(p[1].get());
    Circle* s = dynamic_cast<Circle*>(p[from_small ? 0 : 2].get());
    Circle* l = dynamic_cast<Circle*>(p[from_small ? 2 : 0].get());
    vp_assert(arc && s && l, "a path leads along three arcs");
    vp_assert(eq(arc->center(), m[best]) && arc->radius() == radius && arc->direction() == -dir, "the arc of least angle is taken");
    vp_assert(eq(arc->startPoint(), at(best, begin[best])) && eq(arc->endPoint(), at(best, end[best])), "the arc leads from contact to contact");
    vp_assert(eq(s->center(), cs) && s->radius() == rs && s->direction() == dir && eq(l->center(), cl) && l->radius() == rl && l->direction() == -dir, "the circles are followed in their directions");
    vp_assert(eq((from_small ? s : l)->endPoint(), at(best, begin[best])), "the first circle is left where the arc begins");
    vp_assert(eq((from_small ? s : l)->startPoint(), (from_small ? small_one : large_one)->startPoint()), "the first circle is followed from its start");
    vp_assert(eq((from_small ? l : s)->startPoint(), at(best, end[best])), "the last circle is followed from the end of the arc");
    vp_assert(eq((from_small ? l : s)->endPoint(), (from_small ? large_one : small_one)->endPoint()), "the last circle is followed to its end");
    vp_reach("path");
}
VP_DRIVER drv_circles_small() { circle_path(1, true, false); }
VP_DRIVER drv_circles_large() { circle_path(1, false, false); }
VP_DRIVER drv_circles_small_best() { circle_path(2, true, false); }
VP_DRIVER drv_circles_large_best() { circle_path(2, false, false); }
VP_DRIVER drv_shape_circle() { circle_path(1, vp_bool("from small"), true); }
static void inner_arcs(int n) {
    dir = vp_bool("left") ? ARC_LEFT : ARC_RIGHT;
    bool same = vp_bool("same direction");
    double rs = vp_real("rs"), rl = vp_real("rl");
    V cs, cl;
    two(n, true, rs, rl, cs, cl);
    Circle a(cs, rs, dir), b(cl, rl, same ? dir : -dir);
    small_one = &a; large_one = &b;
    Circles p;
    if (vp_bool("used")) p.push_back(Circle(V(1, 2), 3));
    Tangentor::tangentInnerArcs(a, b, radius, p, tol);
    if (n > 1 && angle[0] == angle[1]) return;
    if (same || !touches_small || !touches_large) {
        vp_assert(p.empty(), "there is no arc between circles that do not touch it or have the same direction");
        vp_reach("none");
        return;
    }
    vp_assert(p.size() == 1, "one arc is delivered");
    vp_assert(eq(p[0].center(), m[best]) && p[0].radius() == radius && p[0].direction() == -dir, "the arc of least angle is taken");
    vp_assert(eq(p[0].startPoint(), at(best, begin[best])) && eq(p[0].endPoint(), at(best, end[best])), "the arc leads from contact to contact");
    vp_reach("arc");
}
VP_DRIVER drv_inner() { inner_arcs(1); }
VP_DRIVER drv_inner_best() { inner_arcs(2); }
