//@src src/geometry/circle.cpp src/geometry/line.cpp src/geometry/intersector.cpp
// Arcs: how they are made, changed, and what lies on them.
#include "vp.h"
#include <cslibs_path_planning/geometry/circle.h>
using namespace path_geom;
typedef Eigen::Vector2d V;
bool segmentIntersection(const point2D&, const point2D&, const point2D&, const point2D&, point2D&, double&, double&, double) { vp_fail("no lines are intersected"); return false; }
static bool eq(const V& a, const V& b) { return a.x() == b.x() && a.y() == b.y(); }
static bool same(double a, double b) { return std::cos(a) == std::cos(b) && std::sin(a) == std::sin(b); }
static V on(const V& c, double r, double a) { return V(c.x() + r * std::cos(a), c.y() + r * std::sin(a)); }
static double any_angle(const char* n) { double a = vp_real(n); vp_assume(a >= -2 * M_PI && a <= 4 * M_PI); return a; }
static double angle(const char* n) { double a = vp_real(n); vp_assume(a >= 0 && a <= 2 * M_PI); return a; }
static double heading() { double a = vp_real("theta"); vp_assume(a >= -M_PI && a < M_PI); return a; }
struct Arc {
    V c; double r, from, arc; int dir;
    Arc() : c(vp_real("cx"), vp_real("cy")), r(vp_real("r")), from(any_angle("from")), arc(angle("arc")), dir(vp_bool("left") ? ARC_LEFT : ARC_RIGHT) { vp_assume(r > 0); }
    Circle make() const { Circle k(c, r, dir); k.setArc(from, arc, dir); return k; }
    double at(double a) const { return from + dir * a; }
};
VP_DRIVER drv_full() {
    vp_unroll(5, -1000);
    V c(vp_real("cx"), vp_real("cy"));
    double r = vp_real("r");
    int d = vp_bool("left") ? vp_bool("large") ? 3 : ARC_LEFT : vp_bool("large") ? -2 : ARC_RIGHT;
    Circle k(c, r, d);
    vp_assert(eq(k.center(), c) && k.radius() == (r < 0 ? -r : r), "a circle has the given center and size");
    vp_assert(k.direction() == (d > 0 ? ARC_LEFT : ARC_RIGHT), "a circle has the given direction");
    vp_assert(k.getArcAngle() == 2 * M_PI, "a circle is a full arc");
    vp_assert(eq(k.startPoint(), k.endPoint()), "a full circle ends where it starts");
}
static void from(bool to) {
    vp_unroll(5, -1000);
    PathPose p(vp_real("x"), vp_real("y"), heading());
    double r = vp_real("r"), arc = angle("arc");
    vp_assume(r > 0);
    int dir = vp_bool("left") ? ARC_LEFT : ARC_RIGHT;
    Circle k = to ? Circle::createArcTo(p, r, arc, dir) : Circle::createArcFrom(p, r, arc, dir);
    V e = to ? k.endPoint() : k.startPoint();
    vp_assert(eq(e, p.pos_), "the arc begins (ends) at the pose");
    vp_assert(k.radius() == r && k.direction() == dir && k.getArcAngle() == arc, "the arc has the given radius, angle and direction");
    double side = p.theta_ + dir * M_PI / 2;
    vp_assert(eq(k.center(), on(p.pos_, r, side)), "the arc is tangent to the pose");
    double other = p.theta_ - dir * M_PI / 2 + (to ? -dir : dir) * arc;
    vp_assert(eq(to ? k.startPoint() : k.endPoint(), on(k.center(), r, other)), "the arc covers the given angle in its direction");
}
VP_DRIVER drv_from() { from(false); }
VP_DRIVER drv_to() { from(true); }
VP_DRIVER drv_set() {
    vp_unroll(5, -1000);
    Arc a;
    Circle k = a.make();
    vp_assert(eq(k.startPoint(), on(a.c, a.r, a.from)), "the arc begins at its start angle");
    vp_assert(eq(k.endPoint(), on(a.c, a.r, a.at(a.arc))), "the arc ends at its end angle");
    vp_assert(k.getArcLength() == a.r * a.arc, "the length of an arc");
    vp_assert(same(k.endAngle(), a.at(a.arc)) && k.endAngle() >= 0 && k.endAngle() <= 2 * M_PI, "the end angle is within a turn");
}
VP_DRIVER drv_set_start() {
    vp_unroll(5, -1000);
    Arc a;
    Circle k = a.make();
    double n = vp_real("angle");
    vp_assume(n >= -2 * M_PI && n <= 4 * M_PI);
    k.setStartAngle(n);
    vp_assert(eq(k.startPoint(), on(a.c, a.r, n)), "the arc begins at the new start");
    vp_assert(eq(k.endPoint(), on(a.c, a.r, a.at(a.arc))), "a new start keeps the end");
    vp_assert(k.getArcAngle() >= 0 && k.getArcAngle() <= 2 * M_PI && k.direction() == a.dir, "the arc covers at most a turn");
}
VP_DRIVER drv_set_end() {
    vp_unroll(5, -1000);
    Arc a;
    Circle k = a.make();
    double n = vp_real("angle");
    vp_assume(n >= -2 * M_PI && n <= 4 * M_PI);
    k.setEndAngle(n);
    vp_assert(eq(k.endPoint(), on(a.c, a.r, n)), "the arc ends at the new end");
    vp_assert(eq(k.startPoint(), on(a.c, a.r, a.from)), "a new end keeps the start");
    vp_assert(k.getArcAngle() >= 0 && k.getArcAngle() <= 2 * M_PI && k.direction() == a.dir, "the arc covers at most a turn");
}
VP_DRIVER drv_set_arc() {
    vp_unroll(5, -1000);
    Arc a;
    Circle k = a.make();
    double n = vp_real("angle");
    vp_assume(n >= -2 * M_PI && n <= 4 * M_PI);
    k.setArcAngle(n);
    vp_assert(eq(k.startPoint(), on(a.c, a.r, a.from)), "a new angle keeps the start");
    vp_assert(eq(k.endPoint(), on(a.c, a.r, a.at(n))), "the arc covers the new angle");
}
// choosing a point of the circle
VP_DRIVER drv_select() {
    vp_unroll(5, -1000);
    Arc a;
    Circle k = a.make();
    double n = heading(), d = vp_real("distance");
    vp_assume(d > 0);
    V p = on(a.c, d, n);
    bool last = vp_bool("end"), ok = last ? k.selectEndPoint(p) : k.selectStartPoint(p);
    vp_assert(ok || d != a.r, "a point on the circle is chosen");
    vp_assert(!ok || (d - a.r < DIST_EPS && d - a.r > -DIST_EPS), "a point that is not on the circle is not chosen");
    vp_assert(eq(last ? k.endPoint() : k.startPoint(), on(a.c, a.r, ok ? n : last ? a.at(a.arc) : a.from)), "the arc begins (ends) at the chosen point");
    vp_assert(eq(last ? k.startPoint() : k.endPoint(), on(a.c, a.r, last ? a.from : a.at(a.arc))), "the other end is kept");
}
// a point at an angle behind the start, in the direction of the arc
VP_DRIVER drv_on_arc() {
    vp_unroll(5, -1000);
    Arc a;
    Circle k = a.make();
    double n = vp_real("at"), d = vp_real("distance"), tol = vp_real("tolerance");
    vp_assume(n > -M_PI && n < M_PI && d > 0 && tol >= 0);
    V p = on(a.c, d, n);
    double t = a.dir * (n - a.from);     // the turn from the start of the arc
    while (t < 0) t += 2 * M_PI;
    while (t >= 2 * M_PI) t -= 2 * M_PI;
    bool ok = k.isPointOnArc(p, tol), near = d - a.r <= tol && a.r - d <= tol;
    vp_assert(ok || !near || t >= a.arc || t <= 0, "points of the arc are on it");
    vp_assert(!ok || t <= a.arc, "points beyond the end of the arc are not on it");
    vp_assert(!ok || near, "points beside the circle are not on the arc");
}
VP_DRIVER drv_nearest() {
    vp_unroll(5, -1000);
    Arc a;
    Circle k = a.make();
    double n = vp_real("at"), d = vp_real("distance");
    vp_assume(n > -M_PI && n < M_PI && d > 0.001);
    V p = on(a.c, d, n);
    double t = a.dir * (n - a.from);
    while (t < 0) t += 2 * M_PI;
    while (t >= 2 * M_PI) t -= 2 * M_PI;
    double off = d - a.r, dist = k.distanceTo(p);
    V q = k.nearestPointTo(p);
    if (t > 0 && t < a.arc) {
        vp_assert(dist == (off < 0 ? -off : off), "beside an arc the distance is that to the circle");
        vp_assert(eq(q, on(a.c, a.r, n)), "beside an arc the nearest point lies towards the center");
    } else if (t > a.arc) {
        V s = on(a.c, a.r, a.from), e = on(a.c, a.r, a.at(a.arc));
        double ds = (p - s).squaredNorm(), de = (p - e).squaredNorm();
        vp_assert(dist >= 0 && dist * dist == (ds < de ? ds : de), "beyond an arc the distance is that to the nearer end");
        vp_assert(ds == de || eq(q, ds < de ? s : e), "beyond an arc the nearest point is the nearer end");
    }
}
VP_DRIVER drv_compare() {
    Arc a, b;
    bool less = Circle::compareArcAngle(a.make(), b.make());
    vp_assert(less == (a.arc < b.arc), "arcs are compared by their angle");
}
template <int n> static void poses(bool start) {
    vp_unroll(30, -1000);
    Arc a;
    double res = vp_real("resolution");
    vp_assume(res > 1e-9 && n * res <= a.r * a.arc && a.r * a.arc < (n + 1) * res);
    Circle k = a.make();
    PathPoseVec p;
    if (vp_bool("used")) p.resize(3);
    bool back = vp_bool("backward");
    k.toPoses(res, p, back ? BACKWARD : FORWARD, start);
    int first = start ? 0 : 1, num = n + 1 - first;
    vp_assert((int) p.size() == num, "there is a pose for each step, and one at the beginning if demanded");
    for (int i = 0; i < num; ++i) {
        double t = n > 0 ? (i + first) * (a.arc / (int)(a.r * a.arc / res)) : 0, at = a.at(back ? a.arc - t : t);
        vp_assert(eq(p[i].pos_, on(a.c, a.r, at)), "the poses advance evenly along the arc, backwards from its end");
        vp_assert(same(p[i].theta_, at + a.dir * M_PI / 2), "the poses are headed along the arc");
    }
    vp_assert(num > 0 || !start, "with its beginning an arc has a pose");
    vp_reach("done");
}
VP_DRIVER drv_poses_0() { poses<0>(true); }
VP_DRIVER drv_poses_2() { poses<2>(true); }
VP_DRIVER drv_poses_3_without() { poses<3>(false); }
VP_DRIVER drvt_poses_6() { poses<6>(true); }
template <int n> static void points() {
    vp_unroll(30, -1000);
    Arc a;
    double res = vp_real("resolution");
    vp_assume(res > 1e-9 && n * res <= a.r * a.arc && a.r * a.arc < (n + 1) * res);
    Circle k = a.make();
    std::vector<V> p;
    if (vp_bool("used")) p.resize(3, V(1, 2));
    k.toPoints(res, p);
    vp_assert((int) p.size() == n, "there is a point for each step");
    for (int i = 0; i < n; ++i) vp_assert(eq(p[i], on(a.c, a.r, a.at(i * (a.arc / (int)(a.r * a.arc / res))))), "the points advance evenly along the arc");
    vp_assert(n > 0 || p.empty(), "there is a point for each step");
    vp_reach("done");
}
VP_DRIVER drv_points_1() { points<1>(); }
VP_DRIVER drv_points_3() { points<3>(); }
VP_DRIVER drvt_points_6() { points<6>(); }
