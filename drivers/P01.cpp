//@src src/geometry/line.cpp
// Lines: points and poses along them, and points beside them.
#include "vp.h"
#include <cslibs_path_planning/geometry/line.h>
using namespace path_geom;
typedef Eigen::Vector2d V;
struct Ray {      // a line of positive length
    double x, y, phi, len, c, s;
    Ray() : x(vp_real("x")), y(vp_real("y")), phi(vp_real("phi")), len(vp_real("length")), c(std::cos(phi)), s(std::sin(phi)) { vp_assume(len > 0); }
    V at(double t, double off = 0) const { return V(x + t * c - off * s, y + t * s + off * c); }
    V start() const { return at(0); }
    V end() const { return at(len); }
};
static bool eq(const V& a, const V& b) { return a.x() == b.x() && a.y() == b.y(); }
static bool heading(double a, double b) { return std::cos(a) == std::cos(b) && std::sin(a) == std::sin(b); }
template <int n> static void points() {
    vp_unroll(30, 1000);
    Ray r;
    double res = vp_real("resolution");
    vp_assume(res > 1e-9 && n * res <= r.len && r.len < (n + 1) * res);
    Line l(r.start(), r.end());
    std::vector<V> p;
    if (vp_bool("used")) p.resize(3, V(1, 2));
    l.toPoints(res, p);
    vp_assert(p.size() == n + 1, "there is a point for each step and one at the end");
    for (int i = 0; i <= n; ++i) vp_assert(eq(p[i], i < n ? r.at(i * res) : r.end()), "the points lie on the line, one step apart, and the last one is the end");
    vp_reach("done");
}
VP_DRIVER drv_points_0() { points<0>(); }
VP_DRIVER drv_points_1() { points<1>(); }
VP_DRIVER drv_points_3() { points<3>(); }
VP_DRIVER drvt_points_7() { points<7>(); }
template <int n> static void poses(bool start) {
    vp_unroll(30, 1000);
    Ray r;
    double res = vp_real("resolution");
    vp_assume(res > 1e-9 && n * res <= r.len && r.len < (n + 1) * res);
    Line l(r.start(), r.end());
    PathPoseVec p;
    if (vp_bool("used")) p.resize(3);
    bool back = vp_bool("backward");
    l.toPoses(res, p, back ? BACKWARD : FORWARD, start);
    int first = start ? 0 : 1, num = n + 1 - first;
    vp_assert((int) p.size() == num, "there is a pose for each step, and one at the beginning if demanded");
    for (int i = 0; i < num; ++i) {
        double t = (i + first) * res;
        vp_assert(eq(p[i].pos_, r.at(back ? r.len - t : t)), "the poses advance along the line by the step, backwards from its end");
        vp_assert(heading(p[i].theta_, r.phi), "the poses are headed along the line");
    }
    vp_assert(num > 0 || !start, "with its beginning a line has a pose");
    vp_reach("done");
}
VP_DRIVER drv_poses_0() { poses<0>(true); }
VP_DRIVER drv_poses_2() { poses<2>(true); }
VP_DRIVER drv_poses_3_without() { poses<3>(false); }
VP_DRIVER drvt_poses_6() { poses<6>(true); }
VP_DRIVER drvt_poses_7_without() { poses<7>(false); }
VP_DRIVER drv_made() {
    Ray r;
    double len = vp_real("len");
    bool back = vp_bool("backward");
    Line l(PathPose(r.x, r.y, r.phi), len, back ? BACKWARD : FORWARD);
    double abs = len < 0 ? -len : len;
    vp_assert(eq(back ? l.endPoint() : l.startPoint(), r.start()), "a line begins at its pose, a backward one ends there");
    vp_assert(eq(back ? l.startPoint() : l.endPoint(), r.at(back ? -abs : abs)), "a line leads along the heading of its pose");
    double d = vp_real("distance");
    Line q = Line::parallel(Line(r.start(), r.end()), d);
    vp_assert(eq(q.startPoint(), r.at(0, d)) && eq(q.endPoint(), r.at(r.len, d)), "a parallel line has the distance to the left");
}
VP_DRIVER drv_beside() {
    Ray r;
    double t = vp_real("t"), d = vp_real("d"), tol = vp_real("tol");
    V p = r.at(t, d);
    Line l(r.start(), r.end());
    vp_assert(l.pointSignedDistance(p) == d, "the distance to the line is positive on its left");
    vp_assert(eq(l.footPoint(p), r.at(t)), "the foot point lies below the point");
    vp_assert(eq(l.projectPoint(p), r.at(t)), "the projection lies below the point");
    int side = l.pointRelativePosition(p, tol);
    vp_assert(side == 0 || (side == 1 && d > 0) || (side == -1 && d < 0), "points on the left have positive position, points on the right negative");
    vp_assert(side == 0 || d != 0, "points on the line have no side");
    vp_assert(side != 0 || tol != 0 || d == 0, "without tolerance points beside the line have a side");
}
VP_DRIVER drv_nearest() {
    Ray r;
    double t = vp_real("t"), d = vp_real("d");
    V p = r.at(t, d);
    Line l(r.start(), r.end());
    if (t >= 0 && t <= r.len) {
        vp_assert(l.distanceTo(p) == (d < 0 ? -d : d), "beside a line the distance is that to the foot point");
        vp_assert(eq(l.nearestPointTo(p), r.at(t)), "beside a line the nearest point is the foot point");
    } else if (t < -0.001 || t > r.len + 0.001) {
        V e = t < 0 ? r.start() : r.end();
        double dx = p.x() - e.x(), dy = p.y() - e.y();
        double dist = l.distanceTo(p);
        vp_assert(dist >= 0 && dist * dist == dx * dx + dy * dy, "beyond a line the distance is that to its end");
        vp_assert(eq(l.nearestPointTo(p), e), "beyond a line the nearest point is its end");
    }
}
VP_DRIVER drv_select() {
    Ray r;
    double t = vp_real("t"), d = vp_real("d");
    V p = r.at(t, d);
    Line l(r.start(), r.end());
    bool last = vp_bool("end"), ok = last ? l.selectEndPoint(p) : l.selectStartPoint(p);
    vp_assert(ok || d != 0, "a point on the line can be chosen as its start or end");
    vp_assert(eq(last ? l.startPoint() : l.endPoint(), last ? r.start() : r.end()), "the other end is kept");
    vp_assert(eq(last ? l.endPoint() : l.startPoint(), ok ? p : last ? r.end() : r.start()), "a chosen point is the start or end, others change nothing");
    double far = d * r.len;
    vp_assert(!ok || (far <= DIST_EPS && far >= -DIST_EPS), "a point beside the line is not chosen");
}
