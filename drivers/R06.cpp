//@src src/ReedsShepp/CurveGenerator.cpp src/ReedsShepp/Curve.cpp src/ReedsShepp/GeometryHelper.cpp src/ReedsShepp/CircleSegment.cpp src/ReedsShepp/LineSegment.cpp src/ReedsShepp/CurveSegment.cpp src/common/GridMap2d.cpp src/common/Point2d.cpp src/common/Pose2d.cpp
// The waypoints of the segments of a curve.
#include "obs_map.h"
#include "text.h"
#include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
#include <cslibs_path_planning/ReedsShepp/LineSegment.h>
#include <cslibs_path_planning/ReedsShepp/CircleSegment.h>
using namespace lib_path;
#define FW CurveSegment::FORWARD
#define BW CurveSegment::BACKWARD
#define LEFT CircleSegment::LEFT_CURVE
#define RIGHT CircleSegment::RIGHT_CURVE
static void arc(CircleSegment::ORIENTATION o, CurveSegment::DIRECTION dir) {
    ObsMap m;
    CircleSegment c(o, dir);
    double step = vp_real("step"), r = vp_real("r"), dist = step * r;
    vp_assume(step > 0 & r > 0);
    c.set_map(&m);
    c.set_max_distance(dist);
    c.set_radius(r);
    Point2d center(vp_real("cx"), vp_real("cy"));
    c.set_center(center);
    c.set_start_angle(vp_real("start"));
    c.set_end_angle(vp_real("end"));
    bool before = vp_bool("before");
    if (before) vp_assume(c.get_start_angle() < c.get_end_angle()); else vp_assume(c.get_start_angle() > c.get_end_angle());
    vp_assume(c.get_start_angle() > -M_PI & c.get_end_angle() > -M_PI);   // the direction of the negative x axis is pi
    double side = o == LEFT ? M_PI / 2 : -M_PI / 2, way = (o == LEFT) == (dir == FW) ? 1 : -1;
    // travelled arc
    double a = c.get_start_angle(), total = way * (c.get_end_angle() - a);
    if (total < 0) total += 2 * M_PI;
    vp_assert(c.arc() == total, "the arc leads from the start angle to the end angle in travelling direction");
    vp_assert(c.length() == total * r, "the length of an arc");
    c.reset_iteration();
    double gone = 0;
    vp_assert(c.has_next(), "there is a first waypoint");
    Pose2d p = c.next();
    vp_assert(p.x == c.get_start_point().x & p.y == c.get_start_point().y, "the first waypoint is the start of the arc");
    vp_assert(p.theta == a + side, "the heading is that of the vehicle on the circle");
    double theta = p.theta;
    while (c.has_next()) {
        p = c.next();
        vp_reach("next");
        double d = way * (p.theta - theta);
        vp_assert(d > 0, "waypoints advance in travelling direction");
        vp_assert(d <= step, "consecutive waypoints are at most the maximum distance apart");
        gone += d;
        theta = p.theta;
        vp_assert(p.x == center.x + r * cos(theta - side) & p.y == center.y + r * sin(theta - side), "waypoints lie on the circle with the heading of the vehicle");
        vp_assert(gone <= total, "waypoints do not leave the arc");
    }
    vp_assert(total - gone < step, "the waypoints reach the end of the arc up to the maximum distance");
}
VP_DRIVER drv_arc_lf() { arc(LEFT, FW); }
VP_DRIVER drv_arc_rf() { arc(RIGHT, FW); }
VP_DRIVER drv_arc_lb() { arc(LEFT, BW); }
VP_DRIVER drv_arc_rb() { arc(RIGHT, BW); }
static void line(CurveSegment::DIRECTION dir) {
    ObsMap m;
    LineSegment l(dir);
    double dist = vp_real("dist"), sx = vp_real("sx"), sy = vp_real("sy"), a = vp_real("a"), length = vp_real("length");
    vp_assume(dist > 0 & length > 0);
    l.set_map(&m);
    l.set_max_distance(dist);
    l.set_points(Point2d(sx, sy), Point2d(sx + length * cos(a), sy + length * sin(a)));
    l.reset_iteration();
    vp_assert(l.has_next(), "there is a first waypoint");
    Pose2d p = l.next();
    vp_assert(p.x == sx & p.y == sy, "the first waypoint is the start of the line");
    double turn = dir == FW ? 1 : -1, gone = 0, h = atan2(length * sin(a), length * cos(a));
    while (l.has_next()) {
        p = l.next();
        vp_reach("next");
        double g = (p.x - sx) * cos(a) + (p.y - sy) * sin(a);
        vp_assert(p.x == sx + g * cos(a) & p.y == sy + g * sin(a), "waypoints lie on the line");
        vp_assert(cos(p.theta) == turn * cos(h) & sin(p.theta) == turn * sin(h), "the vehicle looks ahead when it drives forward and back when it drives backward");
        vp_assert(g > gone, "waypoints advance");
        vp_assert(g - gone <= dist, "consecutive waypoints are at most the maximum distance apart");
        vp_assert(g <= length, "waypoints do not pass the end of the line");
        gone = g;
    }
    vp_assert(length - gone <= dist, "the waypoints reach the end of the line up to the maximum distance");
}
VP_DRIVER drv_line_f() { line(FW); }
VP_DRIVER drv_line_b() { line(BW); }
// the waypoints of a curve are those of its segments, one segment after the other
static int n_of[3], at[3], begun[3];
static void* segment[3];
static int n_seen;
static int which(void* s) {
    for (int i = 0; i < n_seen; ++i)
        if (segment[i] == s) return i;
    vp_assert(n_seen < 3, "every segment is iterated once");
    segment[n_seen] = s;
    return n_seen++;
}
extern "C" {
bool seq_tangent(CircleSegment&, CircleSegment&, LineSegment&) { return true; }
float seq_weight(CurveSegment*, bool) { return 1; }
double seq_arc(const CircleSegment*) { return 1; }
void seq_reset(CurveSegment* s) { int i = which(s); begun[i] = 1; at[i] = 0; }
bool seq_has_next(CurveSegment* s) { int i = which(s); vp_assert(begun[i], "segments are iterated from their start"); return at[i] < n_of[i]; }
}
struct PoseRet { double x, y, theta; };
extern "C" PoseRet seq_next(CurveSegment* s) {
    int i = which(s);
    vp_assert(begun[i] & at[i] < n_of[i], "segments deliver existing waypoints");
    PoseRet p;
    p.x = i; p.y = at[i]++; p.theta = 0;
    return p;
}
VP_DRIVER drv_sequence() {
    vp_unroll(16, 100000);
    vp_merge("lib_path::CircleSegment::set_start_angle_for_orientation");
    vp_merge("lib_path::CircleSegment::set_end_angle_for_orientation");
    text_is_modelled();
    vp_replace("lib_path::GeometryHelper::get_common_tangent", "seq_tangent");
    vp_replace("lib_path::CircleSegment::weight", "seq_weight");
    vp_replace("lib_path::LineSegment::weight", "seq_weight");
    vp_replace("lib_path::CircleSegment::arc", "seq_arc");
    CurveGenerator g;
    alignas(8) static char out[512];
    vp_text = "LSL";
    vp_text_n = 3;
    g.parse(*(std::string*)out, *(std::ostream*)(out + 256));
    Pose2d start(vp_real("x"), vp_real("y"), vp_real("t")), goal(vp_real("x"), vp_real("y"), vp_real("t"));
    vp_assume(sqrt((start.x - goal.x) * (start.x - goal.x) + (start.y - goal.y) * (start.y - goal.y)) >= 2);
    ObsMap m;
    Curve* c = g.find_path(start, goal, &m, false);
    if (!c) vp_fail("the curve is found");
    vp_replace("lib_path::CircleSegment::reset_iteration", "seq_reset");
    vp_replace("lib_path::LineSegment::reset_iteration", "seq_reset");
    vp_replace("lib_path::CircleSegment::has_next", "seq_has_next");
    vp_replace("lib_path::LineSegment::has_next", "seq_has_next");
    vp_replace("lib_path::CircleSegment::next", "seq_next");
    vp_replace("lib_path::LineSegment::next", "seq_next");
    n_seen = 0;
    for (int i = 0; i < 3; ++i) begun[i] = 0;
    n_of[0] = vp_bool("more") ? 2 : 1;
    n_of[1] = vp_bool("more") ? 1 : 0;
    if (n_of[1] && vp_bool("more")) n_of[1] = 2;
    n_of[2] = vp_bool("more") ? 2 : 1;
    for (int round = 0; round < 2; ++round) {
        c->reset_iteration();
        for (int i = 0; i < 3; ++i)
            for (int k = 0; k < n_of[i]; ++k) {
                vp_assert(c->has_next(), "a curve has waypoints as long as its segments have");
                Pose2d p = c->next();
                vp_assert(p.x == i & p.y == k, "the waypoints of a curve are those of its segments in order");
            }
        vp_reach("all");
        vp_assert(!c->has_next(), "a curve has no other waypoints than its segments");
    }
}
