//@src src/ReedsShepp/CurveGenerator.cpp src/ReedsShepp/Curve.cpp src/ReedsShepp/CircleSegment.cpp src/ReedsShepp/LineSegment.cpp src/ReedsShepp/CurveSegment.cpp src/ReedsShepp/GeometryHelper.cpp src/common/GridMap2d.cpp src/common/Point2d.cpp src/common/Pose2d.cpp
// The search for the cheapest curve.
#include "obs_map.h"
#include "text.h"
#include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
using namespace lib_path;
static int n_segments;
static char kind[4];
static bool backward[4];
static Pose2d start, goal;
static double radius, res, step;
static bool ignore;
static void* circles[4];
static CurveSegment::DIRECTION dir(int i) { return backward[i] ? CurveSegment::BACKWARD : CurveSegment::FORWARD; }
static void seg(const CircleSegment& c, int i) {
    vp_assert(c.get_orientation() == (kind[i] == 'L' ? CircleSegment::LEFT_CURVE : CircleSegment::RIGHT_CURVE), "circles turn as described");
    vp_assert(c.direction() == dir(i), "segments are driven in the described direction");
    vp_assert(c.get_radius() == radius / res, "circles have the radius that is set, in cells");
}
static void ends(const CircleSegment& a, const CircleSegment& b) {
    double s = kind[0] == 'L' ? 1 : -1, e = kind[n_segments - 1] == 'L' ? 1 : -1, r = radius / res;
    vp_assert(a.get_center().x == start.x - s * r * sin(start.theta) & a.get_center().y == start.y + s * r * cos(start.theta), "the first circle touches the start with its heading");
    vp_assert(b.get_center().x == goal.x - e * r * sin(goal.theta) & b.get_center().y == goal.y + e * r * cos(goal.theta), "the last circle touches the goal with its heading");
    vp_assert(a.get_start_point().x == start.x & a.get_start_point().y == start.y, "the first circle begins at the start");
    vp_assert(b.get_end_point().x == goal.x & b.get_end_point().y == goal.y, "the last circle ends at the goal");
}
extern "C" {
bool on_tangent(CircleSegment& a, CircleSegment& b, LineSegment& l) {
    vp_reach("joined");
    vp_assert(n_segments == 3 & kind[1] == 'S', "circles with a straight segment in between are joined by it");
    seg(a, 0);
    seg(b, 2);
    vp_assert(l.direction() == dir(1), "segments are driven in the described direction");
    ends(a, b);
    return true;
}
bool on_circle(CircleSegment& a, CircleSegment& b, CircleSegment& c, bool i) {
    vp_reach("joined");
    vp_assert(n_segments == 3 & kind[1] != 'S', "three circles are joined by the one in between");
    seg(a, 0);
    seg(b, 1);
    seg(c, 2);
    ends(a, c);
    vp_assert(i == ignore, "obstacles are ignored on request only");
    return true;
}
bool on_double(CircleSegment& a, CircleSegment& b, CircleSegment& c, CircleSegment& d, bool i) {
    vp_reach("joined");
    vp_assert(n_segments == 4, "four circles are joined by the two in between");
    seg(a, 0);
    seg(b, 1);
    seg(c, 2);
    seg(d, 3);
    ends(a, d);
    vp_assert(i == ignore, "obstacles are ignored on request only");
    return true;
}
float on_weight(CurveSegment*, bool i) {
    vp_assert(i == ignore, "obstacles are ignored on request only");
    return 1;
}
double on_arc(const CircleSegment*) { return 1; }
}
static void poses(CurveGenerator& g) {
    start.x = vp_real("sx"); start.y = vp_real("sy"); start.theta = vp_real("st");
    goal.x = vp_real("gx"); goal.y = vp_real("gy"); goal.theta = vp_real("gt");
    radius = vp_real("radius"); step = vp_real("step");
    vp_assume(radius > 0 & step > 0);
    ignore = vp_bool("ignore");
    g.set_circle_radius(radius);
    g.set_max_waypoint_distance(step);
}
static void text(CurveGenerator& g, const char* t, std::size_t n) {
    alignas(8) static char out[512];
    vp_text = t;
    vp_text_n = n;
    vp_assert(g.parse(*(std::string*)out, *(std::ostream*)(out + 256)), "a correct text is accepted");
}
// one description
static void described(const char* k) {
    vp_unroll(12, 100000);
    vp_merge("lib_path::CircleSegment::set_start_angle_for_orientation");
    vp_merge("lib_path::CircleSegment::set_end_angle_for_orientation");
    text_is_modelled();
    vp_replace("lib_path::GeometryHelper::get_common_tangent", "on_tangent");
    vp_replace("lib_path::GeometryHelper::get_tangential_circle", "on_circle");
    vp_replace("lib_path::GeometryHelper::get_tangential_double_circle", "on_double");
    vp_replace("lib_path::CircleSegment::weight", "on_weight");
    vp_replace("lib_path::LineSegment::weight", "on_weight");
    vp_replace("lib_path::CircleSegment::arc", "on_arc");
    CurveGenerator g;
    char t[12];
    int n = 0;
    bool back = false;
    for (n_segments = 0; k[n_segments]; ++n_segments) {
        if (vp_bool("turn around")) { t[n++] = '|'; back = !back; }
        backward[n_segments] = back;
        kind[n_segments] = t[n++] = k[n_segments];
    }
    text(g, t, n);
    // a second search uses what is set then
    for (int round = 0; round < 2; ++round) {
        poses(g);
        ObsMap m;
        res = m.res;
        Curve* c = g.find_path(start, goal, &m, ignore);
        double d = sqrt((start.x - goal.x) * (start.x - goal.x) + (start.y - goal.y) * (start.y - goal.y));
        if (c) {
            vp_reach("found");
            vp_assert(c->weight() == n_segments, "the weight of a curve is that of its segments");
            vp_assert(c->start().x == start.x & c->start().y == start.y & c->start().theta == start.theta & c->goal().x == goal.x & c->goal().y == goal.y & c->goal().theta == goal.theta, "a curve knows its start and goal");
        } else {
            vp_assert(d < 2, "a curve between poses that are two cells apart is found");
        }
    }
}
VP_DRIVER drv_lsl() { described("LSL"); }
VP_DRIVER drv_lsr() { described("LSR"); }
VP_DRIVER drv_rsl() { described("RSL"); }
VP_DRIVER drv_rsr() { described("RSR"); }
VP_DRIVER drv_lrl() { described("LRL"); }
VP_DRIVER drv_rlr() { described("RLR"); }
VP_DRIVER drv_lrlr() { described("LRLR"); }
VP_DRIVER drv_rlrl() { described("RLRL"); }

// the choice between descriptions: LSL, |RSR and RSL
static CircleSegment *from[3], *to[3];
static LineSegment* line[3];
static bool joined[3];
static double wa[3], wb[3], wl[3], aa[3], ab[3];
static int which(const CurveSegment* s) {
    for (int i = 0; i < 3; ++i)
        if (s == from[i] || s == to[i] || s == line[i]) return i;
    vp_fail("weights of a curve count after its segments are joined");
    return 0;
}
extern "C" {
bool choice_tangent(CircleSegment& a, CircleSegment& b, LineSegment& l) {
    int i = a.get_orientation() == CircleSegment::LEFT_CURVE ? 0 : b.get_orientation() == CircleSegment::RIGHT_CURVE ? 1 : 2;
    from[i] = &a; to[i] = &b; line[i] = &l;
    return joined[i];
}
float choice_circle(CurveSegment* s, bool) {
    int i = which(s);
    return s == from[i] ? wa[i] : wb[i];
}
float choice_line(CurveSegment* s, bool) { return wl[which(s)]; }
double choice_arc(const CircleSegment* s) {
    for (int i = 0; i < 3; ++i) {
        if (s == from[i]) return aa[i];
        if (s == to[i]) return ab[i];
    }
    vp_fail("arcs count after the segments are joined");
    return 0;
}
}
static void choice(int n) {
    vp_unroll(12, 100000);
    vp_merge("lib_path::CircleSegment::set_start_angle_for_orientation");
    vp_merge("lib_path::CircleSegment::set_end_angle_for_orientation");
    text_is_modelled();
    vp_replace("lib_path::GeometryHelper::get_common_tangent", "choice_tangent");
    vp_replace("lib_path::CircleSegment::weight", "choice_circle");
    vp_replace("lib_path::LineSegment::weight", "choice_line");
    vp_replace("lib_path::CircleSegment::arc", "choice_arc");
    CurveGenerator g;
    text(g, "LSL", 3);
    if (n > 1) text(g, "|RSR", 4);
    if (n > 2) text(g, "RSL", 3);
    poses(g);
    double limit = vp_real("limit");
    g.set_max_curve_arc(limit);
    vp_assume(sqrt((start.x - goal.x) * (start.x - goal.x) + (start.y - goal.y) * (start.y - goal.y)) >= 2);
    double best = 999999;
    for (int i = 0; i < n; ++i) {
        wa[i] = vp_real("weight"); wb[i] = vp_real("weight"); wl[i] = vp_real("weight");
        aa[i] = vp_real("arc"); ab[i] = vp_real("arc");
        vp_assume(wa[i] >= 0 & wb[i] >= 0 & wl[i] >= 0);
        vp_assume(aa[i] >= 0 & ab[i] >= 0);
        joined[i] = vp_bool("joined");
        if (joined[i] && aa[i] + ab[i] < limit && wa[i] + wb[i] + wl[i] < best) best = wa[i] + wb[i] + wl[i];
    }
    ObsMap m;
    Curve* c = g.find_path(start, goal, &m, ignore);
    if (best < 999999) {
        vp_reach("found");
        if (!c) vp_fail("a free curve is found");
        else vp_assert(c->weight() == best, "the cheapest of the free curves below the limit of the turning angle is found");
    } else {
        vp_reach("none");
        vp_assert(c == NULL, "there is no curve if no candidate is free and below the limit of the turning angle");
    }
}
VP_DRIVER drv_choice1() { choice(1); }
VP_DRIVER drv_choice2() { choice(2); }
VP_DRIVER drv_choice3() { choice(3); }

// the settings in force reach every segment
static double len_a, len_b, len_l;
static bool around;
extern "C" {
bool settings_tangent(CircleSegment& a, CircleSegment& b, LineSegment& l) {
    a.set_end_angle_for_orientation(start.theta + (around ? 1 : 2));
    b.set_start_angle_for_orientation(goal.theta - 2);
    l.set_points(Point2d(0, 0), Point2d(len_l, 0));
    len_a = a.length(); len_b = b.length();
    return true;
}
float no_weight(CurveSegment*, bool) { return 0; }
}
struct NoMap : ObsMap {
    bool isInMap(const int x, const int y) const { return false; }
};
static unsigned char least;
static double cost_fw, cost_bw, cost_line, cost_curve;
static void costs(CurveGenerator& g) {
    vp_unroll(12, 100000);
    vp_merge("lib_path::CircleSegment::set_start_angle_for_orientation");
    vp_merge("lib_path::CircleSegment::set_end_angle_for_orientation");
    text_is_modelled();
    vp_replace("lib_path::GeometryHelper::get_common_tangent", "settings_tangent");
    poses(g);
    vp_assume(sqrt((start.x - goal.x) * (start.x - goal.x) + (start.y - goal.y) * (start.y - goal.y)) >= 2);
    cost_fw = vp_real("cost_fw"); cost_bw = vp_real("cost_bw"); cost_line = vp_real("cost_line"); cost_curve = vp_real("cost_curve");
    least = vp_u8("least");
    g.set_cost_forwards(cost_fw);
    g.set_cost_backwards(cost_bw);
    g.set_cost_straight(cost_line);
    g.set_cost_curve(cost_curve);
    g.set_min_cell_cost(least);
    g.set_max_curve_arc(3);
    vp_replace("lib_path::CircleSegment::arc", "on_arc");
}
static void lengths(bool fw) {
    CurveGenerator g;
    costs(g);
    if (fw) text(g, "LSL", 3); else text(g, "|L|S|L", 6);
    NoMap m;
    res = m.res;
    ignore = true;
    len_l = 3;
    Curve* c = g.find_path(start, goal, &m, true);
    if (!c) { vp_reach("too expensive"); return; }
    vp_reach("found");
    vp_assert(c->weight() == (fw ? (len_a * cost_curve + len_l * cost_line + len_b * cost_curve) * cost_fw : (len_a * cost_curve + len_b * cost_curve) * cost_bw + len_l * cost_line * cost_fw), "the cost settings reach every segment");
}
VP_DRIVER drv_lengths_fw() { lengths(true); }
VP_DRIVER drv_lengths_bw() { lengths(false); }
// cells below a line
struct OneMap : ObsMap {
    bool isInMap(const int x, const int y) const { return x == 0; }
    uint8_t getValue(const unsigned x, const unsigned y) const { return 7; }
};
VP_DRIVER drv_cells() {
    CurveGenerator g;
    costs(g);
    vp_replace("lib_path::CircleSegment::weight", "no_weight");
    g.set_use_map_cost(true);
    text(g, "LSL", 3);
    OneMap m;
    res = m.res;
    ignore = true;
    len_l = 0;
    Curve* c = g.find_path(start, goal, &m, true);
    if (!c) { vp_reach("too expensive"); return; }
    vp_reach("found");
    vp_assert(c->weight() == (least > 7 ? least : 7) * cost_line * cost_fw / res, "map cost and its minimum reach the segments");
}
// waypoints of the curve
VP_DRIVER drv_spacing() {
    CurveGenerator g;
    costs(g);
    around = true;
    step = radius / 4;
    g.set_max_waypoint_distance(step);
    vp_replace("lib_path::CircleSegment::weight", "on_weight");
    vp_replace("lib_path::LineSegment::weight", "on_weight");
    text(g, "LSL", 3);
    ObsMap m;
    res = m.res;
    Curve* c = g.find_path(start, goal, &m, ignore);
    if (!c) vp_fail("the curve is found");
    c->reset_iteration();
    vp_assert(c->has_next(), "there are waypoints");
    Pose2d p = c->next();
    vp_assert(p.x == start.x & p.y == start.y, "the first waypoint is the start");
    vp_assert(sin(p.theta) == sin(start.theta) & cos(p.theta) == cos(start.theta), "the first waypoint has the heading of the start");
    vp_assert(c->has_next(), "there are waypoints");
    Pose2d q = c->next();
    vp_assert(q.theta - p.theta == 0.25, "waypoints have the distance that is set");
}

// descriptions of curves that cannot be computed
static void shape(const char* k, std::size_t n) {
    vp_unroll(12, 100000);
    vp_merge("lib_path::CircleSegment::set_start_angle_for_orientation");
    vp_merge("lib_path::CircleSegment::set_end_angle_for_orientation");
    text_is_modelled();
    vp_replace("lib_path::CircleSegment::weight", "no_weight");
    vp_replace("lib_path::LineSegment::weight", "no_weight");
    CurveGenerator g;
    text(g, k, n);
    poses(g);
    ObsMap m;
    Curve* c = g.find_path(start, goal, &m, ignore);
    vp_reach("answered");
    vp_assert(c == NULL, "only three segments between circles and four circles are computed");
}
VP_DRIVER drv_shape_l() { shape("L", 1); }
VP_DRIVER drv_shape_lr() { shape("L|R", 3); }
VP_DRIVER drv_shape_slr() { shape("SLR", 3); }
VP_DRIVER drv_shape_lrs() { shape("LRS", 3); }
VP_DRIVER drv_shape_sls() { shape("SLS", 3); }
VP_DRIVER drv_shape_lslr() { shape("LSLR", 4); }
VP_DRIVER drv_shape_lrsl() { shape("LRSL", 4); }
VP_DRIVER drv_shape_slrl() { shape("SLRL", 4); }
VP_DRIVER drv_shape_lrls() { shape("LRLS", 4); }
VP_DRIVER drv_shape_lrlrl() { shape("LRLRL", 5); }
