//@src src/ReedsShepp/GeometryHelper.cpp src/ReedsShepp/CircleSegment.cpp src/ReedsShepp/LineSegment.cpp src/ReedsShepp/CurveSegment.cpp src/common/GridMap2d.cpp src/common/Point2d.cpp src/common/Pose2d.cpp
#include "obs_map.h"
#include <cslibs_path_planning/ReedsShepp/GeometryHelper.h>
using namespace lib_path;
#define L CircleSegment::LEFT_CURVE
#define R CircleSegment::RIGHT_CURVE
#define F CurveSegment::FORWARD
#define B CurveSegment::BACKWARD
typedef CircleSegment::ORIENTATION Ori;
typedef CurveSegment::DIRECTION Dir;
// heading of a vehicle standing on the circle at an angle: the centre is to its left or right
static double heading(Ori o, double angle) { return angle + (o == L ? M_PI / 2 : -M_PI / 2); }
static void smooth(Ori o1, double e1, Ori o2, double s2) {
    double h = heading(o1, e1), h2 = heading(o2, s2);
    vp_assert(cos(h) == cos(h2), "the heading does not jump where two circles of a curve meet (x)");
    vp_assert(sin(h) == sin(h2), "the heading does not jump where two circles of a curve meet (y)");
}
static void joined(Point2d p, Point2d q) {
    vp_assert(p.x == q.x, "consecutive segments of a curve meet in one point (x)");
    vp_assert(p.y == q.y, "consecutive segments of a curve meet in one point (y)");
}
template <Ori O1, Ori O2, Dir D1, Dir D, Dir D2> static void tangent() {
    CircleSegment a(O1, D1), b(O2, D2);
    LineSegment l(D);
    double r = vp_real("r");
    vp_assume(r > 0);
    double dd = vp_real("dd"), phi = vp_real("phi"), d = sqrt(dd);
    vp_assume(dd > 0);
    Point2d ca(vp_real("ax"), vp_real("ay")), cb(ca.x + d * cos(phi), ca.y + d * sin(phi));
    a.set_radius(r); b.set_radius(r);
    a.set_center(ca); b.set_center(cb);
    if (!GeometryHelper::get_common_tangent(a, b, l)) {
        vp_assert(d < 2 * r, "two circles that do not overlap are connected by a tangent");
        return;
    }
    vp_reach("tangent");
    vp_assert(O1 == O2 | d >= 2 * r, "there is no crossing tangent of overlapping circles");
    Point2d p = l.start(), q = l.end();
    joined(a.get_end_point(), p);
    joined(q, b.get_start_point());
    double sg = D == F ? 1 : -1;
    double h = heading(O1, a.get_end_angle());
    vp_assert((q.x - p.x) * sin(h) == (q.y - p.y) * cos(h), "the tangent runs along the heading at the end of the first circle");
    vp_assert(((q.x - p.x) * cos(h) + (q.y - p.y) * sin(h)) * sg >= 0, "the tangent is driven in its direction (forward ahead, backward behind)");
    smooth(O1, a.get_end_angle(), O2, b.get_start_angle());
    vp_assert(a.get_center().x == ca.x & a.get_center().y == ca.y & b.get_center().x == cb.x & b.get_center().y == cb.y, "the circles stay where they are");
}
VP_DRIVER drv_lfl() { tangent<L,L,F,F,F>(); }
VP_DRIVER drv_lfr() { tangent<L,R,F,F,F>(); }
VP_DRIVER drv_rfl() { tangent<R,L,F,F,F>(); }
VP_DRIVER drv_rfr() { tangent<R,R,B,F,F>(); }
VP_DRIVER drv_lbl() { tangent<L,L,F,B,B>(); }
VP_DRIVER drv_lbr() { tangent<L,R,F,B,F>(); }
VP_DRIVER drv_rbl() { tangent<R,L,B,B,B>(); }
VP_DRIVER drv_rbr() { tangent<R,R,F,B,F>(); }
// circles only: the two symmetric solutions have arbitrary weights
static const CircleSegment* seg[4];
static int nseg;
static double wgt[3];      // total weight of the solution on the left / right of the connecting line
static Point2d s, dir;
static bool ign;
static int side() {              // 2: the two solutions are the same
    double c = (seg[1]->get_center().x - s.x) * dir.y - (seg[1]->get_center().y - s.y) * dir.x;
    if (c < 0) return 0;
    return c > 0 ? 1 : 2;
}
static double weight_of(int k) { if (k == 0) return wgt[0]; if (k == 1) return wgt[1]; return wgt[2]; }
extern "C" float obs_weight(CircleSegment* c, bool ignore) {
    vp_assert(ignore == ign, "obstacles are ignored exactly if that was asked for");
    return c == seg[0] ? weight_of(side()) : 0;
}
template <int N, Ori O, Dir D1, Dir D2, Dir D3, Dir D4> static void circles() {
    const Ori P = O == L ? R : L;
    vp_replace("lib_path::CircleSegment::weight", "obs_weight");
    vp_merge("lib_path::CircleSegment::set_start_angle");
    vp_merge("lib_path::CircleSegment::set_end_angle");
    ObsMap map;
    CircleSegment a(O, D1), m(P, D2), m2(O, D3), b(N == 3 ? O : P, D4);
    double rr = vp_real("rr"), r = sqrt(rr), dd = vp_real("dd"), phi = vp_real("phi"), d = sqrt(dd);
    vp_assume(rr > 0 & dd > 0);
    Point2d ca(vp_real("ax"), vp_real("ay")), cb(ca.x + d * cos(phi), ca.y + d * sin(phi));
    a.set_map(&map); b.set_map(&map); m.set_map(&map); m2.set_map(&map);
    a.set_radius(r); b.set_radius(r); m.set_radius(r); m2.set_radius(r);
    a.set_center(ca); b.set_center(cb); m.set_center(ca); m2.set_center(ca);
    CircleSegment* all[4] = {&a, &m, &m2, &b};
    for (int i = 0; i < 4; ++i) { all[i]->set_start_angle(0); all[i]->set_end_angle(0); }
    s = ca; dir = Point2d(cos(phi), sin(phi));
    seg[0] = &a; seg[1] = &m; seg[2] = N == 3 ? &b : &m2; seg[3] = &b;
    wgt[0] = vp_real("w0"); wgt[1] = vp_real("w1"); wgt[2] = vp_real("w2");
    vp_assume(wgt[0] >= 0 & wgt[1] >= 0 & wgt[2] >= 0);
    ign = vp_bool("ignore");
    bool ok = N == 3 ? GeometryHelper::get_tangential_circle(a, m, b, ign) : GeometryHelper::get_tangential_double_circle(a, m, m2, b, ign);
    if (!ok) {
        vp_reach("no solution");
        vp_assert(d < 2 | d > (N == 3 ? 4 : 6) * r | (wgt[0] >= NOT_FREE & wgt[1] >= NOT_FREE) | wgt[2] >= NOT_FREE, "circles in reach of each other are connected if one of the two solutions is free");
        return;
    }
    vp_reach("connected");
    vp_assert(d <= (N == 3 ? 4 : 6) * r, "circles out of reach of each other are not connected");
    int k = side();
    vp_assert(weight_of(k) < NOT_FREE, "a solution that is not free is not used");
    if (k != 2) vp_assert(weight_of(k) <= weight_of(1 - k), "the cheaper one of the two symmetric solutions is used");
    joined(a.get_end_point(), m.get_start_point());
    smooth(O, a.get_end_angle(), P, m.get_start_angle());
    if (N == 3) {
        joined(m.get_end_point(), b.get_start_point());
        smooth(P, m.get_end_angle(), O, b.get_start_angle());
    } else {
        joined(m.get_end_point(), m2.get_start_point());
        smooth(P, m.get_end_angle(), O, m2.get_start_angle());
        joined(m2.get_end_point(), b.get_start_point());
        smooth(O, m2.get_end_angle(), P, b.get_start_angle());
    }
    vp_assert(a.get_center().x == ca.x & a.get_center().y == ca.y & b.get_center().x == cb.x & b.get_center().y == cb.y, "the circles stay where they are");
}
VP_DRIVER drv_lrl() { circles<3,L,F,F,F,F>(); }
VP_DRIVER drv_rlr() { circles<3,R,F,F,B,B>(); }
VP_DRIVER drv_lrlr() { circles<4,L,F,F,F,F>(); }
VP_DRIVER drv_rlrl() { circles<4,R,F,F,B,B>(); }
