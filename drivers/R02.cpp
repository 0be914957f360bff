//@src src/ReedsShepp/CircleSegment.cpp src/ReedsShepp/LineSegment.cpp src/ReedsShepp/CurveSegment.cpp src/common/GridMap2d.cpp src/common/Point2d.cpp src/common/Pose2d.cpp
// Weights and collision verdicts of the segments of a curve.
#include "obs_map.h"
#include <cslibs_path_planning/ReedsShepp/LineSegment.h>
#include <cslibs_path_planning/ReedsShepp/CircleSegment.h>
using namespace lib_path;
extern "C" uint8_t vp_pure_u_value(int, int);

static int X0, Y0, X1, Y1, lx, ly;
static bool hit, out0, uncounted;
static double sum;
static unsigned char least;
// a map that watches which cells a line looks at
struct WalkMap : ObsMap {
    uint8_t getValue(const unsigned int x, const unsigned int y) const {
        unsigned char v = vp_pure_u_value(x, y);
        if (uncounted) {
            vp_assert((int)x == lx & (int)y == ly, "the value of the cell that was checked counts");
            sum += v > least ? v : least;
        }
        uncounted = false;
        return v;
    }
    bool isInMap(const int x, const int y) const {
        bool in = vp_pure_in(x, y);
        vp_assert(x - lx <= 1 & lx - x <= 1 & y - ly <= 1 & ly - y <= 1, "the cells of a line are checked one after the other from its start");
        lx = x; ly = y;
        uncounted = in;
        if (in & !vp_pure_free(x, y)) hit = true;
        return in;
    }
};
static double cost_fw, cost_bw, cost_line, cost_curve;
template <class S, class M> static void settings(S& s, M& m) {
    cost_fw = vp_real("cost_fw"); cost_bw = vp_real("cost_bw"); cost_line = vp_real("cost_line"); cost_curve = vp_real("cost_curve");
    least = vp_u8("least");
    s.set_map(&m);
    double dist = vp_real("dist");
    vp_assume(dist > 0);
    s.set_max_distance(dist);
    s.set_cost_forwards(cost_fw);
    s.set_cost_backwards(cost_bw);
    s.set_cost_straight(cost_line);
    s.set_cost_curve(cost_curve);
    s.set_min_cell_cost(least);
    hit = uncounted = false;
    sum = 0;
}
template <int SX, int SY, bool ignore = false> static void line(CurveSegment::DIRECTION dir, bool by_map) {
    WalkMap m;
    LineSegment l(dir);
    settings(l, m);
    l.set_use_map_cost(by_map);
    double sx = vp_real("sx"), sy = vp_real("sy"), ex = vp_real("ex"), ey = vp_real("ey");
    X0 = (int)sx; Y0 = (int)sy; X1 = (int)ex; Y1 = (int)ey;
    vp_assume(SX > 0 ? X0 < X1 : SX < 0 ? X0 > X1 : X0 == X1);
    vp_assume(SY > 0 ? Y0 < Y1 : SY < 0 ? Y0 > Y1 : Y0 == Y1);
    lx = X0; ly = Y0;
    l.set_points(Point2d(sx, sy), Point2d(ex, ey));
    double w = l.weight(ignore);
    vp_reach("weighed");
    bool start_out = !vp_pure_in(X0, Y0);
    double c = dir == CurveSegment::FORWARD ? cost_fw : cost_bw;
    double expected = by_map ? c * sum * cost_line / m.res : sqrt((sx - ex) * (sx - ex) + (sy - ey) * (sy - ey)) * c * cost_line;
    if (!ignore && (start_out | hit)) {
        vp_reach("blocked");
        vp_assert(w == 999999, "a line that starts outside of the map or meets a cell that is not free is not free");
    } else {
        vp_reach("free");
        vp_assert(lx == X1 & ly == Y1, "a free line was checked up to the cell of its end");
        vp_assert(w == expected, "the weight of a line");
    }
}
#define FW CurveSegment::FORWARD
#define BW CurveSegment::BACKWARD
VP_DRIVER drv_line_e() { line<1, 0>(FW, true); }
VP_DRIVER drv_line_ne() { line<1, 1>(FW, true); }
VP_DRIVER drv_line_n() { line<0, 1>(FW, true); }
VP_DRIVER drv_line_nw() { line<-1, 1>(FW, true); }
VP_DRIVER drv_line_w() { line<-1, 0>(FW, true); }
VP_DRIVER drv_line_sw() { line<-1, -1>(FW, true); }
VP_DRIVER drv_line_s() { line<0, -1>(FW, true); }
VP_DRIVER drv_line_se() { line<1, -1>(FW, true); }
VP_DRIVER drv_line_cell() { line<0, 0>(FW, true); }
VP_DRIVER drv_line_length() { line<0, 1>(FW, false); }
VP_DRIVER drv_line_length_bw() { line<1, 0>(BW, false); }
VP_DRIVER drv_line_map_bw() { line<1, 0>(BW, true); }
VP_DRIVER drv_line_ignore() { line<-1, 0, true>(FW, false); }
VP_DRIVER drv_line_ignore_map() { line<0, -1, true>(BW, true); }

// circles, first part: one arbitrary cell that is not free
static int CX, CY, GX, GY;
static double a0, a1;
static bool rising, outside;
struct SpotMap : ObsMap {
    uint8_t getValue(const unsigned int x, const unsigned int y) const { return vp_pure_u_value(x, y); }
    bool isInMap(const int x, const int y) const {
        if (x == GX && y == GY) {
            float angle = atan2(y - CY, x - CX);
            double d = rising ? angle - a0 : a0 - angle, e = rising ? a1 - a0 : a0 - a1;
            if (d < 0) d += 2 * M_PI;
            if (e < 0) e += 2 * M_PI;
            if (d <= e) hit = true;
            if (outside) {
                vp_assume(hit);
                vp_note("the cell");
                return false;
            }
        }
        return true;
    }
    bool isFree(const unsigned int x, const unsigned int y) const {
        if ((int)x != GX || (int)y != GY) return true;
        vp_note("the cell");
        return false;
    }
};
template <class M> static void circle(CircleSegment& c, M& m, double r, double start, double end) {
    vp_merge("lib_path::CircleSegment::set_start_angle");
    vp_merge("lib_path::CircleSegment::set_end_angle");
    settings(c, m);
    Point2d center(vp_real("cx"), vp_real("cy"));
    vp_assume(r >= 1);
    CX = (int)center.x; CY = (int)center.y;
    c.set_radius(r);
    c.set_center(center);
    c.set_start_angle(start);
    c.set_end_angle(end);
    a0 = c.get_start_angle(); a1 = c.get_end_angle();
    vp_assume(a0 != a1);
    vp_assume(a0 > -M_PI & a1 > -M_PI);   // the direction of the negative x axis is pi
}
template <bool ignore, bool out> static void spot(CircleSegment::ORIENTATION o, CurveSegment::DIRECTION dir) {
    vp_merge("lib_path::CircleSegment::*");
    SpotMap m;
    GX = vp_int("gx"); GY = vp_int("gy");
    outside = out;
    CircleSegment c(o, dir);
    circle(c, m, vp_real("r"), out ? 1 : vp_real("start"), out ? 2 : vp_real("end"));
    rising = (o == CircleSegment::LEFT_CURVE) != (dir == BW);
    double w = c.weight(ignore);
    if (!ignore && hit) {
        vp_reach("blocked");
        vp_assert(w == 999999, "an arc over a cell that is not free is not free");
    } else if (!out || ignore) {
        vp_reach("free");
        vp_assert(w == c.length() * (dir == FW ? cost_fw : cost_bw) * cost_curve, "the weight of a free arc");
    }
}
// the cost of a cell below an arc
struct CostMap : SpotMap {
    uint8_t getValue(const unsigned int x, const unsigned int y) const {
        unsigned char v = vp_pure_u_value(x, y);
        vp_assert((int)x == GX & (int)y == GY & uncounted, "the value of a checked cell counts once");
        sum += v > least ? v : least;
        uncounted = false;
        return v;
    }
    bool isInMap(const int x, const int y) const {
        if (x != GX || y != GY) return false;
        hit = false;
        SpotMap::isInMap(x, y);
        if (hit) uncounted = true;
        return true;
    }
};
static void cell(CircleSegment::ORIENTATION o, CurveSegment::DIRECTION dir) {
    CostMap m;
    GX = vp_int("gx"); GY = vp_int("gy");
    outside = false;
    CircleSegment c(o, dir);
    circle(c, m, vp_real("r"), vp_real("start"), vp_real("end"));
    rising = (o == CircleSegment::LEFT_CURVE) != (dir == BW);
    c.set_use_map_cost(true);
    double w = c.weight(true);
    vp_reach("weighed");
    vp_assert(!uncounted, "the value of every cell below an arc counts");
    vp_assert(w == (dir == FW ? cost_fw : cost_bw) * sum * cost_curve / m.res, "the weight of an arc over costly cells");
}
#define LEFT CircleSegment::LEFT_CURVE
#define RIGHT CircleSegment::RIGHT_CURVE
VP_DRIVER drv_spot_lf() { spot<false, false>(LEFT, FW); }
VP_DRIVER drvt_spot_rf() { spot<false, false>(RIGHT, FW); }
VP_DRIVER drvt_spot_lb() { spot<false, false>(LEFT, BW); }
VP_DRIVER drv_spot_rb() { spot<false, false>(RIGHT, BW); }
VP_DRIVER drv_spot_out() { spot<false, true>(LEFT, FW); }
VP_DRIVER drvt_spot_ignore() { spot<true, false>(RIGHT, BW); }
VP_DRIVER drvt_cell_lf() { cell(LEFT, FW); }
VP_DRIVER drv_cell_lb() { cell(LEFT, BW); }
VP_DRIVER drv_cell_rf() { cell(RIGHT, FW); }
VP_DRIVER drvt_cell_rb() { cell(RIGHT, BW); }
// second part: every cell of the circle is looked at (octant by octant)
static int lu, lv, pu, pv, q;
template <int K> struct RingMap : ObsMap {
    uint8_t getValue(const unsigned int x, const unsigned int y) const { return vp_pure_u_value(x, y); }
    bool isInMap(const int x, const int y) const {
        int u = K & 4 ? y - CY : x - CX, v = K & 4 ? x - CX : y - CY;
        if (K & 1) u = -u;
        if (K & 2) v = -v;
        if (v < 0) return false;
        if (u < v) return false;
        if (v < lv) {
            vp_assert(u == pu & v == pv, "no cell of a circle is looked at in a wrong place");
            return false;
        }
        vp_assert(u == lu & v == lv, "the cells of a circle are looked at completely and one radius away from the centre");
        // next cell (midpoint rule)
        pu = lu; pv = lv;
        q += 2 * lv + 1;
        ++lv;
        if (q >= 0) { q -= 2 * lu - 1; --lu; }
        return false;
    }
    bool isFree(const unsigned int x, const unsigned int y) const { return true; }
};
template <int K> static void ring() {
    RingMap<K> m;
    CircleSegment c(LEFT, FW);
    double r = vp_real("r");
    circle(c, m, r, -2, 2);
    c.set_use_map_cost(true);
    lu = r; lv = 0; q = -lu; pu = lu; pv = lv;
    c.weight(true);
    vp_reach("weighed");
    vp_assert(lu < lv, "a circle is checked completely");
}
VP_DRIVER drv_ring0() { ring<0>(); }
VP_DRIVER drv_ring1() { ring<1>(); }
VP_DRIVER drv_ring2() { ring<2>(); }
VP_DRIVER drv_ring3() { ring<3>(); }
VP_DRIVER drv_ring4() { ring<4>(); }
VP_DRIVER drv_ring5() { ring<5>(); }
VP_DRIVER drv_ring6() { ring<6>(); }
VP_DRIVER drv_ring7() { ring<7>(); }
