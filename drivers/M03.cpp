//@src src/common/GridMap2d.cpp src/common/Point2d.cpp src/common/Pose2d.cpp
// Walking circular and line areas.
#include "vp.h"
#include <cslibs_path_planning/common/GridMap2d.h>
#include <utility>
using namespace lib_path;

extern "C" {
bool vp_pure_inside(double, double);
unsigned vp_pure_u_cx(double, double);
unsigned vp_pure_u_cy(double, double);
}
struct Map : GridMap2d {
    double res;
    Map() { res = vp_real("res"); vp_assume(res > 0); }
    uint8_t getValue(const unsigned int, const unsigned int) const { return vp_u8("v"); }
    void setValue(const unsigned int, const unsigned int, const uint8_t) { vp_fail("creating an area changed the map"); }
    unsigned int getWidth() const { return vp_u32("w"); }
    unsigned int getHeight() const { return vp_u32("h"); }
    double getResolution() const { return res; }
    Point2d getOrigin() const { return Point2d(vp_real("ox"), vp_real("oy")); }
    void setOrigin(const Point2d&) { vp_fail("creating an area moved the map"); }
    bool isFree(const unsigned int, const unsigned int) const { return vp_bool("free"); }
    bool isOccupied(const unsigned int, const unsigned int) const { return vp_bool("occ"); }
    bool isNoInformation(const unsigned int, const unsigned int) const { return vp_bool("unk"); }
    bool point2cell(const double px, const double py, unsigned int& x, unsigned int& y) const {
        x = vp_pure_u_cx(px, py);
        y = vp_pure_u_cy(px, py);
        return vp_pure_inside(px, py);
    }
    void cell2point(const unsigned int, const unsigned int, double& px, double& py) const { px = vp_real("px"); py = vp_real("py"); }
    bool isInMap(const int, const int) const { return vp_bool("in"); }
    bool isInMap(const double x, const double y) const { return vp_pure_inside(x, y); }
};
static const void* vec;
static size_t pushed;
static bool line, any;
static int lx, ly;
extern "C" void vp_on_push_ii(const void* v, const std::pair<int, int>* e, size_t idx) {
    vec = v;
    if (!line) return;
    int dx = e->first - lx, dy = e->second - ly;
    if (!any) vp_assert(dx == 0 && dy == 0, "a line starts in the cell of its start point");
    vp_assert(dx >= -1 && dx <= 1 && dy >= -1 && dy <= 1, "successive cells of a line are neighbours");
    any = true;
    lx = e->first; ly = e->second;
    ++pushed;
}
static Point2d any_point(const char* x, const char* y) { Point2d p; p.x = vp_real(x); p.y = vp_real(y); return p; }

// two complete walks over the area; every access is in range and both walks have the same length
template <class A> static void walk(A& a) {
    int x, y;
    size_t n = 0, m = 0;
    a.begin();
    while (a.next()) { ++n; a.getCell(x, y); a.getValue(); }
    vp_assert(!a.next(), "an exhausted area stays exhausted");
    a.begin();
    while (a.next()) { ++m; a.getCell(x, y); a.setValue(vp_u8("v")); }
    vp_reach("walked");
    vp_assert(n == m, "a restarted walk visits as many cells as the first one");
}
// the cells are arbitrary
VP_DRIVER drv_circle_walk() {
    vp_opaque("lib_path::CircleArea::init");
    Map m;
    line = false;
    CircleArea a(any_point("cx", "cy"), vp_real("radius"), &m);
    a.setCenter(any_point("cx", "cy"), &m);
    vp_bounds(1);
    walk(a);
}
VP_DRIVER drv_buffer_walk() {
    vp_opaque("lib_path::CircleArea::init");
    Map m;
    line = false;
    CircleBuffer a(any_point("cx", "cy"), vp_real("radius"), &m);
    a.setCenter(any_point("cx", "cy"), &m);
    vp_bounds(1);
    walk(a);
    a.init(any_point("cx", "cy"), vp_real("radius"), &m);
    walk(a);
}
VP_DRIVER drv_line_walk() {
    Map m;
    line = false;
    Point2d s = any_point("sx", "sy");
    vp_assume(!vp_pure_inside(s.x, s.y));
    LineArea a(s, s, &m);
    vp_opaque("lib_path::LineArea::set");
    a.set(any_point("sx", "sy"), any_point("ex", "ey"), &m);
    vp_bounds(1);
    walk(a);
}
// a circle around a point of the map: the first cell of a one-cell circle is the cell of the centre
VP_DRIVER drv_circle_small() {
    Map m;
    line = false;
    Point2d c = any_point("cx", "cy");
    double r = vp_real("radius");
    vp_assume(!vp_pure_inside(c.x, c.y) || r <= m.res);
    CircleArea a(c, r, &m);
    a.begin();
    int x, y;
    if (!vp_pure_inside(c.x, c.y) || r <= 0) {
        vp_reach("empty circle");
        vp_assert(!a.next(), "a circle outside of the map or without extent has no cells");
        return;
    }
    vp_assert(a.next(), "a circle around a point of the map has a cell");
    if (r <= m.res) {
        a.getCell(x, y);
        vp_reach("one cell");
        vp_assert(x == (int)vp_pure_u_cx(c.x, c.y) && y == (int)vp_pure_u_cy(c.x, c.y), "a circle no larger than a cell is the cell of its centre");
        vp_assert(!a.next(), "a circle no larger than a cell has one cell");
        Point2d d = any_point("dx", "dy");
        a.setCenter(d, &m);
        a.begin();
        vp_assert(a.next(), "a moved circle keeps its cells");
        a.getCell(x, y);
        bool in = vp_pure_inside(d.x, d.y);
        vp_reach("moved");
        vp_assert(x == (int)(in ? vp_pure_u_cx(d.x, d.y) : vp_pure_u_cx(c.x, c.y)), "a moved circle is centred at the new point if that is in the map");
        vp_assert(y == (int)(in ? vp_pure_u_cy(d.x, d.y) : vp_pure_u_cy(c.x, c.y)), "a moved circle is centred at the new point if that is in the map (y)");
    }
}
// what is buffered for a cell is what is read back for it
VP_DRIVER drv_buffer() {
    vp_opaque("lib_path::CircleArea::init");
    Map m;
    line = false;
    CircleBuffer a(any_point("cx", "cy"), vp_real("radius"), &m);
    vp_bounds(1);
    a.begin();
    if (!a.next()) return;
    int u = vp_u8("u"), v = vp_u8("w"), x1, y1, x2, y2, x, y;
    a.setValue(u);
    a.getCell(x1, y1);
    bool two = a.next();
    if (two) { a.setValue(v); a.getCell(x2, y2); }
    a.begin();
    vp_assert(a.next(), "a buffer can be walked again");
    a.getCell(x, y);
    vp_reach("buffered");
    vp_assert(x == x1 && y == y1, "walks start at the same cell");
    vp_assert(a.getValue() == u, "the first buffered value is read back");
    vp_assert(a.next() == two, "walks have the same length");
    if (two) {
        a.getCell(x, y);
        vp_reach("second");
        vp_assert(x == x2 && y == y2, "walks visit the cells in the same order");
        vp_assert(a.getValue() == v, "the second buffered value is read back");
    }
}
// a line: cells from the start cell to the end cell
VP_DRIVER drv_line() {
    Map m;
    Point2d s = any_point("sx", "sy"), e = any_point("ex", "ey");
    int sx = vp_pure_u_cx(s.x, s.y), sy = vp_pure_u_cy(s.x, s.y), ex = vp_pure_u_cx(e.x, e.y), ey = vp_pure_u_cy(e.x, e.y);
    line = true; any = false;
    pushed = 0; lx = sx; ly = sy;
    LineArea a(s, e, &m);
    a.begin();
    int x, y;
    if (!vp_pure_inside(s.x, s.y) || !vp_pure_inside(e.x, e.y)) {
        vp_reach("no line");
        vp_assert(!a.next(), "a line with an endpoint outside of the map has no cells");
        return;
    }
    vp_assert(any, "a line between points of the map has cells");
    vp_assert(lx == ex && ly == ey, "a line ends in the cell of its end point");
    size_t n = 0;
    while (a.next()) ++n;
    vp_reach("line");
    vp_assert(n == pushed, "walking a line visits each of its cells once");
    if (sx == ex && sy == ey) {
        a.begin();
        a.next();
        a.getCell(x, y);
        vp_reach("point line");
        vp_assert(x == sx && y == sy, "a line within a cell is that cell");
        vp_assert(!a.next(), "a line within a cell has one cell");
    }
}
// set() replaces the cells
VP_DRIVER drv_line_again() {
    Map m;
    Point2d s = any_point("sx", "sy");
    line = false;
    LineArea a(s, s, &m);
    Point2d s2 = any_point("sx2", "sy2"), e2 = any_point("ex2", "ey2");
    line = true; any = false;
    pushed = 0;
    int sx = vp_pure_u_cx(s2.x, s2.y), sy = vp_pure_u_cy(s2.x, s2.y), ex = vp_pure_u_cx(e2.x, e2.y), ey = vp_pure_u_cy(e2.x, e2.y);
    lx = sx; ly = sy;
    a.set(s2, e2, &m);
    a.begin();
    if (!vp_pure_inside(s2.x, s2.y) || !vp_pure_inside(e2.x, e2.y)) {
        vp_reach("no line again");
        vp_assert(!a.next(), "a line set to an endpoint outside of the map has no cells");
        return;
    }
    vp_assert(any, "a line between points of the map has cells");
    vp_assert(lx == ex && ly == ey, "a line set again ends in the cell of its new end point");
    size_t n = 0;
    while (a.next()) ++n;
    vp_reach("line again");
    vp_assert(n == pushed, "a line set again has only its new cells");
}
