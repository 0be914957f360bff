//@src src/common/Bresenham2d.cpp src/common/GridMap2d.cpp src/common/Point2d.cpp
// Walking a line over a map.
#include "obs_map.h"
#include <cslibs_path_planning/common/Bresenham2d.h>
using namespace lib_path;

static int X0, Y0, X1, Y1;
static bool valid;
static int dir(int a, int b) { return a < b ? 1 : a > b ? -1 : 0; }

static Point2d any_point(const char* x, const char* y) { Point2d p; p.x = vp_real(x); p.y = vp_real(y); return p; }
static void set_points(Bresenham2d& b, ObsMap& m) {
    Point2d s = any_point("sx", "sy"), e = any_point("ex", "ey");
    valid = vp_pure_inside(s.x, s.y) && vp_pure_inside(e.x, e.y);
    X0 = vp_pure_u_cx(s.x, s.y); Y0 = vp_pure_u_cy(s.x, s.y);
    X1 = vp_pure_u_cx(e.x, e.y); Y1 = vp_pure_u_cy(e.x, e.y);
    b.set(&m, s, e);
}
static void set_cells(Bresenham2d& b, ObsMap& m) {
    X0 = vp_int("x0"); Y0 = vp_int("y0"); X1 = vp_int("x1"); Y1 = vp_int("y1");
    valid = vp_pure_in(X0, Y0) && vp_pure_in(X1, Y1);
    // cells of the map are not negative
    vp_assume(!valid || (X0 >= 0 && Y0 >= 0 && X1 >= 0 && Y1 >= 0));
    b.setGrid(&m, X0, Y0, X1, Y1);
}
// the current cell is judged by the map
static void verdicts(const Bresenham2d& b, ObsMap& m) {
    unsigned x, y;
    b.coordinates(x, y);
    vp_assert(b.isFree() == vp_pure_free(x, y), "the cell of a line is free exactly if it is free in the map");
    vp_assert(b.isOccupied() == vp_pure_occupied(x, y), "the cell of a line is occupied exactly if it is occupied in the map");
    vp_assert(b.isNoInformation() == vp_pure_unknown(x, y), "the cell of a line is unknown exactly if it is unknown in the map");
    Point2d p;
    b.point(p);
    vp_assert(p.x == m.ox + (x + .5) * m.res && p.y == m.oy + (y + .5) * m.res, "the point of a line is the point of its cell");
}
static void walk(Bresenham2d& b, ObsMap& m) {
    unsigned x, y;
    if (!valid) {
        vp_reach("outside");
        vp_assert(!b.next(), "there is no step if an end is outside of the map");
        vp_assert(!b.next(), "there is still no step if an end is outside of the map");
        verdicts(b, m);
        return;
    }
    b.coordinates(x, y);
    vp_reach("first");
    vp_assert((int)x == X0 && (int)y == Y0, "a line begins in the cell of its start");
    verdicts(b, m);
    int lx = X0, ly = Y0, tx = dir(X0, X1), ty = dir(Y0, Y1);
    bool point = X0 == X1 && Y0 == Y1;
    while (b.next()) {
        b.coordinates(x, y);
        int cx = (int)x, cy = (int)y;
        vp_reach("step");
        vp_assert(!point, "a line within a cell has no steps");
        vp_assert(cx == lx || cx == lx + tx, "a step goes towards the end (x)");
        vp_assert(cy == ly || cy == ly + ty, "a step goes towards the end (y)");
        vp_assert(cx != lx || cy != ly, "a step goes to another cell");
        lx = cx; ly = cy;
    }
    b.coordinates(x, y);
    vp_reach("end");
    vp_assert((int)x == X1 && (int)y == Y1, "a line ends in the cell of its end");
    vp_assert((int)x == lx && (int)y == ly, "the last cell is not left");
    vp_assert(!b.next(), "an ended line stays ended");
    verdicts(b, m);
}
VP_DRIVER drv_points() { ObsMap m; Bresenham2d b; set_points(b, m); walk(b, m); }
VP_DRIVER drv_cells() { ObsMap m; Bresenham2d b; set_cells(b, m); walk(b, m); }
// a line set again is walked as by a fresh object
static void same(const Bresenham2d& a, const Bresenham2d& b) {
    unsigned x, y, u, v;
    a.coordinates(x, y);
    b.coordinates(u, v);
    vp_assert(x == u && y == v, "a line set again visits the cells of the new line");
}
VP_DRIVER drv_again() {
    ObsMap m, n;
    Bresenham2d b, c;
    int x0 = vp_int("x0"), y0 = vp_int("y0"), x1 = vp_int("x1"), y1 = vp_int("y1");
    vp_assume(x0 >= 0 && y0 >= 0 && x1 >= 0 && y1 >= 0);
    b.setGrid(&m, vp_int("x0'"), vp_int("y0'"), vp_int("x1'"), vp_int("y1'"));
    if (vp_bool("walked")) b.next();
    b.setGrid(&n, x0, y0, x1, y1);
    c.setGrid(&n, x0, y0, x1, y1);
    same(b, c);
    verdicts(b, n);
    vp_assert(b.next() == c.next(), "a line set again is as long as the new line");
    same(b, c);
    vp_assert(b.next() == c.next(), "a line set again is as long as the new line (2)");
    same(b, c);
    vp_reach("again");
}
// the cells of the points describe the same line
VP_DRIVER drv_agree() {
    ObsMap n;
    Bresenham2d b, c;
    Point2d s = any_point("sx", "sy"), e = any_point("ex", "ey");
    int x0 = vp_pure_u_cx(s.x, s.y), y0 = vp_pure_u_cy(s.x, s.y), x1 = vp_pure_u_cx(e.x, e.y), y1 = vp_pure_u_cy(e.x, e.y);
    vp_assume(vp_pure_inside(s.x, s.y) && vp_pure_inside(e.x, e.y));
    vp_assume(vp_pure_in(x0, y0) && vp_pure_in(x1, y1));
    b.set(&n, s, e);
    c.setGrid(&n, x0, y0, x1, y1);
    same(b, c);
    vp_assert(b.next() == c.next(), "points and their cells describe lines of the same length");
    same(b, c);
    vp_assert(b.next() == c.next(), "points and their cells describe lines of the same length (2)");
    same(b, c);
    vp_reach("agree");
}
// no line yet
VP_DRIVER drv_unset() { Bresenham2d b; vp_reach("unset"); vp_assert(!b.next(), "there is no step before a line is set"); }
// lines along an axis or a diagonal are exact
static void straight(int mx, int my) {
    ObsMap m;
    Bresenham2d b;
    int n = vp_int("n"), x0 = vp_int("x0"), y0 = vp_int("y0");
    vp_assume(n > 0);
    int x1 = x0 + mx * n, y1 = y0 + my * n, k = 0;
    vp_assume(x0 >= 0 && y0 >= 0 && x1 >= 0 && y1 >= 0);
    vp_assume(vp_pure_in(x0, y0) && vp_pure_in(x1, y1));
    b.setGrid(&m, x0, y0, x1, y1);
    unsigned x, y;
    while (b.next()) {
        ++k;
        b.coordinates(x, y);
        vp_reach("straight step");
        vp_assert((int)x == x0 + mx * k && (int)y == y0 + my * k, "a straight line goes straight");
    }
    vp_reach("straight");
    vp_assert(k == n, "a straight line has no more and no less cells");
}
VP_DRIVER drv_horizontal() { straight(vp_bool("left") ? -1 : 1, 0); }
VP_DRIVER drv_vertical() { straight(0, vp_bool("up") ? -1 : 1); }
VP_DRIVER drv_diagonal() { straight(vp_bool("left") ? -1 : 1, vp_bool("up") ? -1 : 1); }
