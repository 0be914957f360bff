//@src src/common/GridMap2d.cpp src/common/SimpleGridMap2d.cpp src/common/RotatedGridMap2d.cpp src/common/Point2d.cpp src/common/Pose2d.cpp src/common/MapMath.cpp
// Conversions between points and cells.
#include "map_common.h"
#include <cslibs_path_planning/common/MapMath.h>
#include <cslibs_path_planning/common/Pose2d.h>
#include <cmath>

static SimpleGridMap2d& set_up(SimpleGridMap2d& m) {
    Point2d o;
    o.x = vp_real("ox"); o.y = vp_real("oy");
    m.setOrigin(o);
    return m;
}
// cell -> point -> cell
template <class M> static void round_trip(M& m, const Dim& d) {
    unsigned x = vp_u32("x"), y = vp_u32("y"), x2, y2;
    double px, py, sx, sy;
    m.cell2point(x, y, px, py);
    bool in = m.point2cell(px, py, x2, y2);
    vp_reach("round trip");
    vp_assert(x2 == x, "the point of a cell lies in that cell (x)");
    vp_assert(y2 == y, "the point of a cell lies in that cell (y)");
    vp_assert(in == (x < d.w && y < d.h), "converting a point reports whether it lies in the map");
    vp_assert(m.isInMap((int)x, (int)y) == (x < d.w && y < d.h), "the cell test accepts exactly the cells of the map");
    vp_assert(m.isInMap(px, py) == in, "the point test agrees with the conversion");
    m.cell2pointSubPixel(x + 0.5, y + 0.5, sx, sy);
    vp_assert(sx == px && sy == py, "the point of a cell is its middle");
    float fx, fy;
    m.cell2point(x, y, fx, fy);
    vp_assert(fx == px && fy == py, "single and double precision conversions agree up to rounding");
}
// point -> cell, point -> sub-pixel -> point
template <class M> static void points(M& m, const Dim& d) {
    double px = vp_real("px"), py = vp_real("py"), mx, my, qx, qy;
    unsigned x, y;
    bool a = m.point2cellSubPixel(px, py, mx, my);
    m.cell2pointSubPixel(mx, my, qx, qy);
    vp_reach("sub-pixel");
    vp_assert(qx == px && qy == py, "sub-pixel conversions are inverse (point)");
    bool in = mx >= 0 && my >= 0 && mx < d.w && my < d.h;
    vp_assert(a == in, "the sub-pixel conversion reports whether the point lies in the map");
    bool b = m.point2cell(px, py, x, y);
    vp_assert(b == in, "the cell conversion reports whether the point lies in the map");
    vp_assert(m.isInMap(px, py) == in, "the point test accepts exactly the area of the cells");
    if (in) {
        vp_reach("inside");
        vp_assert(x <= mx && mx < x + 1.0, "a point is converted to the cell that contains it (x)");
        vp_assert(y <= my && my < y + 1.0, "a point is converted to the cell that contains it (y)");
    }
    double cx = vp_real("cx"), cy = vp_real("cy"), nx, ny;
    m.cell2pointSubPixel(cx, cy, px, py);
    m.point2cellSubPixel(px, py, nx, ny);
    vp_assert(nx == cx && ny == cy, "sub-pixel conversions are inverse (cell)");
}
VP_DRIVER drv_simple_cells() { Dim d = any_dim(); SimpleGridMap2d m(d.w, d.h, d.r); set_up(m); round_trip(m, d); }
VP_DRIVER drv_simple_points() { Dim d = any_dim(); SimpleGridMap2d m(d.w, d.h, d.r); set_up(m); points(m, d); }
VP_DRIVER drv_rotated_cells() { Dim d = any_dim(); RotatedGridMap2d m(d.w, d.h, vp_real("yaw"), d.r); set_up(m); round_trip(m, d); }
VP_DRIVER drv_rotated_points() { Dim d = any_dim(); RotatedGridMap2d m(d.w, d.h, vp_real("yaw"), d.r); set_up(m); points(m, d); }

// layout: cells are squares of the resolution, the grid starts at the origin and is turned by the map's rotation
VP_DRIVER drv_simple_layout() {
    Dim d = any_dim();
    SimpleGridMap2d m(d.w, d.h, d.r);
    Point2d o;
    o.x = vp_real("ox"); o.y = vp_real("oy");
    m.setOrigin(o);
    unsigned x = vp_u32("x"), y = vp_u32("y");
    double px, py;
    GridMap2d& g = m;
    g.cell2point(x, y, px, py);
    vp_reach("layout");
    vp_assert(px == o.x + (x + 0.5) * d.r && py == o.y + (y + 0.5) * d.r, "cell (x,y) covers the square at origin + resolution * (x,y)");
    vp_assert(g.getOrigin().x == o.x && g.getOrigin().y == o.y, "the origin is the one that was set");
    vp_assert(g.getResolution() == d.r && g.getWidth() == d.w && g.getHeight() == d.h && g.getRotation() == 0, "size and resolution are the ones that were set");
    Point2d p;
    g.cell2point(x, y, p);
    vp_assert(p.x == px && p.y == py, "the point overload agrees");
    unsigned x2, y2, x3, y3, x4, y4;
    p.x = vp_real("qx"); p.y = vp_real("qy");
    bool a = g.point2cell(p, x2, y2), b = g.point2cell(p.x, p.y, x3, y3);
    vp_assert(a == b && x2 == x3 && y2 == y3, "point and coordinate overloads agree");
    Pose2d q;
    q.x = p.x; q.y = p.y; q.theta = vp_real("th");
    bool c = g.pose2cell(q, x4, y4);
    vp_assert(c == b && x4 == x3 && y4 == y3, "pose and coordinate overloads agree");
    vp_assert(g.isInMap(p) == g.isInMap(p.x, p.y), "point and coordinate inside tests agree");
    double r2 = vp_real("r2");
    m.setResolution(r2);
    vp_assert(g.getResolution() == r2, "the resolution is the one that was set last");
}
VP_DRIVER drv_rotated_layout() {
    Dim d = any_dim();
    double yaw = vp_real("yaw");
    RotatedGridMap2d m(d.w, d.h, yaw, d.r);
    set_up(m);
    unsigned x = vp_u32("x"), y = vp_u32("y");
    double ax, ay, bx, by, cx, cy;
    GridMap2d& g = m;
    g.cell2point(x, y, ax, ay);
    g.cell2point(x + 1, y, bx, by);
    g.cell2point(x, y + 1, cx, cy);
    vp_reach("layout");
    vp_assert(bx - ax == d.r * std::cos(yaw) && by - ay == d.r * std::sin(yaw), "the rows of a rotated map run along its rotation");
    vp_assert(cx - ax == -d.r * std::sin(yaw) && cy - ay == d.r * std::cos(yaw), "the columns of a rotated map run across its rotation");
    vp_assert(g.getRotation() == yaw, "the rotation is the one that was set");
}
// the corner of cell (0,0) of a rotated map is the origin that was set
VP_DRIVER drv_rotated_origin() {
    Dim d = any_dim();
    double yaw = vp_real("yaw");
    RotatedGridMap2d m(d.w, d.h, yaw, d.r);
    Point2d o;
    o.x = vp_real("ox"); o.y = vp_real("oy");
    m.setOrigin(o);
    double px, py;
    m.cell2pointSubPixel(0, 0, px, py);
    vp_reach("origin");
    vp_assert(px == o.x && py == o.y, "the grid of a rotated map starts at the origin that was set");
}
struct Map : SimpleGridMap2d { Map(const Dim& d) : SimpleGridMap2d(d.w, d.h, d.r) {} };
VP_DRIVER drv_mapmath() {
    Dim d = any_dim();
    SimpleGridMap2d m(d.w, d.h, d.r);
    set_up(m);
    double px = vp_real("px"), py = vp_real("py"), mx, my, qx, qy, sx, sy;
    pos2map(px, py, mx, my, m);
    m.point2cellSubPixel(px, py, sx, sy);
    map2pos(mx, my, qx, qy, m);
    vp_reach("mapmath");
    vp_assert(mx == sx && my == sy, "position to map conversion agrees with the map");
    vp_assert(qx == px && qy == py, "map to position conversion is the inverse");
    double cx = vp_real("cx"), cy = vp_real("cy");
    map2pos(cx, cy, px, py, m);
    pos2map(px, py, mx, my, m);
    vp_assert(mx == cx && my == cy, "position to map conversion is the inverse");
}
VP_DRIVER drv_mapmath_pose() {
    Dim d = any_dim();
    SimpleGridMap2d m(d.w, d.h, d.r);
    set_up(m);
    Pose2d p;
    p.x = vp_real("px"); p.y = vp_real("py"); p.theta = vp_real("th");
    Pose2d q = pos2map(p, m);
    Pose2d r = map2pos(q, m);
    double mx, my;
    pos2map(p.x, p.y, mx, my, m);
    vp_reach("pose");
    vp_assert(q.x == mx && q.y == my && q.theta == p.theta, "converting a pose converts its position and keeps its orientation");
    vp_assert(r.x == p.x && r.y == p.y && r.theta == p.theta, "pose conversions are inverse");
}
