//@src src/common/GridMap2d.cpp src/common/SimpleGridMap2d.cpp src/common/Bresenham2d.cpp src/common/Point2d.cpp src/common/Pose2d.cpp
// The cells a search stores for a map.
#include "search_nodes.h"
#include <cstring>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/generic/MapManager.hpp>
static unsigned w, h;
static unsigned X, Y;                // one arbitrary cell
static bool seen;            // whether it was initialised
struct C;
static C* where;                     // in which place
struct C : HeuristicNode<Pose2d> {
    int i;
    static std::size_t allocated;       // by the last array
    static void* operator new[](std::size_t n) { allocated = n; return ::operator new[](n); }
    static void operator delete[](void* p) { ::operator delete[](p); }
    template <class V> static void init(C& c, V x, V y) {
        c.i = 0;
        vp_assert(x < ::w && y < ::h, "only cells of the map are initialised");
        if (x == X && y == Y) { seen = true; where = &c; }
        else vp_assert(!seen || &c != where, "no two cells share a place");
    }
};
std::size_t C::allocated;
typedef GridMapManager<C> Grid;
static void fresh(Grid& g) {
    vp_assert(!C::allocated || C::allocated >= (std::size_t) (w * h) * sizeof(C), "the cells fit into the memory allocated for them");
    vp_assert(seen, "every cell of the map is initialised");
    vp_assert(g.lookup((int)X, (int)Y) == where, "the cell at a position is delivered");
}
VP_DRIVER drv_grid_fresh() {
    w = vp_u32("w"); h = vp_u32("h");
    vp_assume(w > 0 && h > 0);
    X = vp_u32("X"); Y = vp_u32("Y");
    vp_assume(X < w && Y < h);
    SimpleGridMap2d map(w, h, 1.0);
    Grid g;
    seen = false; where = 0;
    g.setMap(&map);
    fresh(g);
    seen = false; where = 0;
    if (vp_bool("other map")) {
        w = vp_u32("w2"); h = vp_u32("h2");
        vp_assume(w > 0 && h > 0);
        vp_assume(X < w && Y < h);
        SimpleGridMap2d other(w, h, 1.0);
        g.setMap(&other);
        fresh(g);
        vp_reach("other");
    } else {
        g.setMap(&map);
        fresh(g);
        vp_reach("again");
    }
}
// positions with and without a cell
VP_DRIVER drv_grid_lookup() {
    w = vp_u32("w"); h = vp_u32("h");
    vp_assume(w > 0 && h > 0);
    SimpleGridMap2d map(w, h, 1.0);
    GridMapManager<N> g;
    g.setMap(&map);
    vp_assert(g.getMap() == &map && g.getResolution() == 1.0, "the map is the one that was set");
    int x = vp_int("x"), y = vp_int("y"), x2 = vp_int("x2"), y2 = vp_int("y2");
    bool in = x >= 0 && y >= 0 && x < (int)w && y < (int)h;
    vp_assume(x2 >= 0 && y2 >= 0 && x2 < (int)w && y2 < (int)h);
    N *n = 0, *n2 = g.lookup(x2, y2);
    bool out = false;
    try { n = g.lookup(x, y); } catch (OutsideMapException&) { out = true; }
    vp_assert(out == !in, "exactly the positions in the map have a cell");
    vp_assert(g.contains(x, y) == in, "exactly the positions in the map are contained");
    if (!out) {
        vp_reach("in");
        vp_assert((n == n2) == (x == x2 && y == y2), "different positions have different cells");
    } else vp_reach("out");
}
template <class F> static void fraction(F f) {
    w = vp_u32("w"); h = vp_u32("h");
    vp_assume(w > 0 && h > 0);
    SimpleGridMap2d map(w, h, 1.0);
    GridMapManager<N> g;
    g.setMap(&map);
    double x = vp_real("x"), y = vp_real("y");
    bool in = x >= 0 && y >= 0 && x < w && y < h;
    N *n = 0;
    bool out = false;
    try { n = f(g, x, y); } catch (OutsideMapException&) { out = true; }
    vp_assert(out == !in, "exactly the positions in the map have a cell");
    vp_assert(g.contains(x, y) == in, "exactly the positions in the map are contained");
    if (!out) {
        vp_reach("in");
        vp_assert(n == g.lookup((int)std::floor(x), (int)std::floor(y)), "a position has the cell it lies in");
    }
}
static N* by_position(GridMapManager<N>& g, double x, double y) { return g.lookup(x, y); }
static N* by_pose(GridMapManager<N>& g, double x, double y) { Pose2d p; p.x = x; p.y = y; p.theta = vp_real("theta"); return g.lookup(p); }
VP_DRIVER drv_grid_position() { fraction(by_position); }
VP_DRIVER drv_grid_pose() { fraction(by_pose); }

// Managers whose states have a heading (and a direction), on a map of 3 by 2 cells.
typedef OrientedNode<HeuristicNode<Pose2d> > HN;
typedef DirectionalNode<HN> DN;
typedef StateSpaceManager<HN> Headings;
typedef DirectionalStateSpaceManager<DN> Directions;
static HN* at(Headings& g, int x, int y, double t, bool) { return g.lookup(x, y, t); }
static DN* at(Directions& g, int x, int y, double t, bool f) { return g.lookup(x, y, t, f); }
static HN* at(Headings& g, double x, double y, double t, bool) { return g.lookup(x, y, t); }
static DN* at(Directions& g, double x, double y, double t, bool f) { return g.lookup(x, y, t, f); }
static HN* pose(Headings& g, double x, double y, double t, bool) { Pose2d p; p.x = x; p.y = y; p.theta = t; return g.lookup(p); }
static DN* pose(Directions& g, double x, double y, double t, bool f) {
    if (f) { Pose2d p; p.x = x; p.y = y; p.theta = t; return g.lookup(p); }
    DN p; p.x = x; p.y = y; p.theta = t; p.forward = f;
    return g.lookup(p);
}
template <class G, class T> static void lookups(bool directed) {
    vp_unroll(3, 40);
    SimpleGridMap2d map(3, 2, 1.0);
    G g;
    g.setMap(&map);
    int x = vp_int("x"), y = vp_int("y"), x2 = vp_int("x2"), y2 = vp_int("y2");
    double t = vp_real("theta"), t2 = vp_real("theta2");
    vp_assume(t >= -M_PI && t < M_PI && t2 >= -M_PI && t2 < M_PI);
    bool f = vp_bool("forward"), f2 = vp_bool("forward2");
    bool in = x >= 0 && y >= 0 && x < 3 && y < 2;
    vp_assume(x2 >= 0 && y2 >= 0 && x2 < 3 && y2 < 2);
    T *n = 0, *n2 = at(g, x2, y2, t2, f2);
    bool out = false;
    try { n = at(g, x, y, t, f); } catch (OutsideMapException&) { out = true; }
    vp_assert(out == !in, "exactly the positions in the map have states");
    vp_assert(g.contains(x, y) == in, "exactly the positions in the map are contained");
    if (out) { vp_reach("out"); return; }
    vp_reach("in");
    if (x != x2 || y != y2) vp_assert(n != n2, "different positions have different states");
    else if (f != f2) vp_assert(n != n2 || !directed, "different directions have different states");
    else if (t == t2) vp_assert(n == n2, "a position, heading and direction has one state");
}
template <class G, class T> static void positions(T* (*look)(G&, double, double, double, bool)) {
    vp_unroll(3, 40);
    SimpleGridMap2d map(3, 2, 1.0);
    G g;
    g.setMap(&map);
    double x = vp_real("x"), y = vp_real("y"), t = vp_real("theta");
    vp_assume(t >= -M_PI && t < M_PI);
    bool f = vp_bool("forward");
    bool in = x >= 0 && y >= 0 && x < 3 && y < 2;
    T *n = 0;
    bool out = false;
    try { n = look(g, x, y, t, f); } catch (OutsideMapException&) { out = true; }
    vp_assert(out == !in, "exactly the positions in the map have states");
    if (!out) {
        vp_reach("in");
        vp_assert(n == at(g, (int)std::floor(x), (int)std::floor(y), t, f), "a position has the state of the cell it lies in");
    }
}
template <int I, int N> struct Pick { static int of(int v) { return v == I ? I : Pick<I + 1, N>::of(v); } };
template <int N> struct Pick<N, N> { static int of(int) { return 0; } };
template <int N> static int pick(const char* name) { return Pick<1, N>::of(vp_int(name)); }
template <class G, class T, int n> static void slots() {
    vp_unroll(40, 40);
    SimpleGridMap2d map(3, 2, 1.0);
    G g;
    g.setMap(&map);
    int i = pick<n>("heading"), x = pick<3>("x"), y = pick<2>("y");
    bool f = vp_bool("forward");
    T* s = at(g, x, y, (i + 0.5) * 2 * M_PI / n - M_PI, f);
    vp_assert(s->x == x && s->y == y, "a state has its position");
    vp_assert(s->distance == INFINITY && s->prev == 0 && !s->isMarked(T::MARK_OPEN) && !s->isMarked(T::MARK_CLOSED), "a state is fresh");
    for (int j = 0; j < n; ++j) if (j > i + 1 || j < i - 1)
        vp_assert(s != at(g, x, y, (j + 0.5) * 2 * M_PI / n - M_PI, f), "different headings have different states");
    vp_reach("checked");
}
VP_DRIVER drv_heading_slots() { slots<Headings, HN, 36>(); }
VP_DRIVER drv_direction_slots() { slots<Directions, DN, 32>(); }
VP_DRIVER drv_heading_lookup() { lookups<Headings, HN>(false); }
VP_DRIVER drv_heading_position() { positions<Headings, HN>(at); }
VP_DRIVER drv_heading_pose() { positions<Headings, HN>(pose); }
VP_DRIVER drv_direction_lookup() { lookups<Directions, DN>(true); }
VP_DRIVER drv_direction_position() { positions<Directions, DN>(at); }
VP_DRIVER drv_direction_pose() { positions<Directions, DN>(pose); }
