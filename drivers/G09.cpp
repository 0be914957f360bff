//@src src/common/GridMap2d.cpp src/common/SimpleGridMap2d.cpp src/common/Bresenham2d.cpp src/common/Point2d.cpp src/common/Pose2d.cpp
// The states a search stores for a map with a margin, in chunks that are allocated when they are needed.
#include "search_nodes.h"
#include <cstring>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/generic/SteeringNode.hpp>
#include <cslibs_path_planning/generic/MapManager.hpp>
typedef DirectionalNode<SteeringNode<HeuristicNode<Pose2d> > > S;
typedef DynamicDirectionalStateSpaceManager<S> Dyn;
static bool sized;                   // whether the map has a fixed size
namespace std { void __throw_out_of_range_fmt(const char*, ...) { vp_assert(!sized, "every state has a chunk"); throw 1; } }
static unsigned w, h;
static double slot(double theta) { return std::floor((MathHelper::AngleClamp(theta) + M_PI) / (2 * M_PI) * 31); }
static const int M = 32;             // the margin
static void make(Dyn& g, SimpleGridMap2d& map) {
    g.w = g.h = 0;
    g.theta_slots = 1;               // keeps the initialisation of a chunk short
    g.setMap(&map);
}
static bool inside(int x, int y) { return x >= -M && y >= -M && x < (int)w + M && y < (int)h + M; }
template <int W, int H> static void states() {
    vp_unroll(3, 40);
    w = W; h = H; sized = true;
    SimpleGridMap2d map(w, h, 1.0);
    Dyn g;
    make(g, map);
    int x = vp_int("x"), y = vp_int("y"), x2 = vp_int("x2"), y2 = vp_int("y2");
    double t = vp_real("theta");
    bool f = vp_bool("forward"), f2 = vp_bool("forward2");
    bool in = inside(x, y);
    vp_assume(inside(x2, y2));
    S *n = 0;
    bool out = false;
    try { n = g.lookup(x, y, t, 0, f); } catch (OutsideMapException&) { out = true; }
    vp_assert(out == !in, "exactly the positions in the map and its margin have states");
    vp_assert(g.contains(x, y) == in, "exactly the positions in the map and its margin are contained");
    if (out) { vp_reach("out"); return; }
    vp_reach("in");
    vp_assert(g.lookup(x, y, t, 0, f) == n, "a position, heading and direction has one state");
    vp_assert(g.hasNode(x, y, 0, f), "a state that was looked up exists");
    S* n2 = g.lookup(x2, y2, t, 0, f2);
    vp_assert((n == n2) == (x == x2 && y == y2 && f == f2), "different positions and directions have different states");
    vp_assert(g.lookup(x, y, t, 0, f) == n, "a state stays where it is");
}
VP_DRIVER drv_states() { states<40, 20>(); }
VP_DRIVER drv_sizes() {
    vp_unroll(3, 40);
    sized = false;
    w = vp_u32("w"); h = vp_u32("h");
    vp_assume(w > 0 && h > 0);
    SimpleGridMap2d map(w, h, 1.0);
    Dyn g;
    make(g, map);
    int x = vp_int("x"), y = vp_int("y");
    double t = vp_real("theta");
    bool f = vp_bool("forward");
    bool in = inside(x, y);
    S *n = 0;
    bool out = false;
    try { n = g.lookup(x, y, t, 0, f); } catch (OutsideMapException&) { out = true; }
    vp_assert(out == !in, "exactly the positions in the map and its margin have states");
    vp_assert(g.contains(x, y) == in, "exactly the positions in the map and its margin are contained");
    if (out) { vp_reach("out"); return; }
    vp_reach("in");
    vp_assert(g.lookup(x, y, t, 0, f) == n, "a position, heading and direction has one state");
}

// The two states of a position are initialised for it; one of them is looked at.
static int X, Y;
static bool which, turn, seen;
struct C;
static C* where;
struct C : Pose2d {
    double distance; char marked, custom; C* prev;
    bool forward; int steering_angle;
    template <class V> static void init(C& c, V x, V y, double theta = 0.0, bool forward = true) {
        if (x == X && y == Y && turn == which) { seen = true; where = &c; }
        else vp_assert(!seen || &c != where, "no two states share a place");
        turn = !turn;
    }
};
template <class G> static void found(G& g) {
    X = vp_int("X"); Y = vp_int("Y");
    vp_assume(inside(X, Y));
    which = vp_bool("which"); turn = false; seen = false; where = 0;
    if (which) vp_reach("second");
    double t = vp_real("theta");
    C *n = g.lookup(X, Y, t, 0, true), *n2 = g.lookup(X, Y, t, 0, false);
    vp_assert(seen && (where == n || where == n2), "a position has the states that were initialised for it");
    vp_reach("found");
}
VP_DRIVER drv_fresh() {
    vp_unroll(3, 40);
    w = 40; h = 20; sized = true;
    SimpleGridMap2d map(w, h, 1.0);
    DynamicDirectionalStateSpaceManager<C> g;
    g.w = g.h = 0;
    g.theta_slots = 1;
    g.setMap(&map);
    found(g);
}
VP_DRIVER drv_again() {
    vp_unroll(3, 40);
    w = 20; h = 20; sized = true;
    SimpleGridMap2d map(w, h, 1.0);
    DynamicDirectionalStateSpaceManager<C> g;
    g.w = g.h = 0;
    g.theta_slots = 1;
    g.setMap(&map);
    which = turn = seen = false; where = 0; X = Y = 1000;
    g.lookup(3, 4, 0.5, 0, true);
    if (vp_bool("other map")) {
        w = 40; h = 10;
        SimpleGridMap2d other(w, h, 1.0);
        g.setMap(&other);
        found(g);
    } else {
        g.setMap(&map);
        found(g);
    }
}

// positions between the cells, and poses
static S* at(Dyn& g, double x, double y, double t, bool f) { return g.lookup(x, y, t, 0, f); }
static S* pose(Dyn& g, double x, double y, double t, bool f) {
    if (f) { Pose2d p; p.x = x; p.y = y; p.theta = t; return g.lookup(p); }
    S p; p.x = x; p.y = y; p.theta = t; p.forward = f; p.steering_angle = 0;
    return g.lookup(p);
}
static void positions(S* (*look)(Dyn&, double, double, double, bool)) {
    vp_unroll(3, 40);
    w = 40; h = 20; sized = true;
    SimpleGridMap2d map(w, h, 1.0);
    Dyn g;
    make(g, map);
    double x = vp_real("x"), y = vp_real("y"), t = vp_real("theta");
    bool f = vp_bool("forward");
    bool in = x >= -M && y >= -M && x < (int)w + M && y < (int)h + M;
    S *n = 0;
    bool out = false;
    try { n = look(g, x, y, t, f); } catch (OutsideMapException&) { out = true; }
    vp_assert(out == !in, "exactly the positions in the map and its margin have states");
    vp_assert(g.contains(x, y) == in, "exactly the positions in the map and its margin are contained");
    if (out) { vp_reach("out"); return; }
    vp_reach("in");
    vp_assert(n == g.lookup((int)std::floor(x), (int)std::floor(y), t, 0, f), "a position has the state of the cell it lies in");
}
VP_DRIVER drv_position() { positions(at); }
VP_DRIVER drv_pose() { positions(pose); }
// headings
template <int I, int N> struct Pick { static int of(int v) { return v == I ? I : Pick<I + 1, N>::of(v); } };
template <int N> struct Pick<N, N> { static int of(int) { return 0; } };
VP_DRIVER drv_headings() {
    const int n = 32;
    w = 40; h = 20; sized = true;
    SimpleGridMap2d map(w, h, 1.0);
    Dyn g;
    g.w = g.h = 0;
    g.setMap(&map);
    int x = 35, y = 7;
    vp_unroll(3, 40);
    g.lookup(x, y, 0.1, 0, true);
    vp_unroll(40, 40);
    int i = Pick<1, n>::of(vp_int("heading"));
    bool f = vp_bool("forward");
    S* s = g.lookup(x, y, (i + 0.5) * 2 * M_PI / n - M_PI, 0, f);
    for (int j = 0; j < n; ++j) if (j > i + 1 || j < i - 1)
        vp_assert(s != g.lookup(x, y, (j + 0.5) * 2 * M_PI / n - M_PI, 0, f), "different headings have different states");
    vp_reach("checked");
}
VP_DRIVER drvt_states() { states<64, 64>(); }
VP_DRIVER drvt_states_odd() { states<31, 33>(); }
