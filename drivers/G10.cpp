//@src src/common/GridMap2d.cpp src/common/SimpleGridMap2d.cpp src/common/Bresenham2d.cpp src/common/Point2d.cpp src/common/Pose2d.cpp
// Checks of the straight line between two positions.
#include "search_nodes.h"
#include <cstring>
#include "obs_map.h"
#include <cslibs_path_planning/generic/SteeringNode.hpp>
#include <cslibs_path_planning/generic/MapManager.hpp>
typedef DirectionalNode<SteeringNode<HeuristicNode<Pose2d> > > S;
typedef DynamicDirectionalStateSpaceManager<S> Dyn;
typedef GridMapManager<N> Grid;
static int X, Y, DX, DY, L;          // start, direction and length of the line
static bool looked[20];
static int cx[20], cy[20];
static void look(int x, int y) {
    int a = x - X, b = y - Y;
    int p = DX == L ? a : DX == -L ? -a : DY == L ? b : -b;
    vp_assert(p >= 0 && p <= L, "only cells between the ends are looked at");
    if (p < 0 || p > L) return;
    int c = a * DY - b * DX;         // how far the cell is from the line
    vp_assert(c <= L && -c <= L, "only cells on the line are looked at");
    vp_assert(!looked[p] || (cx[p] == x && cy[p] == y), "one cell per step is looked at");
    looked[p] = true; cx[p] = x; cy[p] = y;
}
struct Map : ObsMap {
    bool isFree(const unsigned int x, const unsigned int y) const { look(x, y); return vp_pure_free(x, y); }
    bool isOccupied(const unsigned int x, const unsigned int y) const { look(x, y); return vp_pure_occupied(x, y); }
    bool isNoInformation(const unsigned int x, const unsigned int y) const { look(x, y); return vp_pure_unknown(x, y); }
    bool isInMap(const int x, const int y) const { return x >= 0 && y >= 0 && x < (int)w && y < (int)h; }
};
enum { FREE, PASSABLE, OCCUPIED };
template <class G> static bool verdict(G& g, int what, double sx, double sy, double ex, double ey) {
    return what == FREE ? g.isFree(sx, sy, ex, ey) : g.isFreeOrUnknown(sx, sy, ex, ey);
}
static bool verdict(Dyn& g, int what, double sx, double sy, double ex, double ey) {
    return what == FREE ? g.isFree(sx, sy, ex, ey) : what == PASSABLE ? g.isFreeOrUnknown(sx, sy, ex, ey) : !g.isOccupied(sx, sy, ex, ey);
}
static void setup(Dyn& g) { g.w = g.h = 0; }
static void setup(Grid& g) {}
static bool fine(Dyn&, int what, int x, int y) { return what == FREE ? vp_pure_free(x, y) : !vp_pure_occupied(x, y); }
static bool fine(Grid&, int what, int x, int y) { return vp_pure_free(x, y) | ((what == PASSABLE) & vp_pure_unknown(x, y)); }
template <int I, int N> struct Pick { static int of(int v) { return v == I ? I : Pick<I + 1, N>::of(v); } };
template <int N> struct Pick<N, N> { static int of(int) { return 0; } };
static double part(bool off) {
    if (!off) return 0.5;
    double f = vp_real("part");
    vp_assume(f >= 0 && f < 1);
    return f;
}
// a line of which both ends are in the map; up to `gap` cells need not be looked at
template <class G> static void line(G& g, const Map& map, int what, int gap, int dx, int dy, bool off = false) {
    DX = dx; DY = dy;
    L = std::max(std::abs(dx), std::abs(dy));
    if (std::is_same<G, Grid>::value && L == 0) return;
    vp_assume(map.isInMap(X, Y) && map.isInMap(X + dx, Y + dy));
    std::memset(looked, 0, sizeof looked);
    double sx = X + part(off), sy = Y + part(off), ex = X + dx + part(off), ey = Y + dy + part(off);
    vp_unroll(20, -1000);
    bool good = verdict(g, what, sx, sy, ex, ey);
    vp_unroll(20, 40);
    int skipped = 0;
    bool all = true;
    for (int i = 1; i <= L; ++i) {
        if (looked[i]) { skipped = 0; all = all & fine(g, what, cx[i], cy[i]); }
        else ++skipped;
        vp_assert(skipped <= gap || !good, "no part of a line is left out");
    }
    if (L == 0) all = fine(g, what, X, Y);
    if (looked[0]) all = all & fine(g, what, cx[0], cy[0]);
    vp_assert(good == all, "a line is passable exactly if the cells looked at are");
    if (good) { vp_reach("good"); if (L) vp_assert(looked[L], "the end of a line is looked at"); }
    else vp_reach("bad");
}
template <class G> static void make(G& g, Map& map, double res) {
    vp_unroll(2, 40);
    map.res = res;
    X = vp_int("x"); Y = vp_int("y");
    setup(g);
    g.setMap(&map);
}
template <class G, int R> static void lines(int what) {
    const int n = 2 * R + 1;
    Map map;
    G g;
    make(g, map, 1.0);
    int dx = Pick<1, n>::of(vp_int("dx")), dy = Pick<1, n>::of(vp_int("dy"));
    line(g, map, what, 0, dx - R, dy - R, true);
}
static const int dirs[][2] = {{8, 3}, {-8, -3}, {5, -8}, {-3, 7}, {2, 0}, {0, -3}, {1, 1}, {-3, -3}, {0, 0}, {-1, 0}, {6, -6}};
// half a metre of a line may be left out
static void coarse(int what) {
    int d = Pick<1, 11>::of(vp_int("direction"));
    bool fine = vp_bool("fine");
    Map map;
    Dyn g;
    make(g, map, fine ? 0.125 : 0.25);
    line(g, map, what, fine ? 4 : 2, dirs[d][0], dirs[d][1]);
}
static const int compass[][2] = {{3, 0}, {3, 3}, {0, 3}, {-3, 3}, {-3, 0}, {-3, -3}, {0, -3}, {3, -3}};
// a line of any part of which may be outside of the map: what is outside is neither free nor occupied
static void outside(int what) {
    Map map;
    Dyn g;
    make(g, map, 1.0);
    int d = Pick<1, 8>::of(vp_int("direction"));
    DX = compass[d][0]; DY = compass[d][1]; L = 3;
    vp_assume(g.contains(X, Y) && g.contains(X + DX, Y + DY));
    std::memset(looked, 0, sizeof looked);
    vp_unroll(20, -1000);
    bool good = verdict(g, what, X + 0.5, Y + 0.5, X + DX + 0.5, Y + DY + 0.5);
    vp_unroll(20, 40);
    bool first = true, all = true;
    for (int i = 0; i <= L; ++i) {
        int x = X + i * DX / L, y = Y + i * DY / L;
        bool in = (x >= 0) & (y >= 0) & (x < (int)map.w) & (y < (int)map.h);
        bool ok = (in & fine(g, what, x, y)) | (!in & (what != FREE));
        if (i == 0) first = ok; else all &= ok;
    }
    if (good) { vp_reach("good"); vp_assert(all, "a passable line has no other cells"); }
    else { vp_reach("bad"); vp_assert(!all || !first, "a line is passable exactly if all of its cells are"); }
}
VP_DRIVER drv_outside_free() { outside(FREE); }
VP_DRIVER drv_outside_passable() { outside(PASSABLE); }
VP_DRIVER drv_outside_occupied() { outside(OCCUPIED); }
VP_DRIVER drvt_dyn_free() { lines<Dyn, 7>(FREE); }
VP_DRIVER drvt_dyn_passable() { lines<Dyn, 7>(PASSABLE); }
VP_DRIVER drvt_dyn_occupied() { lines<Dyn, 7>(OCCUPIED); }
VP_DRIVER drvt_grid_free() { lines<Grid, 5>(FREE); }
VP_DRIVER drvt_grid_passable() { lines<Grid, 5>(PASSABLE); }
template <class G> static void parts(int what, int dx, int dy) {
    Map map;
    G g;
    make(g, map, 1.0);
    line(g, map, what, 0, dx, dy, true);
}
VP_DRIVER drv_dyn_free() { lines<Dyn, 3>(FREE); }
VP_DRIVER drv_dyn_passable() { lines<Dyn, 3>(PASSABLE); }
VP_DRIVER drv_dyn_occupied() { lines<Dyn, 3>(OCCUPIED); }
VP_DRIVER drv_dyn_free_coarse() { coarse(FREE); }
VP_DRIVER drv_dyn_passable_coarse() { coarse(PASSABLE); }
VP_DRIVER drv_dyn_occupied_coarse() { coarse(OCCUPIED); }
VP_DRIVER drv_grid_free() { lines<Grid, 2>(FREE); }
VP_DRIVER drv_grid_passable() { lines<Grid, 2>(PASSABLE); }
VP_DRIVER drv_dyn_parts() { parts<Dyn>(PASSABLE, 3, -1); }
VP_DRIVER drv_grid_parts() { parts<Grid>(FREE, -2, 1); }
