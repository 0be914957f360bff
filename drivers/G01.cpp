//@src src/common/Pose2d.cpp
// The cells a direct neighbourhood offers.
#include "search_nodes.h"
#include <cslibs_path_planning/generic/DirectNeighborhood.hpp>
static int w, h, rx, ry;             // size of the map, cell that is expanded
static N pool[25], ref;              // the cells around it
static bool free_[25];
static int occupied;
static int seen[25];
static bool added;                  // what the search answers
static int at(int x, int y, int d) {
    int r = -1;
    for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j) if (x == rx + i * d && y == ry + j * d) r = (i + 1) + 3 * (j + 1);
    vp_assert(r >= 0, "only cells one step away are looked at");
    return r;
}
template <int D> struct Cells {
    bool contains(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h; }
    bool contains(double x, double y) const { return contains((int)std::floor(x), (int)std::floor(y)); }
    N* lookup(int x, int y) {
        vp_assert(contains(x, y), "no cell outside of the map is looked up");
        return pool + at(x, y, D);
    }
    N* lookup(double x, double y) { return lookup((int)std::floor(x), (int)std::floor(y)); }
    bool isFree(const N* n) const {
        for (int i = 0; i < 9; ++i) if (n == pool + i) return free_[i];
        return vp_bool("other");
    }
    bool isFree(int x, int y, double) const { return free_[at(x, y, D)]; }
    // of the cells that are not free one arbitrary cell is occupied, the others are unknown
    bool isOccupied(const N* n) const {
        for (int i = 0; i < 9; ++i) if (n == pool + i) return !free_[i] && i == occupied;
        return vp_bool("other");
    }
    bool isOccupied(int x, int y, double) const { int i = at(x, y, D); return !free_[i] && i == occupied; }
};
template <int D> struct Algo {
    NeighborhoodBase::ProcessingResult processNeighbor(N* c, N* n, double delta) {
        vp_assert(c == &ref, "neighbours are offered for the cell that is expanded");
        int k = -1;
        for (int i = 0; i < 9; ++i) if (n == pool + i) k = i;
        vp_assert(k >= 0 && k != 4, "only neighbours are offered");
        int i = k % 3 - 1, j = k / 3 - 1;
        vp_assert(free_[k], "only free cells are offered");
        ++seen[k];
        if (i != 0 && j != 0) {
            vp_assert(delta > 0 && delta * delta == 2. * D * D, "a diagonal step has the length of the diagonal");
        } else vp_assert(delta == D, "a straight step has the length of the step");
        return added ? NeighborhoodBase::PR_ADDED_TO_OPEN_LIST : NeighborhoodBase::PR_IGNORED;
    }
};
template <int C, int D> static void cells() {
    vp_unroll(12, 4000);
    w = vp_u32("w"); h = vp_u32("h");
    rx = vp_u32("x"); ry = vp_u32("y");
    vp_assume(rx < w); vp_assume(ry < h);
    added = vp_bool("added");
    // one arbitrary cell, and the others by kind
    int k0 = vp_nat("cell");
    vp_assume(k0 < 9);
    occupied = vp_bool("all known") ? k0 : -1;
    bool vertical = vp_bool("vertical"), horizontal = vp_bool("horizontal"), diagonal = vp_bool("diagonal");
    for (int i = 0; i < 9; ++i) {
        seen[i] = 0;
        free_[i] = i == k0 ? vp_bool("free") : i % 3 == 1 ? vertical : i / 3 == 1 ? horizontal : diagonal;
        N::init(pool[i], rx + (i % 3 - 1) * D, ry + (i / 3 - 1) * D);
    }
    N::init(ref, rx, ry);
    Cells<D> m;
    Algo<D> a;
    DirectNeighborhood<C, D>::iterateFreeNeighbors(a, m, &ref);
    for (int k = 0; k < 9; ++k) {
        int i = k % 3 - 1, j = k / 3 - 1;
        bool want = k != 4 && (C == 8 || i == 0 || j == 0) && m.contains(rx + i * D, ry + j * D) && free_[k];
        vp_assert(seen[k] == (want ? 1 : 0), "every free neighbour in the map is offered once, and no other cell");
        if (want) vp_reach("offered");
    }
}
VP_DRIVER drv_four() { cells<4, 1>(); }
VP_DRIVER drv_eight() { cells<8, 1>(); }
VP_DRIVER drv_four_far() { cells<4, 3>(); }
VP_DRIVER drv_eight_far() { cells<8, 2>(); }
template <int C, int D> static void goal() {
    N g, n;
    g.x = vp_real("gx"); g.y = vp_real("gy");
    n.x = vp_real("nx"); n.y = vp_real("ny");
    bool in = g.x - n.x <= D && n.x - g.x <= D && g.y - n.y <= D && n.y - g.y <= D;
    const N *pg = &g, *pn = &n;
    vp_assert((DirectNeighborhood<C, D>::isGoal(pg, pn)) == in, "the goal is reached when it is at most one step away in each direction");
    vp_assert(!DirectNeighborhood<C, D>::reversed, "direct neighbourhoods search forwards");
}
VP_DRIVER drv_goal_four() { goal<4, 1>(); goal<4, 2>(); }
VP_DRIVER drv_goal_eight() { goal<8, 1>(); goal<8, 3>(); }
