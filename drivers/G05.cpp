//@src src/common/Pose2d.cpp
//@model2
// A search that may be finished by a curve to the goal.
#include "search.h"
enum { NODES = 4, START = 0, GOAL = 3, MAXLIST = 12 };
static N* pool;
static N* list[MAXLIST];
static int count, steps, maxsteps;
static bool cleared, occ_start, occ_goal, out_start, out_goal, rev, finished, tested;
static Pose2d from, to, first, last;
static SMap map;
static N* current;
static int chain[NODES];            // predecessor of each node, by index
static double dist[NODES];
static const N* accepted;
static int idx(const N* n) {
    int r = -1;
    for (int i = 0; i < NODES; ++i) if (n == pool + i) r = i;
    vp_assert(r >= 0, "only nodes of the map are used");
    return r;
}
template <> void Open<N>::clear() { cleared = true; count = 0; }
template <> void Open<N>::add(N* n) {
    vp_assert(cleared, "the open list is cleared before a search");
    vp_assume(count < MAXLIST);
    if (!current) {
        vp_reach("start opened");
        vp_assert(n == pool + START, "a search begins at the start");
        vp_assert(n->distance == 0, "a search begins with distance zero");
        vp_assert(!occ_start && !out_start, "an occupied start is not opened");
    }
    vp_assert(n->isMarked(N::MARK_OPEN), "a cell in the open list is open");
    list[count++] = n;
}
template <> bool Open<N>::empty() { return count == 0; }
template <> N* Open<N>::next() {
    vp_assert(count > 0, "an empty open list is not asked for a cell");
    vp_assert(!accepted, "a finished search delivers no further cells");
    vp_assume(steps < maxsteps || count == 0);
    ++steps;
    int k = count > 1 && vp_bool("second") ? 1 : count > 2 && vp_bool("third") ? 2 : 0;
    current = list[k];
    --count;
    for (int i = k; i < count; ++i) list[i] = list[i + 1];
    tested = false;
    return current;
}
template <> double Man<N>::getValue(double, double) const { return vp_real("value"); }
template <> bool Man<N>::isOccupied(const N* n) const {
    int i = idx(n);
    return i == START ? occ_start : i == GOAL ? occ_goal : false;
}
template <> N* Man<N>::find(double x, double y) const {
    if (x == first.x) {
        vp_assert(y == first.y, "the start is looked up");
        if (out_start) throw OutsideMapException();
        return pool + START;
    }
    vp_assert(x == last.x && y == last.y, "the goal is looked up");
    if (out_goal) throw OutsideMapException();
    return pool + GOAL;
}
static double cx[2], cy[2], ct[2];   // the curve
static int clen;
static const N* curved;
struct Curve2 {
    template <class M> static bool canExpand(const N* n, const N* g, const M* m) {
        vp_assert(m == &map, "the curve is planned in the map of the search");
        vp_assert(g == pool + GOAL && n == current, "the curve leads from the delivered cell to the goal");
        vp_assert(!occ_goal, "an occupied goal cannot be reached");
        if (!vp_bool("curve")) return false;
        curved = accepted = n;
        return true;
    }
    template <class P> static void getPath(P* out) {
        vp_assert(curved != 0, "only a curve that was found is used");
        for (int i = 0; i < clen; ++i) {
            N n;
            N::init(n, cx[i], cy[i]);
            n.theta = ct[i];
            out->push_back(n);
        }
    }
};
template <> struct Hooks<N> {
    static bool is_goal(const N* g, const N* n) {
        vp_reach("goal test");
        vp_assert(g == pool + GOAL, "cells are compared with the goal");
        vp_assert(n == current, "the delivered cell is compared with the goal");
        vp_assert(!occ_goal, "an occupied goal cannot be reached");
        tested = true;
        if (vp_bool("is goal")) { accepted = n; return true; }
        return false;
    }
    template <class T> static void neighbours(T& algo, N* n) {
        vp_assert(n == current, "the delivered cell is expanded");
        vp_assert(tested || occ_goal, "a cell is compared with the goal before it is expanded");
        vp_assert(!n->isMarked(N::MARK_OPEN) && n->isMarked(N::MARK_CLOSED), "a delivered cell is closed");
        int me = idx(n);
        if (me == START) { offer(algo, n, me, 1); offer(algo, n, me, 2); return; }
        offer(algo, n, me, vp_bool("n1") ? 1 : vp_bool("n2") ? 2 : vp_bool("n0") ? START : GOAL);
    }
    template <class T> static void offer(T& algo, N* n, int me, int k) {
        if (k == me) return;
        double d = vp_real("delta");
        vp_assume(d > 0);
        if (algo.processNeighbor(n, pool + k, d) == NeighborhoodBase::PR_ADDED_TO_OPEN_LIST) {
            vp_assert(k != START, "the start is never made more expensive");
            chain[k] = me;
            dist[k] = n->distance + d * map.res;
        }
    }
};
static void prepare(int n) {
    maxsteps = n;
    count = steps = 0;
    cleared = false;
    current = 0; accepted = 0;
    occ_start = vp_bool("occupied start"); occ_goal = vp_bool("occupied goal");
    out_start = vp_bool("start outside"); out_goal = vp_bool("goal outside");
    map.res = vp_real("res");
    vp_assume(map.res > 0);
    from.x = vp_real("fx"); from.y = vp_real("fy"); from.theta = vp_real("ft");
    to.x = vp_real("tx"); to.y = vp_real("ty"); to.theta = vp_real("tt");
    vp_assume(from.x < to.x);
    first = rev ? to : from;
    last = rev ? from : to;
    for (int i = 0; i < NODES; ++i) {
        N::init(pool[i], i, 0);
        chain[i] = -1;
        dist[i] = 0;
    }
    pool[START].x = first.x; pool[START].y = first.y;
    pool[GOAL].x = last.x; pool[GOAL].y = last.y;
}
static void is_curve(const std::vector<N>& path, int at) {
    int len = 1;
    for (int k = at; k != START; k = chain[k]) ++len;
    vp_assert((int)path.size() == len + clen, "the path has the cells of the chain of predecessors and the curve");
    for (int i = 0; i < clen; ++i) {
        const N& c = path[rev ? clen - 1 - i : len + i];
        vp_assert(c.x == cx[i] && c.y == cy[i] && c.theta == ct[i], "the path ends with the curve");
    }
    int pos = rev ? clen : len - 1;
    for (int k = at;; k = chain[k]) {
        const N& c = path[pos];
        vp_assert(c.x == pool[k].x && c.y == pool[k].y, "the path follows the chain of predecessors to the curve");
        vp_assert(k != at || c.theta == ct[0], "the cell the curve begins in has the heading of the curve");
        if (k == START) break;
        pos += rev ? 1 : -1;
    }
}
template <class S> static void search(int n, int l) {
    vp_unroll(12, 1000);
    N nodes[NODES];
    pool = nodes;
    prepare(n);
    vp_assume(!out_start && !out_goal);
    curved = 0;
    clen = l;
    for (int i = 0; i < l; ++i) { cx[i] = vp_real("cx"); cy[i] = vp_real("cy"); ct[i] = vp_real("ct"); }
    S s;
    s.setMap(&map);
    std::vector<N> path = s.findPath(from, to);
    if (!accepted) {
        vp_assert(path.empty(), "without reaching the goal there is no path");
        return;
    }
    if (!curved) return;
    vp_reach("curve");
    is_curve(path, idx(curved));
    if (clen > 0 && curved == pool + START) vp_reach("curve from the start");
}
VP_DRIVER drv_curve() { rev = false; search<SearchOf<false, 0, Curve2> >(3, 2); }
VP_DRIVER drv_curve_reversed() { rev = true; search<SearchOf<true, 0, Curve2> >(2, 2); }
