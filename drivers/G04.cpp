//@src src/common/Pose2d.cpp
//@model2
// Searches that go on after the first solution, and searches with a goal test of the user.
#include "search.h"
enum { NODES = 4, START = 0, GOAL = 3, MAXLIST = 12 };
static N* pool;
static bool stale;                  // (second search: nothing around the start)
static N* list[MAXLIST];
static int count, steps, maxsteps;
static bool cleared, occ_start, occ_goal, out_start, out_goal, rev, finished, tested;
static Pose2d from, to, first, last;
static SMap map;
static N* current;
static int chain[NODES];            // predecessor of each node, by index
static double dist[NODES];
static const N* accepted;
static int candidates, asked;        // cells accepted so far (their indices), callback calls
static int cand[4];
static double cost[4], limit;
static bool exceeded, approve, approved;
static int cell_of_callback;
static int idx(const N* n) {
    int r = -1;
    for (int i = 0; i < NODES; ++i) if (n == pool + i) r = i;
    vp_assert(r >= 0, "only nodes of the map are used");
    return r;
}
template <> void Open<N>::clear() { cleared = true; count = 0; }
template <> void Open<N>::add(N* n) {
    vp_assert(cleared, "the open list is cleared before a search");
    vp_assume(count < MAXLIST);
    if (!current) {
        vp_reach("start opened");
        vp_assert(n == pool + START, "a search begins at the start");
        vp_assert(n->distance == 0, "a search begins with distance zero");
        vp_assert(!occ_start && !out_start, "an occupied start is not opened");
    }
    vp_assert(n->isMarked(N::MARK_OPEN), "a cell in the open list is open");
    list[count++] = n;
}
template <> bool Open<N>::empty() { return count == 0; }
template <> N* Open<N>::next() {
    vp_assert(count > 0, "an empty open list is not asked for a cell");
    vp_assert(!accepted, "a finished search delivers no further cells");
    vp_assert(!exceeded, "a search ends with the first cell that is too expensive after the first solution");
    vp_assume(steps < maxsteps || count == 0);
    ++steps;
    int k = count > 1 && vp_bool("second") ? 1 : count > 2 && vp_bool("third") ? 2 : 0;
    current = list[k];
    --count;
    for (int i = k; i < count; ++i) list[i] = list[i + 1];
    tested = false;
    return current;
}
template <> double Man<N>::getValue(double, double) const { return vp_real("value"); }
template <> bool Man<N>::isOccupied(const N* n) const {
    int i = idx(n);
    return i == START ? occ_start : i == GOAL ? occ_goal : false;
}
template <> N* Man<N>::find(double x, double y) const {
    if (x == first.x) {
        vp_assert(y == first.y, "the start is looked up");
        if (out_start) throw OutsideMapException();
        return pool + START;
    }
    vp_assert(x == last.x && y == last.y, "the goal is looked up");
    if (out_goal) throw OutsideMapException();
    return pool + GOAL;
}
static double oversearch;
static void note(const N* n, double c) {
    vp_reach("solution");
    if (candidates == 0) limit = n->getTotalCost() + oversearch;
    cost[candidates] = c;
    cand[candidates++] = idx(n);
}
template <> struct Hooks<N> {
    static bool is_goal(const N* g, const N* n) {
        vp_assert(g == pool + GOAL && n == current, "the delivered cell is compared with the goal");
        tested = true;
        if (candidates > 0 && n->getTotalCost() > limit) exceeded = true;
        if (vp_bool("is goal")) {
            double dx = n->x - g->x, dy = n->y - g->y;
            note(n, dx * dx + dy * dy);
            return true;
        }
        return false;
    }
    template <class T> static void neighbours(T& algo, N* n) {
        vp_assert(n == current, "the delivered cell is expanded");
        vp_assert(tested || occ_goal, "a cell is compared with the goal before it is expanded");
        vp_assert(!exceeded, "a cell that is too expensive after the first solution is not expanded");
        vp_assert(!accepted, "nothing is expanded after the end of a search");
        vp_assert(!n->isMarked(N::MARK_OPEN) && n->isMarked(N::MARK_CLOSED), "a delivered cell is closed");
        if (stale) return;
        int me = idx(n);
        if (me == START) { offer(algo, n, me, 1); offer(algo, n, me, 2); return; }
        offer(algo, n, me, vp_bool("n1") ? 1 : vp_bool("n2") ? 2 : vp_bool("n0") ? START : GOAL);
    }
    template <class T> static void offer(T& algo, N* n, int me, int k) {
        if (k == me) return;
        double d = vp_real("delta");
        vp_assume(d > 0);
        if (algo.processNeighbor(n, pool + k, d) == NeighborhoodBase::PR_ADDED_TO_OPEN_LIST) {
            vp_assert(k != START, "the start is never made more expensive");
            chain[k] = me;
            dist[k] = n->distance + d * map.res;
        }
    }
};
static void prepare(int n) {
    maxsteps = n;
    count = steps = candidates = asked = 0;
    cleared = exceeded = approved = false;
    current = 0; accepted = 0;
    occ_start = occ_goal = out_start = out_goal = stale = false;
    map.res = vp_real("res");
    vp_assume(map.res > 0);
    from.x = vp_real("fx"); from.y = vp_real("fy"); from.theta = vp_real("ft");
    to.x = vp_real("tx"); to.y = vp_real("ty"); to.theta = vp_real("tt");
    vp_assume(from.x < to.x);
    first = from;
    last = to;
    for (int i = 0; i < NODES; ++i) {
        N::init(pool[i], i, 0);
        chain[i] = -1;
        dist[i] = 0;
    }
    pool[START].x = first.x; pool[START].y = first.y;
    pool[GOAL].x = last.x; pool[GOAL].y = last.y;
    oversearch = vp_real("oversearch");
}
// the path is the chain of predecessors of the given cell
static void is_chain(const std::vector<N>& path, int at) {
    int len = 1;
    for (int k = at; k != START; k = chain[k]) ++len;
    vp_assert((int)path.size() == len, "a solution has the cells of a chain of predecessors");
    int pos = len - 1;
    for (int k = at;; k = chain[k]) {
        vp_assert(path[pos].x == pool[k].x && path[pos].y == pool[k].y, "a solution follows the chain of predecessors to its cell");
        vp_assert(path[pos].distance == dist[k], "the distances of a solution are those of the steps");
        if (k == START) break;
        --pos;
    }
}
static int best() {
    int b = 0;
    for (int i = 1; i < candidates; ++i) if (cost[i] < cost[b]) b = i;
    return b;
}
typedef SearchOf<false> S;
struct Over {
    S s;
    std::vector<N> path;
    Over() { s.setMap(&map); }
    void run() {
        SearchOptions o;
        o.oversearch_distance = oversearch;
        path = s.findPath(from, to, o);
    }
    void is_best() {
        double len = cost[best()];
        // (several solutions may be equally good)
        bool found = false;
        for (int i = 0; i < candidates; ++i) {
            if (cost[i] != len) continue;
            const N& e = path[path.size() - 1];
            if (e.x == pool[cand[i]].x && e.y == pool[cand[i]].y) { found = true; is_chain(path, cand[i]); break; }
        }
        vp_assert(found, "the solution whose end is closest to the goal is returned");
    }
};
VP_DRIVER drv_over2() {
    vp_unroll(12, 1000);
    N nodes[NODES];
    pool = nodes;
    prepare(2);
    vp_assume(oversearch > 0);
    Over o;
    o.run();
    vp_assume(candidates > 0);
    vp_reach("several");
    o.is_best();
    std::vector<std::vector<N> > all = o.s.getPathCandidates();
    vp_assert((int)all.size() == candidates, "all solutions can be listed");
}
VP_DRIVER drv_over3() {
    vp_unroll(12, 1000);
    N nodes[NODES];
    pool = nodes;
    prepare(3);
    vp_assume(oversearch > 0);
    Over o;
    o.run();
    if (candidates == 0) {
        vp_reach("no solution");
        vp_assert(o.path.empty(), "without a solution there is no path");
        return;
    }
    o.is_best();
}
// the user decides about every solution
static bool decide(const std::vector<N>& p) {
    ++asked;
    vp_assert(candidates == asked, "every solution is shown once");
    is_chain(p, cand[candidates - 1]);
    approved = vp_bool("approve");
    if (approved) { accepted = pool + cand[candidates - 1]; exceeded = false; }
    return approved;
}
VP_DRIVER drv_callback() {
    vp_unroll(12, 1000);
    N nodes[NODES];
    pool = nodes;
    prepare(3);
    vp_assume(oversearch > 0);
    S s;
    s.setMap(&map);
    s.setPathCandidateCallback(&decide);
    SearchOptions o;
    o.oversearch_distance = oversearch;
    std::vector<N> path = s.findPath(from, to, o);
    vp_assert(asked == candidates, "every solution is shown once");
    if (approved) {
        vp_reach("approved");
        is_chain(path, idx(accepted));
    } else if (candidates == 0) vp_assert(path.empty(), "without a solution there is no path");
    else vp_assert(!path.empty(), "without an approved solution the best one is returned");
}
// the goal is described by a test of the user
struct Test {
    S* s;
    const Pose2d* h;
    int* calls;
    const Pose2d* getHeuristicGoal() const { return h; }
    bool terminate(const N* n) const {
        vp_assert(n == current, "the delivered cell is tested");
        ++*calls;
        tested = true;
        if (h) {
            double dx = n->x - h->x, dy = n->y - h->y;
            vp_assert(n->h >= 0 && n->h * n->h == map.res * map.res * (dx * dx + dy * dy), "the prediction is the straight distance to the goal of the test");
        }
        if (vp_bool("solution")) {
            double c = vp_real("cost");
            note(n, c);
            s->addGoalCandidate(n, c);
        }
        if (vp_bool("terminate")) { accepted = n; return true; }
        return false;
    }
};
VP_DRIVER drv_goal_test() {
    vp_unroll(12, 1000);
    N nodes[NODES];
    pool = nodes;
    prepare(3);
    S s;
    s.setMap(&map);
    int calls = 0;
    Test t;
    t.s = &s; t.h = &to; t.calls = &calls;
    std::vector<N> path = s.findPath(from, t, SearchOptions());
    vp_assert(calls == steps, "every delivered cell is tested");
    if (candidates == 0) { vp_assert(path.empty(), "without a solution there is no path"); return; }
    vp_reach("tested");
    double len = cost[best()];
    bool found = false;
    for (int i = 0; i < candidates; ++i) {
        if (cost[i] != len) continue;
        const N& e = path[path.size() - 1];
        if (e.x == pool[cand[i]].x && e.y == pool[cand[i]].y) { found = true; is_chain(path, cand[i]); break; }
    }
    vp_assert(found, "the solution of least cost is returned");
}
// the goal of an earlier search is forgotten
VP_DRIVER drv_forget() {
    vp_unroll(12, 1000);
    vp_bounds(1);
    N nodes[NODES];
    pool = nodes;
    prepare(1);
    S s;
    s.setMap(&map);
    int calls = 0;
    {
        Pose2d* old = new Pose2d(vp_real("ox"), vp_real("oy"), 0);
        Test t;
        t.s = &s; t.h = old; t.calls = &calls;
        s.findPath(from, t, SearchOptions());
        delete old;
    }
    vp_assume(candidates == 0);
    vp_reach("first search");
    count = steps = 0;
    cleared = false;
    current = 0; accepted = 0;
    for (int i = 0; i < NODES; ++i) { double x = pool[i].x, y = pool[i].y; N::init(pool[i], x, y); chain[i] = -1; }
    s.setMap(&map);
    occ_goal = stale = true;
    std::vector<N> path = s.findPath(from, to);
    vp_reach("second search");
    vp_assert(path.empty(), "an occupied goal cannot be reached");
}
