//@src src/a_star/AStar.cpp src/a_star/Node.cpp
// The classic search, judged through its open list: an observer that delivers arbitrary cells.
#include "obs_map.h"
#include <cslibs_path_planning/a_star/AStar.h>
#include <cmath>
using namespace lib_path;

static waypoint_t start, goal;
static int gx, gy;                  // one neighbour direction
static bool prepared, first, ended, offered, decided, expected;
static Node* last;                  // the cell delivered last
static const Node* chain;           // the next cell of the path
static bool building;
static int lw, lh, lists;
static size_t waypoints;

OpenList::OpenList(int w, int h) { lw = w; lh = h; ++lists; }
OpenList::~OpenList() { --lists; }
void OpenList::prepareNewSearch() { vp_assert(!prepared, "the open list is cleared once"); prepared = true; }
void OpenList::addNode(waypoint_t p, double d, double pred, Node* parent) {
    vp_assert(prepared, "the open list is cleared before a search");
    vp_assert(!ended && !building, "a finished search opens no cells");
    double dx = p.x - start.x, dy = p.y - start.y;
    vp_assert(pred >= 0 && pred * pred == dx * dx + dy * dy, "the prediction is the straight distance to the start");
    if (!first) {
        first = true;
        vp_reach("goal opened");
        vp_assert(p.x == goal.x && p.y == goal.y, "the search begins at the goal");
        vp_assert(d == 0, "the search begins with distance zero");
        vp_assert(parent == 0, "the goal has no successor");
        return;
    }
    vp_assert(last != 0 && parent == last, "a cell is opened as the predecessor of the cell delivered last");
    waypoint_t q = last->getPosition();
    int ex = p.x - q.x, ey = p.y - q.y;
    vp_reach("neighbour opened");
    vp_assert((-1 <= ex) & (ex <= 1) & (-1 <= ey) & (ey <= 1) & ((ex != 0) | (ey != 0)), "an opened cell is a neighbour of the cell delivered last");
    vp_assert(vp_pure_in(p.x, p.y), "an opened cell is in the map");
    vp_assert(vp_pure_free(p.x, p.y), "an opened cell is free");
    double step = d - last->getDistance();
    vp_assert(step >= 0, "a step costs something");
    vp_assert(step * step == ex * ex + ey * ey, "a step costs its length");
    if (ex == gx && ey == gy) offered = true;
}
// the first question about the map after a delivery: is the neighbour in direction g a free one?
static void decide() {
    if (!last || decided) return;
    waypoint_t q = last->getPosition();
    int x = q.x + gx, y = q.y + gy;
    decided = true;
    expected = vp_pure_in(x, y) && vp_pure_free(x, y);
}
struct Map : ObsMap {
    bool isInMap(const int x, const int y) const { decide(); return ObsMap::isInMap(x, y); }
    bool isFree(const unsigned int x, const unsigned int y) const { decide(); return ObsMap::isFree(x, y); }
};
static void expanded() {
    if (!last) return;
    decide();
    vp_reach("expanded");
    vp_assert(offered || !expected, "every free neighbour of a delivered cell is opened");
}
Node* OpenList::getFirstNode() {
    vp_assert(first, "the goal is opened first");
    vp_assert(!ended, "a finished search asks for no cells");
    expanded();
    offered = false;
    if (last && vp_bool("exhausted")) { ended = true; return 0; }
    last = (Node*)vp_nodeptr("cell");
    vp_assume(last != 0);
    chain = last;
    decided = expected = false;
    return last;
}
extern "C" void vp_on_push_waypoint_t(const void* v, const waypoint_t* e, size_t i) {
    vp_assert(i == waypoints, "no waypoints of an earlier search are left");
    ++waypoints;
    building = true;
    vp_assert(!ended, "no path is built after an unsuccessful search");
    vp_assert(chain != 0, "the path ends at the goal");
    waypoint_t q = chain->getPosition();
    vp_assert(e->x == q.x && e->y == q.y, "the path follows the predecessors");
    chain = chain->getParent();
}
static void plan(AStar& a) {
    prepared = first = ended = offered = building = false;
    last = 0; chain = 0; waypoints = 0;
    start.x = vp_int("sx"); start.y = vp_int("sy");
    goal.x = vp_int("gx"); goal.y = vp_int("gy");
    bool ok = a.planPath(start, goal);
    path_t* p = a.getLastPath();
    if (!vp_pure_in(start.x, start.y) || !vp_pure_in(goal.x, goal.y)) {
        vp_reach("outside");
        vp_assert(!ok, "there is no path from or to a point outside of the map");
        vp_assert(!prepared && !first, "nothing is searched outside of the map");
    } else if (ok) {
        waypoint_t q = last->getPosition();
        vp_reach("found");
        vp_assert(q.x == start.x && q.y == start.y, "the path begins at the start");
        vp_assert(building && chain == 0, "the path is complete");
        vp_assert(p->size() == waypoints, "the path has one waypoint per cell");
    } else {
        vp_reach("not found");
        vp_assert(ended, "the search fails only when no cell is left");
    }
    if (!ok) vp_assert(p->empty(), "there are no waypoints after a failed search");
}
template <int X, int Y> static void once() {
    vp_unroll(10, 40);
    lists = 0; gx = X; gy = Y;
    Map m;
    AStar a(&m);
    plan(a);
}
VP_DRIVER drv_n() { once<0, -1>(); }
VP_DRIVER drv_ne() { once<1, -1>(); }
VP_DRIVER drv_e() { once<1, 0>(); }
VP_DRIVER drv_se() { once<1, 1>(); }
VP_DRIVER drv_s() { once<0, 1>(); }
VP_DRIVER drv_sw() { once<-1, 1>(); }
VP_DRIVER drv_w() { once<-1, 0>(); }
VP_DRIVER drv_nw() { once<-1, -1>(); }
VP_DRIVER drv_again() {
    vp_unroll(10, 40);
    lists = 0; gx = 1; gy = -1;
    Map m;
    AStar a(&m);
    // what is left of an earlier search
    waypoint_t old;
    old.x = vp_int("old x"); old.y = vp_int("old y");
    prepared = first = ended = offered = building = false;
    waypoints = 0;
    chain = (Node*)vp_nodeptr("old");
    vp_assume(chain != 0 && chain->getPosition().x == old.x && chain->getPosition().y == old.y);
    a.getLastPath()->push_back(old);
    plan(a);
}
// the open list has the size of the map
VP_DRIVER drv_map() {
    lists = 0;
    {
        Map m, n;
        AStar a(&m);
        vp_assert(lists == 1 && lw == (int)m.w && lh == (int)m.h, "the open list has the size of the map");
        a.setNewMap(&n);
        vp_reach("new map");
        vp_assert(lists == 1 && lw == (int)n.w && lh == (int)n.h, "the open list has the size of the new map");
        // the map changes its size in place (SimpleGridMap2d::set)
        n.w = vp_u32("w2"); n.h = vp_u32("h2");
        vp_assume(n.w > 0 && n.h > 0);
        a.setNewMap(&n);
        vp_reach("resized map");
        vp_assert(lists == 1 && lw == (int)n.w && lh == (int)n.h, "the open list has the size of the resized map");
    }
    vp_assert(lists == 0, "the open list is released");
}
