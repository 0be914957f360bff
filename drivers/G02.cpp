//@src src/common/Pose2d.cpp
//@model2
// One neighbour is offered to the generic search.
#include "search.h"
static N *a, *b;
static int added, looked;
static bool has_goal, occ;
static Pose2d from, to;
static SMap map;
static N *goal;
template <> void Open<N>::add(N* n) {
    if (looked) { vp_assert(n == b, "only the neighbour is put into the open list"); ++added; }
}
template <> bool Open<N>::empty() { return looked; }
template <> N* Open<N>::next() { return a; }
template <> void Open<N>::clear() {}
template <> double Man<N>::getValue(double, double) const { return vp_real("value"); }
template <> bool Man<N>::isOccupied(const N* n) const { return false; }
template <> N* Man<N>::find(double x, double y) const { return x == from.x ? a : goal; }
template <> struct Hooks<N> {
    static bool is_goal(const N*, const N*) { return false; }
    template <class T> static void neighbours(T& algo, N* n) {
        vp_assert(n == a, "the delivered cell is expanded");
        looked = 1;
        double d = vp_real("delta");
        vp_assume(d > 0);
        a->distance = vp_real("da");
        b->distance = vp_real("db");
        vp_assume(a->distance >= 0); vp_assume(b->distance >= 0);
        bool open = vp_bool("open"), closed = vp_bool("closed");
        b->marked = 0;
        if (open) b->mark(N::MARK_OPEN);
        if (closed) b->mark(N::MARK_CLOSED);
        double nd = a->distance + d * map.res, od = b->distance, oh = b->h;
        // a cell that was not reached yet is infinitely far away
        if (!open && !closed) vp_assume(nd < od);
        Node<Pose2d>* op = b->prev;
        NeighborhoodBase::ProcessingResult r = algo.processNeighbor(a, b, d);
        vp_assert(r != NeighborhoodBase::PR_ADDED_TO_OPEN_LIST || nd < od, "a cell is never made more expensive");
        if (nd < od) {
            vp_reach("closer");
            vp_assert(r == NeighborhoodBase::PR_ADDED_TO_OPEN_LIST, "a cheaper way is taken and reported");
            vp_assert(added == 1, "a cell with a cheaper way is put into the open list once");
            vp_assert(b->prev == a, "the predecessor is the cell that is expanded");
            vp_assert(b->distance == nd, "the distance is that of the predecessor and the length of the step");
            vp_assert(b->isMarked(N::MARK_OPEN), "a cell in the open list is open");
            double dx = b->x - goal->x, dy = b->y - goal->y;
            vp_assert(b->h >= 0 && b->h * b->h == map.res * map.res * (dx * dx + dy * dy), "the prediction is the straight distance to the goal");
        } else {
            vp_reach("not closer");
            vp_assert(added == 0, "without a cheaper way the open list is left alone");
            vp_assert(b->prev == op && b->distance == od, "without a cheaper way the cell is left alone");
            vp_assert(b->isMarked(N::MARK_OPEN) == open && b->isMarked(N::MARK_CLOSED) == closed, "without a cheaper way the cell stays open or closed");
        }
    }
};
VP_DRIVER drv_relax() {
    N na, nb, ng;
    a = &na; b = &nb; goal = &ng;
    looked = added = 0;
    map.res = vp_real("res");
    vp_assume(map.res > 0);
    SearchOf<false> s;
    s.setMap(&map);
    from.x = vp_real("fx"); from.y = vp_real("fy"); from.theta = vp_real("ft");
    to.x = vp_real("tx"); to.y = vp_real("ty"); to.theta = vp_real("tt");
    vp_assume(from.x < to.x);
    N::init(na, from); N::init(nb, 5, 5); N::init(ng, to);
    nb.x = vp_real("bx"); nb.y = vp_real("by");
    N other;
    nb.prev = vp_bool("had") ? &ng : vp_bool("same") ? &other : vp_bool("again") ? &na : nullptr;
    na.prev = vp_bool("came") ? &other : vp_bool("near goal") ? &ng : nullptr;
    na.x = from.x; na.y = from.y; ng.x = to.x; ng.y = to.y;
    s.findPath(from, to);
    vp_assert(looked == 1, "the delivered cell is expanded");
}
