//@model
//@src src/a_star/OpenList.cpp src/a_star/Node.cpp
// The open list, judged through one arbitrary cell t among arbitrarily many others: each
// operation from each state t can be in (never offered, open, closed, after a new search).
#include "openlist.h"

VP_DRIVER drv_fresh() {
    sizes();
    OpenList l(w, h);
    if (vp_bool("others first")) other_op(l);
    Offer o = offer(l, prediction());
    vp_reach("offered");
    recorded(o);
}
VP_DRIVER drv_others_then() {
    sizes();
    OpenList l(w, h);
    Offer o = offer(l, prediction());
    other_op(l);
    vp_reach("others then");
    recorded(o);
}
VP_DRIVER drv_offer_again() {
    sizes();
    OpenList l(w, h);
    Offer a = offer(l, prediction());
    Offer b = offer(l, a.pred);
    const Node* n = (const Node*)vpg_ptr;
    vp_reach("offered again");
    vp_assert(vpg_in, "an open cell offered again stays open");
    double d = n->getDistance();
    vp_assert(d <= a.d, "offering an open cell again never makes it more expensive");
    if (d == a.d && n->getParent() == a.parent) {
        vp_assert(b.d > a.d - 1, "an offer that is cheaper by one or more is taken");
        recorded(a);
    } else
        recorded(b);
}
VP_DRIVER drv_first() {
    sizes();
    OpenList l(w, h);
    Offer o = offer(l, prediction());
    if (vp_bool("again")) { Offer b = offer(l, o.pred); }
    Node* n = (Node*)vpg_ptr;
    double d = n->getDistance(); Node* par = n->getParent(); int v = n->getValue();
    Node* f = l.getFirstNode();
    vp_assert(f != 0, "the open list delivers a cell as long as one is open");
    if (f != n) {
        vp_reach("another first");
        vp_assert(vpg_in, "a cell stays open until it is delivered");
        vp_assert(f->getValue() <= v, "the delivered cell is a cheapest open one");
        return;
    }
    vp_reach("delivered");
    vp_assert(!vpg_in, "a delivered cell is not open any more");
    vp_assert(n->isVisited(), "a delivered cell is closed");
    if (vp_bool("others")) other_op(l);
    Offer c = offer(l, prediction());
    vp_assert(!vpg_in, "a closed cell is not opened again");
    vp_assert(n->isVisited(), "a closed cell stays closed");
    vp_assert(n->getDistance() == d && n->getParent() == par, "a closed cell keeps its distance and parent");
    waypoint_t q = n->getPosition();
    vp_assert(q.x == t.x && q.y == t.y, "a closed cell keeps its position");
}
