#pragma once
#include "vp.h"
#include <cslibs_path_planning/a_star/OpenList.h>
using namespace lib_path;

bool vpg_in;
const void* vpg_ptr;
static waypoint_t t;
static int w, h;
static bool offering;        // the running operation offers t
extern "C" bool vp_is_tracked(const void* p) { return offering || (vpg_ptr && p == vpg_ptr); }
static void sizes() {
    offering = false; vpg_in = false; vpg_ptr = 0;
    w = vp_int("w"); h = vp_int("h");
    vp_assume(w > 0 && h > 0);
    t.x = vp_int("tx"); t.y = vp_int("ty");
    vp_assume(0 <= t.x && t.x < w && 0 <= t.y && t.y < h);
}
static waypoint_t other() {
    waypoint_t p;
    p.x = vp_int("x"); p.y = vp_int("y");
    vp_assume(0 <= p.x && p.x < w && 0 <= p.y && p.y < h);
    vp_assume(p.x != t.x || p.y != t.y);
    return p;
}
struct Offer { double d, pred; Node* parent; };
static Offer offer(OpenList& l, double pred) {
    Offer o;
    o.d = vp_real("d"); o.pred = pred; o.parent = (Node*)vp_ptr("parent");
    vp_assume(o.d >= 0);
    offering = true;
    l.addNode(t, o.d, o.pred, o.parent);
    offering = false;
    return o;
}
static double prediction() { double p = vp_real("prediction"); vp_assume(p >= 0); return p; }
static void recorded(const Offer& o) {
    const Node* n = (const Node*)vpg_ptr;
    vp_assert(vpg_in, "an offered cell is open");
    waypoint_t q = n->getPosition();
    vp_assert(q.x == t.x && q.y == t.y, "an open cell knows its position");
    vp_assert(n->getDistance() == o.d, "an open cell has the offered distance");
    vp_assert(n->getParent() == o.parent, "an open cell has the offered parent");
    vp_assert(n->getValue() == (int)(o.d + o.pred), "an open cell is ordered by distance plus prediction");
    vp_assert(!n->isVisited(), "an open cell is not closed");
}
static void other_op(OpenList& l) {
    if (vp_bool("add")) { l.addNode(other(), vp_real("d'"), prediction(), (Node*)vp_ptr("parent'")); return; }
    Node* f = l.getFirstNode();
    vp_assume(f != vpg_ptr || f == 0);
}
