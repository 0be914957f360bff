//@model
//@src src/a_star/OpenList.cpp src/a_star/Node.cpp
// A new search on a used open list behaves like the first one.
#include "openlist.h"

static void new_search(OpenList& l) {
    l.prepareNewSearch();
    vp_reach("prepared");
    vp_assert(!vpg_in, "no cell is open when a new search starts");
    vp_assert(l.getFirstNode() == 0, "nothing is delivered when a new search starts");
    Offer o = offer(l, prediction());
    recorded(o);
}
VP_DRIVER drv_unused() { sizes(); OpenList l(w, h); new_search(l); }
VP_DRIVER drv_used() {
    sizes();
    OpenList l(w, h);
    offer(l, prediction());
    if (vp_bool("again")) offer(l, prediction());
    if (vp_bool("take")) l.getFirstNode();
    new_search(l);
}
VP_DRIVER drv_used_again() {
    sizes();
    OpenList l(w, h);
    offer(l, prediction());
    l.prepareNewSearch();
    offer(l, prediction());
    if (vp_bool("take")) l.getFirstNode();
    new_search(l);
}
// t is used before, between or after other cells
static void add_other(OpenList& l) { l.addNode(other(), vp_real("d'"), prediction(), (Node*)vp_ptr("parent'")); }
VP_DRIVER drv_used_by_many() {
    sizes();
    OpenList l(w, h);
    offer(l, prediction());
    while (vp_bool("more others")) add_other(l);
    new_search(l);
}
VP_DRIVER drv_used_last() {
    sizes();
    OpenList l(w, h);
    add_other(l);
    offer(l, prediction());
    add_other(l);
    new_search(l);
}
VP_DRIVER drv_used_after_many() {
    sizes();
    OpenList l(w, h);
    offer(l, prediction());
    l.prepareNewSearch();
    while (vp_bool("more others")) add_other(l);
    offer(l, prediction());
    new_search(l);
}
