//@src src/common/Pose2d.cpp
// Predictions of the remaining way and the order of open cells.
#include "search_nodes.h"
static double dx, dy, res, dist, theta;
struct Goal { double x, y, theta; };
template <class H> struct Case {
    typedef typename H::template NodeHolder<Pose2d>::NodeType Node;
    Node n, g;
    Case() {
        Node::init(n, vp_real("x"), vp_real("y"));
        Node::init(g, vp_real("gx"), vp_real("gy"));
        n.theta = vp_real("theta");
        n.distance = vp_real("distance");
        n.mark(Node::MARK_OPEN);
        res = vp_real("res");
        vp_assume(res > 0);
        dist = n.distance; theta = n.theta;
        dx = n.x - g.x; dy = n.y - g.y;
    }
    void run() {
        double x = n.x, y = n.y;
        H::compute(&n, (const Node*)&g, res);
        vp_assert(n.x == x && n.y == y && n.theta == theta && n.distance == dist && n.isMarked(Node::MARK_OPEN), "a prediction changes nothing else");
    }
};
VP_DRIVER drv_l2() {
    Case<HeuristicL2> c;
    c.run();
    vp_assert(c.n.h >= 0 && c.n.h * c.n.h == res * res * (dx * dx + dy * dy), "the straight distance is predicted");
    vp_assert(c.n.getTotalCost() == dist + c.n.h, "cells are ordered by distance and prediction");
}
VP_DRIVER drv_l1() {
    Case<HeuristicL1> c;
    c.run();
    double ax = dx < 0 ? -dx : dx, ay = dy < 0 ? -dy : dy;
    vp_assert(c.n.h == res * (ax + ay), "the taxi distance is predicted");
    vp_assert(c.n.getTotalCost() == dist + c.n.h, "cells are ordered by distance and prediction");
}
VP_DRIVER drv_linf() {
    Case<HeuristicLInf> c;
    c.run();
    double ax = dx < 0 ? -dx : dx, ay = dy < 0 ? -dy : dy;
    vp_assert(c.n.h == res * (ax < ay ? ay : ax), "the larger of both distances is predicted");
    vp_assert(c.n.getTotalCost() == dist + c.n.h, "cells are ordered by distance and prediction");
}
VP_DRIVER drv_none() {
    Case<NoHeuristic> c;
    c.run();
    vp_assert(c.n.getTotalCost() == dist, "without prediction cells are ordered by distance");
}
// the larger of two predictions
static double ha, hb;
template <int I> struct Any {
    template <class P> struct NodeHolder { typedef HeuristicNode<P> NodeType; };
    template <class A, class B> static void compute(A* a, const B*, double r) {
        vp_assert(r == res, "both predictions are made for the resolution of the map");
        a->h = I ? hb : ha;
    }
    template <class M, class G> static void setMap(const M*, const G&) {}
};
VP_DRIVER drv_max() {
    ha = vp_real("ha"); hb = vp_real("hb");
    Case<MaxHeuristic<Any<0>, Any<1> > > c;
    c.run();
    vp_assert(c.n.h == (ha < hb ? hb : ha), "the larger prediction is used");
    vp_assert(c.n.getTotalCost() == dist + c.n.h, "cells are ordered by distance and prediction");
}
VP_DRIVER drv_max_of_two() {
    Case<MaxHeuristic<HeuristicLInf, HeuristicL1> > c;
    c.run();
    double ax = dx < 0 ? -dx : dx, ay = dy < 0 ? -dy : dy;
    vp_assert(c.n.h == res * (ax + ay), "the larger prediction is used");
}
// a fresh cell, and the order of two cells
template <class T> static void fresh() {
    T n;
    if (vp_bool("from a pose")) {
        Pose2d p;
        p.x = vp_real("x"); p.y = vp_real("y"); p.theta = 0;
        T::init(n, p);
        vp_assert(n.x == p.x && n.y == p.y, "a cell is at its place");
    } else {
        unsigned x = vp_u32("x"), y = vp_u32("y");
        T::init(n, x, y);
        vp_assert(n.x == x && n.y == y, "a cell is at its place");
    }
    vp_reach("fresh");
    vp_assert(n.distance == INFINITY && n.prev == 0 && n.marked == T::MARK_NONE && n.custom == 0, "a cell that was not reached is infinitely far away, unmarked and has no predecessor");
}
VP_DRIVER drv_fresh() { fresh<HeuristicL2::NodeHolder<Pose2d>::NodeType>(); fresh<NoHeuristic::NodeHolder<Pose2d>::NodeType>(); }
VP_DRIVER drv_marks() {
    vp_unroll(12, 1000);
    N n;
    N::init(n, 0, 0);
    static const char all[] = {N::MARK_OPEN, N::MARK_CLOSED, N::MARK_WATCHED, N::MARK_EXPANDED};
    bool want[4];
    for (int i = 0; i < 4; ++i) { want[i] = vp_bool("mark"); if (want[i]) n.mark(all[i]); }
    for (int i = 0; i < 4; ++i) vp_assert(n.isMarked(all[i]) == want[i], "marks are independent");
    int k = vp_bool("a") ? 0 : vp_bool("b") ? 1 : vp_bool("c") ? 2 : 3;
    n.unMark(all[k]);
    want[k] = false;
    for (int i = 0; i < 4; ++i) vp_assert(n.isMarked(all[i]) == want[i], "marks are independent");
}
VP_DRIVER drv_order() {
    N a, b;
    a.distance = vp_real("da"); a.h = vp_real("ha");
    b.distance = vp_real("db"); b.h = vp_real("hb");
    CompareNode<N> c;
    vp_assert(c(&a, &b) == (a.distance + a.h > b.distance + b.h), "the cell of least total cost comes first");
}
