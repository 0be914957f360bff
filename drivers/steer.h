// The moves of a vehicle with steering, offered to a search: the map and the search are the driver's.
#pragma once
#include "search_nodes.h"
#include <cslibs_path_planning/generic/SteeringNode.hpp>
typedef DirectionalNode<SteeringNode<HeuristicNode<Pose2d> > > M;
static M* at;                        // expanded state
static double res, ox, oy, ot;       // resolution, its pose
static int osteer;
static bool ofwd;
static char ocustom;
static int odepth;
static bool rev;                     // search from the goal
static double step_length, base;     // parameters of the vehicle
static int steer_max, steer_step, steps_max, switch_parts;
static double length_cells, backward, turn;
static M target;
static bool inside, passable, taken, asked_in, asked_line;
static double lx, ly, lt; static int ls; static bool lf, looked;
static bool seen[2][9];              // offered: direction, steering angle in steps
static int mode, calls;              // moves that are taken: none, all, every second
static M before[2];                  // predecessors
static int straight_parts;           // how many of them are straight
// what is recorded about the state the last move leads to
static void settle() {
    if (taken) {
        vp_reach("recorded");
        vp_assert(target.x == lx && target.y == ly && target.theta == lt, "a state that is reached by a move gets its pose");
        vp_assert(target.steering_angle == ls && target.forward == lf, "a state that is reached by a move gets its steering angle and driving direction");
        vp_assert(target.depth == odepth + 1, "a state that is reached by a move is one move farther from the start");
        vp_assert(target.custom == (ofwd != lf && odepth >= 1 ? switch_parts - 1 : ocustom > 0 ? ocustom - 1 : 0), "after a change of direction the given number of straight parts is left to drive, otherwise one less");
    } else vp_assert(target.x == -7 && target.depth == 99, "a state that is not reached by a move is left alone");
    taken = false;
    target.x = -7; target.depth = 99;
}
struct SMap { double getRotation() const { return vp_real("rotation"); } double getResolution() const { return res; } };
static SMap smap;
struct Map {
    const SMap* getMap() const { return &smap; }
    double getResolution() const { return res; }
    bool contains(double x, double y) { settle(); asked_in = true; asked_line = looked = false; lx = x; ly = y; return inside; }
    bool isFreeOrUnknown(double sx, double sy, double ex, double ey) {
        vp_assert(sx == ox && sy == oy, "the move from the expanded state is tested for obstacles");
        vp_assert(ex == lx && ey == ly && inside, "only a move inside the map is tested, up to its end");
        asked_line = true;
        return passable;
    }
    bool isOccupied(double sx, double sy, double ex, double ey) { return !isFreeOrUnknown(sx, sy, ex, ey); }
    bool isFree(double sx, double sy, double ex, double ey) { return isFreeOrUnknown(sx, sy, ex, ey) && vp_bool("known"); }
    bool isOccupied(const M* n) const { return vp_bool("occupied"); }
    bool isFree(const M* n) const { return vp_bool("free"); }
    M* lookup(double x, double y, double t, int s, bool f) {
        vp_assert(x == lx && y == ly, "the state at the end of the move is looked up");
        looked = true;
        lt = t; ls = s; lf = f;
        return &target;
    }
};
static double backward_start;        // length in meters of the first move of a vehicle that starts backwards, 0: a step
struct Search {
    SearchOptions search_options;
    NeighborhoodBase::ProcessingResult processNeighbor(M* a, M* b, double cost) {
        vp_assert(a == at && b == &target && looked, "the expanded state and the state at the end of the move are offered");
        vp_assert(inside && passable && asked_line, "only moves through cells of the map that are not occupied are offered");
        vp_assert(a->x == ox && a->y == oy && a->theta == ot, "the expanded state does not move");
        vp_assert(ls % steer_step == 0, "the steering angle changes by whole steps");
        seen[lf][ls / steer_step + 4] = true;
        // where the vehicle gets
        bool special = backward_start > 0 && odepth < 1 && !lf && !rev;
        double d = special ? backward_start : step_length;
        double ds = lf != rev ? d : -d;
        vp_assert(ls <= steer_max && ls >= -steer_max, "the steering angle stays in its limits");
        vp_assert(ls - osteer <= steer_step * steps_max && osteer - ls <= steer_step * steps_max || special, "the steering angle changes by the given steps at most");
        if (ls == 0) {
            vp_reach("straight");
            vp_assert(lx == ox + ds / res * std::cos(ot) && ly == oy + ds / res * std::sin(ot), "without steering the vehicle goes straight ahead");
            vp_assert(std::cos(lt) == std::cos(ot) && std::sin(lt) == std::sin(ot), "without steering the heading is kept");
        } else {
            vp_reach("curve");
            double r = base / std::tan(ls / 180. * M_PI) / res, t = ot + ds / (r * res);
            vp_assert(lx == ox + r * (std::sin(t) - std::sin(ot)) && ly == oy - r * (std::cos(t) - std::cos(ot)), "with steering the vehicle goes along the circle of the steering angle");
            vp_assert(std::cos(lt) == std::cos(t) && std::sin(lt) == std::sin(t), "with steering the heading turns by the part of the circle");
        }
        // what it costs
        double want = d / res;
        if (!lf) want *= backward;
        bool turns = ofwd != lf && odepth >= 1;
        if (turns) want *= turn;
        vp_assert(cost == want, "a move costs its length in cells, with the penalties for driving backwards and for changing direction");
        if (turns) {
            vp_reach("turn");
            vp_assert(ls == 0, "the driving direction only changes without steering");
            vp_assert(straight_parts >= switch_parts - 1, "the driving direction only changes after the given number of straight parts");
            vp_assert(ocustom <= 0, "the driving direction does not change again before the straight part is driven");
        }
        if (odepth < 1) vp_assert(lf == ofwd, "the first move goes in the driving direction of the start");
        taken = mode == 1 || (mode == 2 && ++calls % 2);
        return taken ? NeighborhoodBase::PR_ADDED_TO_OPEN_LIST : calls % 4 ? NeighborhoodBase::PR_CLOSED : NeighborhoodBase::PR_IGNORED;
    }
};
// the expanded state: m steering steps
static void prepare(M& ref, int m) {
    at = &ref;
    res = vp_real("res");
    vp_assume(res > 0);
    M::init(ref, 0, 0); M::init(target, 0, 0);
    ref.x = ox = vp_real("x"); ref.y = oy = vp_real("y"); ref.theta = ot = vp_real("theta");
    ref.forward = ofwd = vp_bool("forward");
    ref.steering_angle = osteer = m * steer_step;
    ref.custom = ocustom = vp_bool("go straight") ? 2 : 0;
    ref.depth = odepth = vp_bool("initial") ? 0 : 1;
    inside = vp_bool("inside"); passable = vp_bool("passable");
    mode = vp_bool("all") ? 1 : vp_bool("some") ? 2 : 0;
    calls = 0;
    taken = false;
    target.x = -7; target.depth = 99;
    for (int i = 0; i < 9; ++i) seen[0][i] = seen[1][i] = false;
    for (int i = 0; i < 2; ++i) M::init(before[i], 0, 0);
    // predecessors: none, one, two, with or without steering
    straight_parts = 0;
    if (vp_bool("first")) {
        ref.prev = &before[0];
        before[0].steering_angle = vp_bool("steered") ? steer_step : 0;
        if (before[0].steering_angle == 0) straight_parts = 1;
        if (vp_bool("second")) {
            before[0].prev = &before[1];
            before[1].steering_angle = vp_bool("steered before") ? -steer_step : 0;
            if (before[1].steering_angle == 0 && straight_parts == 1) straight_parts = 2;
        }
    }
}
static void complete(bool fwd, bool back) {
    settle();
    for (int f = 0; f < 2; ++f) {
        if (f ? !fwd : !back) continue;
        bool special = backward_start > 0 && odepth < 1 && !f && !rev;
        for (int k = -steps_max; k <= steps_max; ++k) {
            int s = osteer + k * steer_step;
            if (s > steer_max) s = steer_max;
            if (s < -steer_max) s = -steer_max;
            bool want = inside && passable;
            if (ocustom > 0 && osteer != 0) want = false;
            if (odepth < 1 && ofwd != (f == 1)) want = false;
            if (special) { if (k != 0) continue; s = 0; }
            if (odepth >= 1 && ofwd != (f == 1) && (s != 0 || ocustom > 0 || straight_parts < switch_parts - 1)) want = false;
            if (want) { vp_reach("possible"); vp_assert(seen[f][s / steer_step + 4], "every possible move is offered"); }
        }
    }
}
