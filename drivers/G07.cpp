//@src src/common/Pose2d.cpp
//@src src/generic/DynamicSteeringNeighborhood.cpp
// Moves of the neighbourhood with compile time parameters.
#include "steer.h"
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
template <class Nb> static void moves(int m, bool back) {
    vp_unroll(40, 4000);
    M ref;
    prepare(ref, m);
    if (!back) { vp_assume(ofwd || odepth < 1); vp_assume(ocustom <= 0); }
    Nb::setResolution(res);
    Search s;
    s.search_options.penalty_backward = backward = vp_real("backward");
    s.search_options.penalty_turn = turn = vp_real("turn");
    vp_assume(backward > 0); vp_assume(turn > 0);
    Map map;
    Nb::iterateFreeNeighbors(s, map, &ref);
    complete(true, back);
}
enum { BOTH = SteeringMoves::FORWARD_BACKWARD, ONLY = SteeringMoves::FORWARD };
static void vehicle(bool r, int steps, int parts) { rev = r; step_length = 0.4; base = 0.4 * parts; steer_max = 30; steer_step = 15; steps_max = steps; switch_parts = parts; backward_start = 0; }
VP_DRIVER drv_straight() { vehicle(false, 1, 3); moves<SteeringNeighborhood<40, 1, 15, 30, 120> >(0, true); }
VP_DRIVER drv_left() { vehicle(false, 1, 1); moves<SteeringNeighborhood<40, 1, 15, 30, 40> >(1, true); }
VP_DRIVER drv_right() { vehicle(false, 2, 2); moves<SteeringNeighborhood<40, 2, 15, 30, 80> >(-1, true); }
VP_DRIVER drv_limit() { vehicle(false, 1, 1); moves<SteeringNeighborhood<40, 1, 15, 30, 40> >(2, true); }
VP_DRIVER drv_reversed() { vehicle(true, 1, 2); moves<SteeringNeighborhood<40, 1, 15, 30, 80, BOTH, true> >(0, true); }
VP_DRIVER drv_reversed_left() { vehicle(true, 1, 1); moves<SteeringNeighborhood<40, 1, 15, 30, 40, BOTH, true> >(1, true); }
VP_DRIVER drv_forward_only() { vehicle(false, 1, 1); moves<SteeringNeighborhood<40, 1, 15, 30, 40, ONLY> >(0, false); }
// the neighbourhood with run time parameters
#include <cslibs_path_planning/generic/DynamicSteeringNeighborhood.h>
static void dynamic(bool r, int steps, int m, bool fwd, bool back) {
    typedef DynamicSteeringNeighborhood D;
    vp_unroll(40, 4000);
    M ref;
    prepare(ref, m);
    vp_assume(odepth > 0 || ocustom <= 0);
    rev = D::reversed = r;
    step_length = D::distance_step = vp_real("step");
    base = D::LA = vp_real("base");
    vp_assume(step_length > 0); vp_assume(base > 0);
    D::MAX_STEER_ANGLE = steer_max; D::STEER_DELTA = steer_step; D::steer_steps = steps_max;
    D::allow_forward = fwd; D::allow_backward = back;
    if (!fwd) vp_assume(!ofwd || odepth < 1);
    if (!back) vp_assume(ofwd || odepth < 1);
    switch_parts = 1;
    backward_start = base;
    D::setResolution(res);
    Search s;
    s.search_options.penalty_backward = backward = vp_real("backward");
    s.search_options.penalty_turn = turn = vp_real("turn");
    vp_assume(backward > 0); vp_assume(turn > 0);
    Map map;
    D::iterateFreeNeighbors(s, map, &ref);
    complete(fwd, back);
}
static void dvehicle(int steps) { steer_max = 30; steer_step = 15; steps_max = steps; }
VP_DRIVER drv_dynamic() { dvehicle(1); dynamic(false, 1, 0, true, true); }
VP_DRIVER drv_dynamic_left() { dvehicle(2); dynamic(false, 2, 1, true, true); }
VP_DRIVER drv_dynamic_reversed() { dvehicle(1); dynamic(true, 1, -1, true, true); }
VP_DRIVER drv_dynamic_forward() { dvehicle(1); dynamic(false, 1, 2, true, false); }
VP_DRIVER drv_dynamic_backward() { dvehicle(1); dynamic(false, 1, 0, false, true); }
VP_DRIVER drv_dynamic_goal() {
    typedef DynamicSteeringNeighborhood D;
    M n, g;
    M::init(n, 0, 0); M::init(g, 0, 0);
    n.x = vp_real("x"); n.y = vp_real("y"); n.theta = vp_real("theta");
    g.x = vp_real("gx"); g.y = vp_real("gy"); g.theta = vp_real("gtheta");
    res = vp_real("res");
    vp_assume(res > 0);
    D::setResolution(res);
    D::goal_dist_threshold = vp_real("near");
    D::goal_angle_threshold = vp_real("angle");
    vp_assume(D::goal_dist_threshold > 0); vp_assume(D::goal_angle_threshold > 0);
    double dist = std::hypot(n.x - g.x, n.y - g.y) * res;
    bool near = dist < D::goal_dist_threshold;
    double d = MathHelper::AngleClamp(g.theta - n.theta);
    if (d < 0) d = -d;
    bool is = D::isGoal(&g, &n);
    if (is) {
        vp_reach("goal");
        vp_assert(near, "a goal is only reached within the distance threshold");
        vp_assert(d <= D::goal_angle_threshold, "a goal is only reached within the angle threshold");
    } else {
        vp_reach("no goal");
        vp_assert(!near || d >= D::goal_angle_threshold, "a goal is reached within both thresholds");
    }
}
VP_DRIVER drv_dynamic_resolution() {
    typedef DynamicSteeringNeighborhood D;
    D::distance_step = vp_real("step");
    double r = vp_real("res");
    vp_assume(r > 0);
    D::setResolution(r);
    vp_assert(D::resolution == r && D::distance_step_pixel * r == D::distance_step, "a step has its length in cells of the map");
}
