//@src src/sampling/GoalRegion.cpp src/sampling/SamplingPlanner.cpp src/common/MapMath.cpp src/common/GridMap2d.cpp src/common/Point2d.cpp src/common/Pose2d.cpp
// The planner that tries the poses of a goal region; curves are the driver's.
#include "vp.h"
#include "obs_map.h"
#include <cslibs_path_planning/sampling/SamplingPlanner.h>
using namespace lib_path;
static const int MAX = 4;
static int made, released;
static Curve* curve[MAX];            // the curve that was found for the i-th request
static double cost[MAX];
static bool valid[MAX], gone[MAX];
static int of(const Curve* c) { for (int i = 0; i < made; ++i) if (curve[i] == c) return i; vp_fail("only found curves are used"); return 0; }
namespace lib_path {
Curve::Curve() {}
Curve::~Curve() { int i = of(this); vp_assert(!gone[i], "a curve is released once"); gone[i] = true; ++released; }
bool Curve::is_valid() { int i = of(this); vp_assert(!gone[i], "no released curve is used"); return valid[i]; }
double Curve::weight() const { int i = of(this); vp_assert(!gone[i], "no released curve is used"); return cost[i]; }
void Curve::reset_iteration() {}
bool Curve::has_next() { return false; }
Pose2d Curve::next() { return Pose2d(); }
}
static ObsMap* map;
static Pose2d from, sample[MAX];
static double gains[MAX];
static bool inside[MAX];
static int samples, delivered, requests, request_of[MAX], made_of[MAX];
static double cost_of[MAX];
static bool good[MAX];
struct Region : GoalRegion {
    int inits;
    Region() : inits(0) {}
    void init(unsigned n) { vp_assert(n == 17, "the demanded number of samples is passed on"); ++inits; delivered = 0; }
    bool getNextGoal(Pose2d& goal, double& gain) {
        vp_assert(inits == 1, "a region is initialised once, before its poses are used");
        if (delivered >= samples) return false;
        goal = sample[delivered]; gain = gains[delivered];
        ++delivered;
        return true;
    }
};
namespace lib_path {
CurveGenerator::CurveGenerator() {}
Curve* CurveGenerator::find_path(const Pose2d& s, const Pose2d& g, const GridMap2d* m, bool ignore) {
    vp_assert(m == map && !ignore, "curves are looked for in the map of the planner");
    int k = delivered - 1;
    const Pose2d& p = sample[k];
    vp_assert(inside[k], "no curve leads out of the map");
    vp_assert(s.x * map->res == from.x - map->ox && s.y * map->res == from.y - map->oy && s.theta == from.theta, "curves begin at the start");
    vp_assert(g.x * map->res == p.x - map->ox && g.y * map->res == p.y - map->oy && g.theta == p.theta, "curves end at the pose of the region");
    request_of[k] = ++requests;
    if (vp_bool("none")) return 0;
    Curve* c = new Curve;
    curve[made] = c; cost[made] = vp_real("weight"); valid[made] = vp_bool("valid"); gone[made] = false;
    vp_assume(cost[made] > 0 && cost[made] * gains[k] < 999999);
    cost_of[k] = cost[made] * gains[k];
    good[k] = valid[made];
    made_of[k] = made;
    ++made;
    return c;
}
}

template <int n> static void plan() {
    vp_unroll(12, 100000);
    ObsMap m;
    map = &m;
    from.x = vp_real("x"); from.y = vp_real("y"); from.theta = vp_real("theta");
    samples = n;
    for (int i = 0; i < n; ++i) {
        sample[i].x = vp_real("gx"); sample[i].y = vp_real("gy"); sample[i].theta = vp_real("gtheta");
        gains[i] = vp_real("gain"); inside[i] = m.isInMap(sample[i].x, sample[i].y);
        vp_assume(gains[i] >= 1);
        request_of[i] = 0; good[i] = false; made_of[i] = -1;
    }
    made = released = requests = delivered = 0;
    CurveGenerator generator;
    SamplingPlanner planner(&generator, &m);
    Region region;
    Curve* c = planner.createPath(from, &region, 17);
    if (!m.isInMap(from.x, from.y)) {
        vp_reach("outside");
        vp_assert(!c && made == 0, "there is no curve from a start outside of the map");
        return;
    }
    int best = -1;
    for (int i = 0; i < n; ++i) {
        vp_assert((request_of[i] > 0) == inside[i], "a curve to every pose in the map is looked for");
        if (good[i] && (best < 0 || cost_of[i] < cost_of[best])) best = i;
    }
    if (best < 0) {
        vp_reach("none");
        vp_assert(!c, "without a valid curve there is no path");
        vp_assert(released == made, "all other curves are released");
    } else {
        vp_reach("found");
        int k = -1;
        for (int i = 0; i < made; ++i) if (curve[i] == c) k = i;
        vp_assert(k >= 0 && !gone[k], "a curve that was found is delivered");
        bool least = false;
        for (int i = 0; i < n; ++i) if (made_of[i] == k) least = good[i] && cost_of[i] == cost_of[best];
        vp_assert(least, "the valid curve of least cost times gain is delivered");
        vp_assert(released == made - 1, "all other curves are released");
    }
}
VP_DRIVER drv_plan_1() { plan<1>(); }
VP_DRIVER drv_plan_2() { plan<2>(); }
VP_DRIVER drv_plan_3() { plan<3>(); }
VP_DRIVER drvt_plan_4() { plan<4>(); }
