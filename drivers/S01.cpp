//@src src/sampling/GoalRegion.cpp src/sampling/CentroidRadiusGoalRegion.cpp src/sampling/RingGoalRegion.cpp src/common/Point2d.cpp src/common/Pose2d.cpp
// The poses a goal region delivers.
#include "vp.h"
#include <cmath>
#include <cstdlib>
#include <cslibs_path_planning/sampling/CentroidRadiusGoalRegion.h>
#include <cslibs_path_planning/sampling/RingGoalRegion.h>
using namespace lib_path;
static double ring_width;
extern "C" int rand() noexcept {
    int r = vp_int("rand");
    vp_assume(r >= 0);
    vp_assume(ring_width * r >= 0);      // both factors are positive
    vp_assume(ring_width * r <= ring_width * (double)RAND_MAX);
    return r;
}
static bool same(double a, double b) { return std::cos(a) == std::cos(b) && std::sin(a) == std::sin(b); }
static const double TINY = 1e-6;     // narrower angles are treated as zero
// n poses around `center`, headed towards it
template <int n> static void around(bool again) {
    vp_unroll(12, 40);
    Point2d src(vp_real("sx"), vp_real("sy")), center(vp_real("cx"), vp_real("cy"));
    double r = vp_real("radius"), angle = vp_real("angle");
    vp_assume(r > 0 && (angle >= TINY || angle <= -TINY || angle == 0));
    double width = angle < 0 ? -angle : angle;
    CentroidRadiusGoalRegion region(src, center, r, angle);
    GoalRegion& g = region;
    Pose2d p;
    double gain = 7;
    if (again) {
        g.init(4);
        for (int i = 0; i < 3; ++i) g.getNextGoal(p, gain);
    }
    g.init(n);
    double direct = std::atan2(center.y - src.y, center.x - src.x);
    int m = width > 0 ? n : 1;
    double last = 0;
    for (int k = 0; k < n; ++k) {
        if (k >= m) break;
        gain = 7;
        vp_assert(g.getNextGoal(p, gain), "as many poses as demanded are delivered");
        vp_assert(p.x + r * std::cos(p.theta) == center.x && p.y + r * std::sin(p.theta) == center.y, "every pose is at the distance from the center and headed towards it");
        double want = m > 1 ? direct - width / 2 + k * (width / (m - 1)) : direct;
        vp_assert(same(p.theta, want), "the headings are spread evenly around the direct one");
        vp_assert(gain >= 1 && gain <= 2, "the gain is between one and two");
        vp_assert(gain == 1 || 2 * k + 1 != m, "the direct approach has the least gain");
        bool beyond = 2 * k > m;
        vp_assert(k == 0 || (beyond ? gain >= last : gain <= last), "the gain grows with the angle to the direct approach");
        last = gain;
    }
    vp_assert(!g.getNextGoal(p, gain) && !g.getNextGoal(p, gain), "no more poses than demanded are delivered");
    vp_reach("done");
}
VP_DRIVER drv_around_1() { around<1>(false); }
VP_DRIVER drv_around_2() { around<2>(false); }
VP_DRIVER drv_around_5() { around<5>(false); }
VP_DRIVER drv_around_4_again() { around<4>(true); }
VP_DRIVER drvt_around_8() { around<8>(true); }
VP_DRIVER drvt_around_9() { around<9>(true); }
template <int n> static void ring(bool again) {
    vp_unroll(12, 40);
    Point2d center(vp_real("cx"), vp_real("cy"));
    double r = vp_real("radius"), width = vp_real("width");
    vp_assume(width >= 0 && r != 0);
    ring_width = width;
    RingGoalRegion region(center, r, width);
    GoalRegion& g = region;
    Pose2d p;
    double gain = 1;
    if (again) {
        g.init(4);
        for (int i = 0; i < 3; ++i) g.getNextGoal(p, gain);
    }
    g.init(n);
    for (int k = 0; k < n; ++k) {
        vp_assert(g.getNextGoal(p, gain), "as many poses as demanded are delivered");
        double a = k * 2 * M_PI / n, dx = p.x - center.x, dy = p.y - center.y;
        vp_assert(dx * std::sin(a) == dy * std::cos(a), "the poses are spread evenly around the center");
        double d = dx * std::cos(a) + dy * std::sin(a), abs = r > 0 ? r : -r;
        vp_assert(d >= abs - width / 2 && d <= abs + width / 2, "every pose lies on the ring");
        vp_assert(gain == 1, "all poses of a ring have the same gain");
        vp_assert(same(p.theta, r > 0 ? a + M_PI / 2 : a - M_PI / 2), "a pose is headed along the ring, counterclockwise for positive radius");
    }
    vp_assert(!g.getNextGoal(p, gain) && !g.getNextGoal(p, gain), "no more poses than demanded are delivered");
    vp_reach("done");
}
VP_DRIVER drv_ring_1() { ring<1>(false); }
VP_DRIVER drv_ring_3() { ring<3>(false); }
VP_DRIVER drv_ring_4() { ring<4>(true); }
VP_DRIVER drvt_ring_6() { ring<6>(true); }
// any number of poses
VP_DRIVER drv_count() {
    Point2d center(vp_real("cx"), vp_real("cy"));
    RingGoalRegion region(center, vp_real("radius"), vp_real("width"));
    int n = vp_int("n"), i = 0;
    vp_assume(n > 0);
    region.init(n);
    Pose2d p;
    double gain = 1;
    while (region.getNextGoal(p, gain)) ++i;
    vp_assert(i == n, "exactly as many poses as demanded are delivered");
}
VP_DRIVER drv_count_around() {
    Point2d src(vp_real("sx"), vp_real("sy")), center(vp_real("cx"), vp_real("cy"));
    CentroidRadiusGoalRegion region(src, center, vp_real("radius"), 1.0);
    int n = vp_int("n"), i = 0;
    vp_assume(n > 0);
    region.init(n);
    Pose2d p;
    double gain = 1;
    while (region.getNextGoal(p, gain)) ++i;
    vp_assert(i == n, "exactly as many poses as demanded are delivered");
}
