G = "src/ReedsShepp/GeometryHelper.cpp"
C = "src/ReedsShepp/CircleSegment.cpp"
LS = "src/ReedsShepp/LineSegment.cpp"
CG = "src/ReedsShepp/CurveGenerator.cpp"
CU = "src/ReedsShepp/Curve.cpp"
ALL = [CG, CU, G]
SRC = [G, "src/ReedsShepp/CircleSegment.cpp", "src/ReedsShepp/LineSegment.cpp", "src/ReedsShepp/CurveSegment.cpp", "src/common/GridMap2d.cpp",
       "src/common/SimpleGridMap2d.cpp", "src/common/Bresenham2d.cpp", "src/common/Point2d.cpp", "src/common/Pose2d.cpp"]
H = """#include <cslibs_path_planning/ReedsShepp/GeometryHelper.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cstdlib>
#include <cmath>
using namespace lib_path;
static bool same(Point2d a, Point2d b) { return std::hypot(a.x - b.x, a.y - b.y) < 1e-3; }
static void prep(SimpleGridMap2d& m, CircleSegment& c, double x, double y, double r) {
    c.set_map(&m); c.set_max_distance(1); c.set_radius(r); Point2d p(x, y); c.set_center(p); c.set_start_angle(0); c.set_end_angle(0);
}
#define L CircleSegment::LEFT_CURVE
#define R CircleSegment::RIGHT_CURVE
#define F CurveSegment::FORWARD
#define B CurveSegment::BACKWARD
"""
GEN = """#include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <sstream>
#include <cmath>
using namespace lib_path;
static std::stringstream quiet;
"""
BUGS = [
 {"id": "R04_reverse_crossing", "property": "R04",
  "edits": [(G, """    circle_from.set_end_angle(orientation + gamma);
    circle_to.set_start_angle(orientation + gamma + M_PI);

    Point2d offset = circle_from.get_end_point() - circle_from.get_center();

    Point2d p = s + offset;
    Point2d q = g - offset;
""", """    double leave = NORMALIZE(orientation + gamma);
    circle_from.set_end_angle(leave);
    circle_to.set_start_angle(leave <= 0 ? leave + M_PI : leave - M_PI);

    // the tangent points lie opposite to each other
    Point2d offset = Point2d::from_polar(line_is_reverse ? orientation - gamma : leave, circle_from.m_radius);

    Point2d p = s + offset;
    Point2d q = g - offset;
""")],
  "srcs": SRC, "needs": "a left circle followed by a right circle joined by a straight part that is driven backwards",
  "breaks": "the straight part does not start where the first circle ends",
  "demo": H + """int main() { SimpleGridMap2d m(200, 200, 1.0); m.set((uint8_t)0); CircleSegment a(L, F), b(R, F); LineSegment l(B);
  prep(m, a, 50, 50, 10); prep(m, b, 110, 90, 10); if (!GeometryHelper::get_common_tangent(a, b, l)) return 2;
  return same(a.get_end_point(), l.start()) && same(l.end(), b.get_start_point()) ? 0 : 1; }
"""},
 {"id": "R04_last_solution", "property": "R04",
  "edits": [(G, """        if(weight_positive < weight_negative) {
            callback(circles, true);
        } else {
            callback(circles, false);
        }
        return true;""", """        // the circles already describe the second solution
        if(weight_positive < weight_negative && weight_negative < NOT_FREE) {
            callback(circles, true);
        }
        return true;""")],
  "srcs": SRC, "needs": "three circles where the first of the two symmetric solutions is free and the second one is blocked",
  "breaks": "the blocked solution is used",
  "demo": H + """int main() { int found = 0; for (int k = 0; k < 400; ++k) { SimpleGridMap2d m(200, 200, 1.0); m.set((uint8_t)0); CircleSegment a(L, F), c(R, F), b(L, F);
  srand(k); for (int j = 0; j < 8; ++j) m.setValue(70 + rand() % 60, 70 + rand() % 60, 255);
  prep(m, a, 90, 100, 8); prep(m, c, 100, 100, 8); prep(m, b, 110, 100, 8); a.set_start_angle(3.0); b.set_end_angle(1.5);
  if (!GeometryHelper::get_tangential_circle(a, c, b, false)) continue; ++found;
  if (a.weight(false) + c.weight(false) + b.weight(false) >= NOT_FREE) return 1; } return found ? 0 : 2; }
"""},
 {"id": "R04_double_back", "property": "R04",
  "edits": [(G, """    circle2.set_end_angle(center_2_to_3.angle());
    circle3.set_start_angle(center_2_to_3.angle() + M_PI);

    circle_from.set_end_angle((C2 - s).angle());
    circle_to.set_start_angle((C3 - g).angle());
""", """    circle2.set_end_angle(theta);
    circle3.set_start_angle(theta + M_PI);

    // the figure is symmetric
    circle_from.set_end_angle(center_1_to_2.angle());
    circle_to.set_start_angle(fabs(gamma) > M_PI / 2 ? center_1_to_2.angle() - M_PI : theta - gamma - M_PI);
""")],
  "srcs": SRC, "needs": "four circles in a row whose outer circles are closer together than two radii",
  "breaks": "the third and fourth circle do not meet",
  "demo": H + """int main() { SimpleGridMap2d m(400, 400, 1.0); m.set((uint8_t)0); for (int d = 5; d < 55; d += 10) { CircleSegment a(L, F), c(R, F), e(L, B), b(R, B);
  prep(m, a, 200, 200, 10); prep(m, c, 0, 0, 10); prep(m, e, 0, 0, 10); prep(m, b, 200 + d, 200, 10); a.set_start_angle(2); b.set_end_angle(1);
  if (!GeometryHelper::get_tangential_double_circle(a, c, e, b, true)) return 2;
  if (!same(e.get_end_point(), b.get_start_point()) || !same(a.get_end_point(), c.get_start_point())) return 1; } return 0; }
"""},

 {"id": "R02_backward_arc", "property": "R02",
  "edits": [(C, """        bool increasing = m_angle_step_size > 0;//(m_arc_length > 0) ^ (m_direction == BACKWARD);
""", """        bool increasing = m_orientation == LEFT_CURVE;
""")],
  "srcs": SRC, "needs": "an arc that is driven backwards with an obstacle below one of the two arcs between its ends",
  "breaks": "the collision check looks at the complementary arc",
  "demo": H + """int main() { SimpleGridMap2d m(200, 200, 1.0); m.set((uint8_t)0); m.setValue(120, 100, 255); CircleSegment a(L, B); prep(m, a, 100, 100, 20);
  a.set_start_angle(1); a.set_end_angle(-1); if (a.weight(false) < NOT_FREE) return 1; CircleSegment f(L, F); prep(m, f, 100, 100, 20);
  f.set_start_angle(1); f.set_end_angle(-1); return f.weight(false) < NOT_FREE ? 0 : 2; }
"""},
 {"id": "R02_near_diagonal", "property": "R02",
  "edits": [(C, """    while(x >= y) {
        is_free &= test8Points(cx, cy, x, y, ignore_obstacles);
""", """    while(x >= y) {
        // both halves of the octants end in the same cells
        if(x - y == 1 && error + 2 * y + 1 >= 0)
            is_free &= test4Points(cx, cy, x, y, ignore_obstacles);
        else
            is_free &= test8Points(cx, cy, x, y, ignore_obstacles);
""")],
  "srcs": SRC, "needs": "a radius whose rasterised circle passes beside the diagonal, and an obstacle exactly there in the upper half of the octant",
  "breaks": "an arc over an obstacle counts as free",
  "demo": H + """int main() { for (int r = 3; r < 40; ++r) for (int k = 0; k < 4; ++k) { int x = r, y = 0, e = -r; SimpleGridMap2d m(200, 200, 1.0);
  while (x >= y) { m.set((uint8_t)0); m.setValue(100 + (k & 1 ? -y : y), 100 + (k & 2 ? -x : x), 255); CircleSegment a(L, F); prep(m, a, 100, 100, r);
    a.set_start_angle(0.01); a.set_end_angle(-0.01); if (y > 0 && a.weight(false) < NOT_FREE) return 1;
    e += 2 * y + 1; ++y; if (e >= 0) { e -= 2 * x - 1; --x; } } } return 0; }
"""},
 {"id": "R02_leaves_map", "property": "R02",
  "edits": [(LS, """        if(m_map->isInMap(x0, y0)) {
            bool free""", """        bool inside = m_map->isInMap(x0, y0);
        // nothing is known about the rest of a line that leaves the map
        if(!inside && dx > -dy) {
            x0 = x1;
            y0 = y1;
        }
        if(inside) {
            bool free""")],
  "srcs": SRC, "needs": "a line with a small slope in a map that answers that some cells between the ends are outside of it (a map with a hole or a bay), and an obstacle behind them",
  "breaks": "obstacles and costs behind the hole do not count",
  "demo": H + """struct Bay : SimpleGridMap2d { Bay() : SimpleGridMap2d(100, 100, 1.0) {} bool isInMap(const int x, const int y) const { return x >= 0 && y >= 0 && x < 100 && y < 100 && (x < 40 || x > 45); }
  bool isInMap(double x, double y) const { return isInMap((int) x, (int) y); } };
int main() { Bay m; m.set((uint8_t)0); m.setValue(60, 50, 255); LineSegment l(F); l.set_map(&m); l.set_max_distance(1); l.set_points(Point2d(20.5, 50.5), Point2d(80.5, 50.5));
  return l.weight(false) >= NOT_FREE ? 0 : 1; }
"""},
 {"id": "R02_map_cost", "property": "R02",
  "edits": [(LS, """            path_cost += max(m_min_cell_cost, m_map->getValue(x0, y0));""",
   """            uint8_t cost = m_map->getValue(x0, y0);
            if(cost < m_min_cell_cost && path_cost == 0)
                path_cost = m_min_cell_cost;
            else
                path_cost += cost;""")],
  "srcs": SRC, "needs": "map cost and a line over several cells whose value is below the minimum",
  "breaks": "the weight does not count the minimum for these cells",
  "demo": H + """int main() { SimpleGridMap2d m(100, 100, 1.0); m.set((uint8_t)2); LineSegment l(F); l.set_map(&m); l.set_max_distance(1); l.set_use_map_cost(true); l.set_min_cell_cost(10);
  l.set_cost_forwards(1); l.set_cost_backwards(1); l.set_cost_straight(1); l.set_cost_curve(1); l.set_points(Point2d(10.5, 10.5), Point2d(14.5, 10.5));
  return std::fabs(l.weight(false) - 50) < 1e-3 ? 0 : 1; }
"""},

 {"id": "R01_sub_of_line", "property": "R01",
  "edits": [(CG, """                if(typeid(cs) == typeid(CircleSegment)) {""", """                // circles are the rule, only a leading straight segment is wrong
                if(typeid(cs) == typeid(CircleSegment) || new_curve.count() > 1) {""")],
  "srcs": [CG, CU] + SRC, "needs": "a subpattern with b after a straight segment that is not the first one",
  "breaks": "a wrong description is accepted",
  "demo": GEN + """int main() { CurveGenerator g; return !g.parse("S(b)", quiet) && !g.parse("LS(b)L", quiet) && g.parse("LL(b)L", quiet) ? 0 : 1; }
"""},
 {"id": "R01_open_end", "property": "R01",
  "edits": [(CG, """            case 'p':
                break;
            case ')':
                is_sub_pattern = false;
                break;
            case 'S':""", """            case 'p':
                // last character of a subpattern
                if(it + 1 == sequence.end())
                    is_sub_pattern = false;
                break;
            case ')':
                is_sub_pattern = false;
                break;
            case 'S':""")],
  "srcs": [CG, CU] + SRC, "needs": "a description that ends with p inside of a subpattern",
  "breaks": "a subpattern that is not closed is accepted",
  "demo": GEN + """int main() { CurveGenerator g; return !g.parse("L(b", quiet) && !g.parse("LSL(bp", quiet) && g.parse("LSL(bp)", quiet) ? 0 : 1; }
"""},
 {"id": "R05_limit_hides", "property": "R05",
  "edits": [(CG, """            if(curve_arc < m_max_curve_arc) {
                best_curve = &*c;
                best_weight = weight;
            }""", """            if(curve_arc < m_max_curve_arc)
                best_curve = &*c;
            best_weight = weight;""")],
  "srcs": [CG, CU] + SRC, "needs": "two candidates where the cheaper one, tried first, turns more than the limit",
  "breaks": "the admissible candidate is not found",
  "demo": GEN + """static SimpleGridMap2d m(400, 400, 1.0);
static Curve* find(double limit, double th, double x, double y, bool both) { CurveGenerator g; if (both) g.parse("RSR", quiet); g.parse("LSL", quiet);
 g.set_circle_radius(20); g.set_max_waypoint_distance(20); g.set_cost_curve(0.1); g.set_max_curve_arc(limit); return g.find_path(Pose2d(200, 200, 0), Pose2d(x, y, th), &m); }
int main() { m.set((uint8_t)0); for (double x = 140; x < 261; x += 30) for (double y = 140; y < 261; y += 30) for (double th = -3; th < 3; th += 0.5) for (double l = 0.5; l < 12; l += 0.5) { Curve* one = find(l, th, x, y, false); Curve* two = find(l, th, x, y, true); if (one && !two) return 1; } return 0; }
"""},
 {"id": "R05_old_radius", "property": "R05",
  "edits": [(CG, """        c->m_circle_radius = m_circle_radius / map->getResolution();
        c->m_max_waypoint_distance = m_max_waypoint_distance / map->getResolution();
""", """        // sizes in cells only depend on the map
        if(c->m_sequence.empty() || c->m_weight >= NOT_FREE || c->m_min_cell_cost != m_min_cell_cost) {
            c->m_circle_radius = m_circle_radius / map->getResolution();
            c->m_max_waypoint_distance = m_max_waypoint_distance / map->getResolution();
        }
""")],
  "srcs": [CG, CU] + SRC, "needs": "a second search with another radius after a successful one",
  "breaks": "the second curve is computed with the radius of the first search",
  "demo": GEN + """int main() { SimpleGridMap2d m(400, 400, 1.0); m.set((uint8_t)0); CurveGenerator g, h; g.parse("LSL", quiet); h.parse("LSL", quiet); g.set_circle_radius(30); g.set_max_waypoint_distance(2); h.set_max_waypoint_distance(2);
  Curve* a = g.find_path(Pose2d(200, 200, 0), Pose2d(260, 200, 3.0), &m); if (!a) return 2; g.set_circle_radius(10); h.set_circle_radius(10);
  a = g.find_path(Pose2d(200, 200, 0), Pose2d(260, 200, 3.0), &m); Curve* b = h.find_path(Pose2d(200, 200, 0), Pose2d(260, 200, 3.0), &m);
  return a && b && std::fabs(a->weight() - b->weight()) < 1e-3 ? 0 : 1; }
"""},
 {"id": "R05_right_goal", "property": "R05",
  "edits": [(CU, """    if(goal->get_orientation() == CircleSegment::LEFT_CURVE)
        goal->set_center(m_circle_goal.center_left);""", """    if(goal->get_orientation() == (m_sequence.size() == 4 ? start->get_orientation() : CircleSegment::LEFT_CURVE))
        goal->set_center(m_circle_goal.center_left);""")],
  "srcs": [CG, CU] + SRC, "needs": "a curve of four circles that starts with a right turn",
  "breaks": "the last circle does not touch the goal with its heading",
  "demo": GEN + """static bool ends(const char* t) { static SimpleGridMap2d m(400, 400, 1.0); m.set((uint8_t)0); CurveGenerator g; g.parse(t, quiet); g.set_circle_radius(20); g.set_max_waypoint_distance(0.5);
  Curve* c = g.find_path(Pose2d(200, 200, 0.3), Pose2d(215, 210, 0.9), &m); if (!c) return true; Pose2d p; c->reset_iteration(); while (c->has_next()) p = c->next(); return std::hypot(p.x - 215, p.y - 210) < 1.5; }
int main() { return ends("RL|RL") && ends("LR|LR") ? 0 : 1; }
"""},
 {"id": "R06_rounded_steps", "property": "R06",
  "edits": [(C, """    m_angle_step_size = m_max_distance / m_radius * sign;
""", """    m_angle_step_size = m_max_distance / m_radius * sign;
    // spread the steps evenly over long arcs
    int even = std::abs(m_arc_length / m_angle_step_size) + 0.5;
    if(even > 3)
        m_angle_step_size = m_arc_length / even;
""")],
  "srcs": [CG, CU] + SRC, "needs": "an arc whose length exceeds a multiple of the maximum distance by less than half of it",
  "breaks": "waypoints are further apart than the maximum distance",
  "demo": H + """int main() { SimpleGridMap2d m(200, 200, 1.0); m.set((uint8_t)0); for (int k = 1; k < 60; ++k) { CircleSegment a(L, F); prep(m, a, 100, 100, 20); a.set_start_angle(-1); a.set_end_angle(-1 + 0.05 * k + 0.02);
  a.reset_iteration(); Pose2d p = a.next(); while (a.has_next()) { Pose2d q = a.next(); if (std::fabs(q.theta - p.theta) * 20 > 1.0001) return 1; p = q; } } return 0; }
"""},
]
