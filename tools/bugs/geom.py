CR = "src/sampling/CentroidRadiusGoalRegion.cpp"
RG = "src/sampling/RingGoalRegion.cpp"
SP = "src/sampling/SamplingPlanner.cpp"
LI = "src/geometry/line.cpp"
CI = "src/geometry/circle.cpp"
IN = "src/geometry/intersector.cpp"
TA = "src/geometry/tangentor.cpp"
REG = {"srcs": [CR, RG, "src/sampling/GoalRegion.cpp", "src/common/Point2d.cpp", "src/common/Pose2d.cpp"]}
R = """#include <cslibs_path_planning/sampling/CentroidRadiusGoalRegion.h>
#include <cslibs_path_planning/sampling/RingGoalRegion.h>
#include <vector>
using namespace lib_path;
static std::vector<Pose2d> all(GoalRegion& g, int n) { std::vector<Pose2d> v; g.init(n); Pose2d p; double gain = 1; while (g.getNextGoal(p, gain) && v.size() < 1000) v.push_back(p); return v; }
static bool near(double a, double b) { return std::fabs(std::remainder(a - b, 2 * M_PI)) < 1e-6; }
"""
MAP = ["src/common/GridMap2d.cpp", "src/common/SimpleGridMap2d.cpp", "src/common/MapMath.cpp", "src/common/Point2d.cpp", "src/common/Pose2d.cpp"]
PL = {"srcs": [SP, "src/sampling/GoalRegion.cpp"] + MAP}
P = """#include <cslibs_path_planning/sampling/SamplingPlanner.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <vector>
using namespace lib_path;
static int alive, next; static std::vector<double> weights, gains; static std::vector<bool> good; static std::vector<Pose2d> goals; static std::vector<int> asked;
struct Info { Curve* c; double w; bool v; }; static std::vector<Info> infos;
static Info& of(const Curve* c) { for (std::size_t i = infos.size(); i-- > 0;) if (infos[i].c == c) return infos[i]; abort(); }
namespace lib_path {
Curve::Curve() { ++alive; }
Curve::~Curve() { --alive; }
bool Curve::is_valid() { return of(this).v; }
double Curve::weight() const { return of(this).w; }
void Curve::reset_iteration() {}
bool Curve::has_next() { return false; }
Pose2d Curve::next() { return Pose2d(); }
CurveGenerator::CurveGenerator() {}
Curve* CurveGenerator::find_path(const Pose2d&, const Pose2d& g, const GridMap2d*, bool) {
    asked.push_back(next - 1);
    Info i = {new Curve, weights[next - 1], good[next - 1]}; infos.push_back(i); return i.c; }
}
struct Region : GoalRegion {
    void init(unsigned) { next = 0; }
    bool getNextGoal(Pose2d& p, double& gain) { if (next >= (int)goals.size()) return false; p = goals[next]; gain = gains[next]; ++next; return true; }
};
static void goal(double x, double y, double w, double g, bool v) { Pose2d p; p.x = x; p.y = y; p.theta = 0; goals.push_back(p); weights.push_back(w); gains.push_back(g); good.push_back(v); }
static Curve* plan(double res, double ox) { CurveGenerator* c = new CurveGenerator; SimpleGridMap2d* m = new SimpleGridMap2d(20, 20, res); m->setOrigin(Point2d(ox, 0)); SamplingPlanner s(c, m); Pose2d p; p.x = ox + 1; p.y = 1; p.theta = 0; Region r; return s.createPath(p, &r, 5); }
"""
GEO = {"srcs": [LI, CI, IN, "src/geometry/shape.cpp", TA]}
G = """#include <cslibs_path_planning/geometry/intersector.h>
#include <cslibs_path_planning/geometry/tangentor.h>
#include <iostream>
using namespace path_geom;
typedef Eigen::Vector2d V;
static bool eq(V a, V b) { return (a - b).norm() < 1e-6; }
"""
BUGS = [
 dict(REG, id="S01_spread", property="S01",
  edits=[(CR, "theta_step_ = angle_rad_ / (samples_num_-1);", "theta_step_ = angle_rad_ / samples_num_;")],
  needs="at least two poses",
  breaks="the headings do not reach the end of the angle",
  demo=R + """int main() { CentroidRadiusGoalRegion g(Point2d(0, 0), Point2d(5, 0), 1, 1.0); std::vector<Pose2d> v = all(g, 4); return v.size() == 4 && near(v[3].theta, 0.5) && near(v[0].theta, -0.5) ? 0 : 1; }
"""),
 dict(REG, id="S01_negative_angle", property="S01",
  edits=[(CR, "  angle_rad_ = fabs (angle_rad_);\n", "")],
  needs="a region with a negative angle",
  breaks="only one pose is delivered",
  demo=R + """int main() { CentroidRadiusGoalRegion g(Point2d(0, 0), Point2d(5, 0), 1, -1.0); return all(g, 4).size() == 4 ? 0 : 1; }
"""),
 dict(REG, id="S01_again", property="S01",
  edits=[(CR, "  counter_ = 0;\n  samples_num_ = samples_num;", "  samples_num_ = samples_num;"), (CR, "  theta_ -= 0.5 * angle_rad_;", "  counter_ = 0;\n  theta_ -= 0.5 * angle_rad_;")],
  needs="a region that is used again for a single pose",
  breaks="no pose is delivered",
  demo=R + """int main() { CentroidRadiusGoalRegion g(Point2d(0, 0), Point2d(5, 0), 1, 1.0); all(g, 3); return all(g, 1).size() == 1 ? 0 : 1; }
"""),
 dict(REG, id="S01_clockwise", property="S01",
  edits=[(RG, "goal.theta =alpha+(direction_-0.5)*M_PI;", "goal.theta =alpha+direction_*0.5*M_PI;")],
  needs="a ring with negative radius",
  breaks="the poses are headed away from the center",
  demo=R + """int main() { RingGoalRegion g(Point2d(0, 0), -5, 0.0); std::vector<Pose2d> v = all(g, 4); return v.size() == 4 && near(v[0].theta, -M_PI / 2) && near(v[1].theta, 0) ? 0 : 1; }
"""),
 dict(PL, id="S02_first_best", property="S02",
  edits=[(SP, "          delete best_curve;\n        }\n\n        best_curve=curve;\n        min_cost=actual_cost;", "          delete best_curve;\n          min_cost=actual_cost;\n        }\n\n        best_curve=curve;")],
  needs="a cheapest curve that is found first",
  breaks="a more expensive curve found later replaces the first one",
  demo=P + """int main() { goal(2, 2, 1, 1, true); goal(3, 3, 5, 1, true); Curve* c = plan(1, 0); return c && of(c).w == 1 && alive == 1 ? 0 : 1; }
"""),
 dict(PL, id="S02_outside", property="S02",
  edits=[(SP, "if (!map_->isInMap(goal)) {", "if (!map_->isInMap(goal_map)) {")],
  needs="a map with an origin or with cells that are not of size one",
  breaks="poses in the map are left out",
  demo=P + """int main() { goal(-95, 5, 1, 1, true); Curve* c = plan(1, -100); return c ? 0 : 1; }
"""),
 dict(PL, id="S02_invalid_kept", property="S02",
  edits=[(SP, "    } else if (curve) {\n      delete curve;\n    }", "    } else if (curve && best_curve==0) {\n      delete curve;\n    }")],
  needs="an invalid curve after a valid one",
  breaks="the invalid curve is never released",
  demo=P + """int main() { goal(2, 2, 1, 1, true); goal(3, 3, 5, 1, false); Curve* c = plan(1, 0); return c && alive == 1 ? 0 : 1; }
"""),
 dict(PL, id="S02_gain", property="S02",
  edits=[(SP, "double actual_cost = gain*curve->weight();", "double actual_cost = (best_curve!=0 ? gain : 1.0)*curve->weight();")],
  needs="a first pose of high gain",
  breaks="the gain of the first pose is left out",
  demo=P + """int main() { goal(2, 2, 4, 2, true); goal(3, 3, 5, 1, true); Curve* c = plan(1, 0); return c && of(c).w == 5 ? 0 : 1; }
"""),
 dict(GEO, id="P01_end_point", property="P01",
  edits=[(LI, "    points[n]=end_;", "    points[n]=p;")],
  needs="a length that is no multiple of the resolution",
  breaks="the end of the line is left out",
  demo=G + """int main() { Line l(V(0, 0), V(2.5, 0)); std::vector<V> p; l.toPoints(1, p); return eq(p.back(), V(2.5, 0)) ? 0 : 1; }
"""),
 dict(GEO, id="P01_negative_length", property="P01",
  edits=[(LI, "start_ = end_-fabs(length)*", "start_ = end_-length*")],
  needs="a backward line of negative length",
  breaks="the line leads away from its pose to the wrong side",
  demo=G + """int main() { Line l(PathPose(1, 1, 0), -2, BACKWARD); return eq(l.startPoint(), V(-1, 1)) && eq(l.endPoint(), V(1, 1)) ? 0 : 1; }
"""),
 dict(GEO, id="P01_select_right", property="P01",
  edits=[(LI, "    int rel_pos = pointRelativePosition(end,tol);\n    if (!rel_pos) {", "    int rel_pos = pointRelativePosition(end,tol);\n    if (rel_pos<=0) {")],
  needs="choosing a point on the right of a line as its end",
  breaks="the line is turned",
  demo=G + """int main() { Line l(V(0, 0), V(2, 0)); return !l.selectEndPoint(V(3, -1)) && eq(l.endPoint(), V(2, 0)) ? 0 : 1; }
"""),
 dict(GEO, id="P01_backward_start", property="P01",
  edits=[(LI, "        poses.resize(n);\n        p=p+step;", "        poses.resize(n);\n        p=start_+step;")],
  needs="poses of a line that is driven backwards, without the first one",
  breaks="the poses lie beyond the start of the line",
  demo=G + """int main() { Line l(V(0, 0), V(3, 0)); PathPoseVec p; l.toPoses(1, p, BACKWARD, false); return p.size() == 3 && eq(p[0].pos_, V(2, 0)) && eq(p[2].pos_, V(0, 0)) ? 0 : 1; }
"""),
 dict(GEO, id="P02_arc_to_right", property="P02",
  edits=[(CI, "start_angle = end_angle+arc_angle;", "start_angle = end_angle-arc_angle;")],
  needs="an arc to the right that ends at a pose and is neither half nor full",
  breaks="the arc does not end at the pose",
  demo=G + """int main() { Circle c = Circle::createArcTo(PathPose(1, 2, 0.3), 2, 1.0, ARC_RIGHT); return eq(c.endPoint(), V(1, 2)) ? 0 : 1; }
"""),
 dict(GEO, id="P02_over_zero", property="P02",
  edits=[(CI, "if (p_angle>=(end_angle+2*M_PI) || p_angle<=start_angle_) {", "if (p_angle>=(end_angle+M_PI) || p_angle<=start_angle_) {")],
  needs="an arc to the right across the positive x axis and a point far beyond its end",
  breaks="points beyond the arc count as on it",
  demo=G + """int main() { Circle c(V(0, 0), 1, ARC_RIGHT); c.setArc(0.5, 1.0, ARC_RIGHT); return !c.isPointOnArc(V(cos(4.0), sin(4.0))) && c.isPointOnArc(V(cos(-0.3), sin(-0.3))) ? 0 : 1; }
"""),
 dict(GEO, id="P02_large_start", property="P02",
  edits=[(CI, "    while (angle > 2*M_PI)\n      angle -= 2.0 * M_PI;\n    while (angle < 0.0)\n      angle += 2.0 * M_PI;\n    double end_angle;", "    while (angle < 0.0)\n      angle += 2.0 * M_PI;\n    double end_angle;")],
  needs="an arc to the right that is made from a pose with large heading, and a point of it",
  breaks="points of the arc do not count as on it",
  demo=G + """int main() { Circle c = Circle::createArcFrom(PathPose(0, 0, 3.0 * M_PI / 2), 1, 1.0, ARC_LEFT); Circle d = Circle::createArcFrom(PathPose(0, 0, 1.8 * M_PI), 1, 1.0, ARC_RIGHT);
  for (double t = 0.1; t < 1; t += 0.2) { if (!c.isPointOnArc(c.center() + V(cos(c.startAngle() + t), sin(c.startAngle() + t)))) return 1; if (!d.isPointOnArc(d.center() + V(cos(d.startAngle() - t), sin(d.startAngle() - t)))) return 2; } return 0; }
"""),
 dict(GEO, id="P02_backward_right", property="P02",
  edits=[(CI, "        phi = endAngle();\n        dphi = -1.0*dphi;", "        phi = endAngle();\n        dphi = -1.0*arc_direction_*dphi;")],
  needs="poses of an arc to the right that is driven backwards",
  breaks="the poses lead away from the arc",
  demo=G + """int main() { Circle c(V(0, 0), 1, ARC_RIGHT); c.setArc(2, 1.0, ARC_RIGHT); PathPoseVec p; c.toPoses(0.26, p, BACKWARD, true); return eq(p.back().pos_, V(cos(2.0), sin(2.0))) ? 0 : 1; }
"""),
 dict(GEO, id="P03_within_line", property="P03",
  edits=[(IN, "        if (mu2>=0.0 && mu2<=1.0) {", "        if (mu2>=0.0 && mu1<=1.0) {")],
  needs="a line that ends within the circle",
  breaks="a crossing beyond the end of the line is delivered",
  demo=G + """int main() { std::vector<V> p; Intersector::intersect(Line(V(-3, 0), V(0, 0)), Circle(V(0, 0), 1), p); return p.size() == 1 && eq(p[0], V(-1, 0)) ? 0 : 1; }
"""),
 dict(GEO, id="P03_smaller_first", property="P03",
  edits=[(IN, "double a = ( r1 * r1 - r2 * r2 + d * d ) / (2 * d);", "double a = ( fabs(r1 * r1 - r2 * r2) + d * d ) / (2 * d);")],
  needs="a first circle that is smaller than the second",
  breaks="the delivered points do not lie on the circles",
  demo=G + """int main() { std::vector<V> p; Intersector::intersect(Circle(V(0, 0), 1), Circle(V(2, 0), 1.5), p); for (auto& q : p) if (fabs(q.norm() - 1) > 1e-6) return 1; return p.size() == 2 ? 0 : 1; }
"""),
 dict(GEO, id="P03_one_point", property="P03",
  edits=[(IN, "    for (auto& ip : ipoints) {\n", "    for (auto& ip : ipoints) {\n        if (!res_points.empty() && c1.direction()==c2.direction()) break;\n")],
  needs="two arcs of the same direction that cross in two points",
  breaks="the second common point is not delivered",
  demo=G + """int main() { std::vector<V> p; Intersector::intersectArcs(Circle(V(0, 0), 1), Circle(V(1, 0.1), 1), p); return p.size() == 2 ? 0 : 1; }
"""),
 dict(GEO, id="P04_one_side", property="P04",
  edits=[(TA, "        Intersector::intersect(parallels[j], c2, ipoints[j],tol);\n", "        Intersector::intersect(parallels[j], c2, ipoints[j],tol);\n        if (j>0 && ipoints[0].size()==ipoints[j].size()) continue;\n")],
  needs="a line that passes near the center of the circle",
  breaks="tangent circles on the other side of the line are missing",
  demo=G + """int main() { std::vector<V> p; aligned<Circle>::vector r; Tangentor::tangentArc(Line(V(-9, 0), V(9, 0)), Circle(V(0, 0.1), 2, ARC_LEFT), 1, r); std::size_t n = r.size();
  Tangentor::tangentArc(Line(V(-9, 0), V(9, 0)), Circle(V(0, 0.1), 2, ARC_RIGHT), 1, r); return n == 2 && r.size() == 2 ? 0 : 1; }
"""),
 dict(GEO, id="P04_inner_old", property="P04",
  edits=[(TA, "    res.clear();\n    if (radius>=circle2.radius()) {\n        // no solution\n        return;\n    }\n", "    if (radius>=circle2.radius()) {\n        // no solution\n        return;\n    }\n    res.clear();\n")],
  needs="a radius that is too large and a result vector that is used again",
  breaks="the circles of an earlier query are returned",
  demo=G + """int main() { aligned<Circle>::vector r; r.push_back(Circle(V(1, 2), 3)); Tangentor::tangentInnerCircles(Circle(V(0, 0), 1), Circle(V(1, 0), 4), 5, r); return r.empty() ? 0 : 1; }
"""),
 dict(GEO, id="P04_inner_turn", property="P04",
  edits=[(TA, "        res.push_back(Circle(ipoint,radius,circle2.direction()));", "        res.push_back(Circle(ipoint,radius,circle1.direction()*(-1)));")],
  needs="two circles of the same direction",
  breaks="the tangent circles turn against the circle they lie in",
  demo=G + """int main() { aligned<Circle>::vector r; Tangentor::tangentInnerCircles(Circle(V(0, 0), 1, ARC_RIGHT), Circle(V(1, 0), 4, ARC_RIGHT), 1.5, r); return r.size() == 2 && r[0].direction() == ARC_RIGHT ? 0 : 1; }
"""),
 dict(GEO, id="P04_foot", property="P04",
  edits=[(TA, "            tangent_circle.setEndAngle(line.footPoint(tangent_circle.center()));", "            tangent_circle.setEndAngle(line.footPoint(circle.center()));")],
  needs="an arc from a circle to a line",
  breaks="the arc does not end where it touches the line",
  demo=G + """int main() { aligned<Circle>::vector r; Tangentor::tangentArc(Circle(V(0, 1), 2, ARC_LEFT), Line(V(-9, 0), V(9, 0)), 1, r); for (auto& c : r) if (fabs(c.endPoint().y()) > 1e-3) return 1; return r.empty() ? 2 : 0; }
"""),
 dict(GEO, id="P05_stale_start", property="P05",
  edits=[(TA, "    end_circle->setStartAngle(tangent_arc->endPoint());\n    end_circle->setArcAngle(2*M_PI);", "    end_circle->setArcAngle(2*M_PI);\n    end_circle->setStartAngle(tangent_arc->endPoint());")],
  needs="a path from a line to a circle",
  breaks="the circle is only followed back to its first start instead of once around",
  demo=G + """int main() { std::vector<std::shared_ptr<Shape>> p; Line l(V(-9, 0), V(9, 0)); Circle c(V(0, 1), 2, ARC_LEFT); Tangentor::tangentPath(l, c, 1, p);
  if (p.size() != 3) return 2; return fabs(std::dynamic_pointer_cast<Circle>(p[2])->getArcAngle() - 2 * M_PI) < 1e-9 ? 0 : 1; }
"""),
 dict(GEO, id="P05_large_from", property="P05",
  edits=[(TA, "        large_arc->selectEndPoint(tangent_arc->startPoint());\n        small_arc->selectStartPoint(tangent_arc->endPoint());", "        large_arc->selectEndPoint(tangent_arc->startPoint());\n        small_arc->setStartAngle(tangent_arc->endAngle());")],
  needs="a path from the large to the small circle",
  breaks="the small circle is not entered where the arc ends",
  demo=G + """int main() { std::vector<std::shared_ptr<Shape>> p; Circle s(V(0, 0), 1, ARC_LEFT), l(V(1, 0), 4, ARC_RIGHT); Tangentor::tangentPath(s, l, 1.5, false, p);
  if (p.size() != 3) return 2; return eq(p[1]->endPoint(), p[2]->startPoint()) ? 0 : 1; }
"""),
 dict(GEO, id="P05_turns", property="P05",
  edits=[(TA, "    if (min_it->getArcAngle()>M_PI) {", "    if (tangent_arcs.front().getArcAngle()>M_PI) {")],
  needs="two tangent arcs between circles of which the second is the shorter one",
  breaks="no path is found though one exists",
  demo=G + """int main() { int n = 0; for (double a = 0; a < 6.3; a += 0.1) for (int d = -1; d < 2; d += 2) { std::vector<std::shared_ptr<Shape>> p; Circle s(V(0, 0), 1, d), l(V(cos(a), sin(a)), 4, -d);
  Tangentor::tangentPath(s, l, 1.5, false, p); n += p.size() != 3; } std::cerr << n << std::endl; return n ? 1 : 0; }
"""),
 dict(GEO, id="P05_inner_longest", property="P05",
  edits=[(TA, "                max_arc_angle =arc_angle;\n", "")],
  needs="two inner arcs of which the first is the shorter one",
  breaks="the longer arc is delivered",
  demo=G + """int main() { for (double a = 0; a < 6.3; a += 0.1) for (int d = -1; d < 2; d += 2) { aligned<Circle>::vector r; Circle s(V(0, 0), 1, d), l(V(cos(a), sin(a)), 4, -d);
  Tangentor::tangentInnerArcs(s, l, 1.5, r); if (r.size() != 1) continue; if (r[0].getArcAngle() > M_PI) return 1; } return 0; }
"""),
]
