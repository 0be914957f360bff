DN = "include/cslibs_path_planning/generic/DirectNeighborhood.hpp"
HE = "include/cslibs_path_planning/generic/Heuristics.hpp"
CO = "include/cslibs_path_planning/generic/Common.hpp"
SN = "include/cslibs_path_planning/generic/SteeringNeighborhood.hpp"
DS = "include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h"
import importlib.util, os
_s = importlib.util.spec_from_file_location("s", os.path.join(os.path.dirname(__file__), "search.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
MAP, D = _m.MAP, _m.D
H0 = """#include <set>
#include <cstring>
#include <cmath>
#include <cslibs_path_planning/generic/Algorithms.hpp>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
using namespace lib_path;
"""
HD = H0 + """#include <cslibs_path_planning/generic/DirectNeighborhood.hpp>
static double length(const Pose2d&, const Pose2d&);
static SimpleGridMap2d* map(int w, int h) { SimpleGridMap2d* m = new SimpleGridMap2d(w, h, 1.0); for (int i = 0; i < w; ++i) for (int j = 0; j < h; ++j) m->setValue(i, j, 0); return m; }
"""
HS = H0 + """#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/generic/DynamicSteeringNeighborhood.h>
typedef DirectionalNode<SteeringNode<HeuristicNode<Pose2d> > > M;
struct SMap { double getRotation() const { return 0; } double getResolution() const { return 0.1; } };
struct Move { double x, y, t, cost; int s; bool f; char custom; int depth; };
static std::vector<Move> moves;
static M target;
static double bx = 1e9;              // cells right of this one are occupied
struct Map { SMap s; const SMap* getMap() const { return &s; } double getResolution() const { return 0.1; }
  bool contains(double x, double y) { return std::fabs(x) < 1000 && std::fabs(y) < 1000; }
  bool isFreeOrUnknown(double, double, double x, double) { return x < bx; }
  M* lookup(double x, double y, double t, int s, bool f) { Move m = {x, y, t, 0, s, f, 0, 0}; moves.push_back(m); M::init(target, 0, 0); target.custom = 99; return &target; } };
struct Search { SearchOptions search_options;
  NeighborhoodBase::ProcessingResult processNeighbor(M*, M*, double c) { moves.back().cost = c; return NeighborhoodBase::PR_ADDED_TO_OPEN_LIST; } };
static M at(bool f, int s, int depth) { M r; M::init(r, 0, 0); r.theta = 0; r.forward = f; r.steering_angle = s; r.depth = depth; r.custom = 0; return r; }
template <class N> static void run(M& r, double pb = 2, double pt = 3) { moves.clear(); N::setResolution(0.1); Search s; s.search_options.penalty_backward = pb; s.search_options.penalty_turn = pt; Map m; N::iterateFreeNeighbors(s, m, &r); }
static const Move* find(bool f, int s) { for (std::size_t i = 0; i < moves.size(); ++i) if (moves[i].f == f && moves[i].s == s) return &moves[i]; return NULL; }
"""
DSR = dict(D); DSR["srcs"] = MAP + ["src/generic/DynamicSteeringNeighborhood.cpp"]
BUGS = [
 dict(D, id="G01_far_diagonal", property="G01",
  edits=[(DN, "        case 4: return x + DISTANCE;\n        case 5: return x - DISTANCE;\n        case 6: return x;", "        case 4: return x + DISTANCE;\n        case 5: return x - 1;\n        case 6: return x;")],
  needs="eight neighbours with steps of more than one cell, where a way needs the step to the lower left",
  breaks="a cell that is not one step away is offered",
  demo=HD + """int main() { typedef AStar2dSearch<DirectNeighborhood<8, 2> > S; SimpleGridMap2d* m = map(20, 20); S s; s.setMap(m);
  S::PathT p = s.findPath(Pose2d(18, 2, 0), Pose2d(2, 18, 0));
  for (std::size_t i = 1; i < p.size(); ++i) { int dx = std::abs((int)p[i].x - (int)p[i-1].x), dy = std::abs((int)p[i].y - (int)p[i-1].y); if ((dx != 0 && dx != 2) || (dy != 0 && dy != 2)) return 1; }
  return p.empty(); }
"""),
 dict(D, id="G01_delta_order", property="G01",
  edits=[(DN, "        case 1: return COST_HORI;\n        case 2: return COST_DIAG;\n        case 3: return COST_HORI;", "        case 1: return COST_HORI;\n        case 2: return COST_HORI;\n        case 3: return COST_HORI;")],
  needs="a way with a diagonal step to the upper right",
  breaks="that diagonal step costs as much as a straight one",
  demo=HD + """int main() { typedef AStar2dSearch<DirectNeighborhood<8, 1> > S; SimpleGridMap2d* m = map(20, 20); S s; s.setMap(m);
  S::PathT p = s.findPath(Pose2d(2, 15, 0), Pose2d(12, 5, 0)); if (p.empty()) return 1;
  double d = 0; for (std::size_t i = 1; i < p.size(); ++i) d += std::hypot(p[i].x - p[i-1].x, p[i].y - p[i-1].y);
  return std::fabs(d - p.back().distance) < 1e-9 ? 0 : 1; }
"""),
 dict(D, id="G01_unknown", property="G01",
  edits=[(DN, "                if(!map.isFree(n)) {\n                    continue;", "                if(!map.isFree(n) && (map.isOccupied(n) || i < 4)) {\n                    continue;")],
  needs="a cell that is neither free nor occupied right of, left or below the expanded one",
  breaks="cells of unknown state are offered",
  demo=HD + """int main() { typedef AStar2dSearch<DirectNeighborhood<8, 1> > S; SimpleGridMap2d* m = map(20, 20); m->setNoInformationValue(60); m->setLowerThreshold(50); m->setUpperThreshold(70);
  for (int y = 0; y < 20; ++y) m->setValue(10, y, 60);
  S s; s.setMap(m); S::PathT p = s.findPath(Pose2d(2, 15, 0), Pose2d(15, 5, 0)); return p.empty() ? 0 : 1; }
"""),
 dict(D, id="G06_linf", property="G06",
  edits=[(HE, "current->h = res * std::max(std::abs(current->x - goal->x), std::abs(current->y - goal->y));", "current->h = res * std::max(std::abs(current->x - goal->x), current->y - goal->y);")],
  needs="a goal below the cell whose distance along y is larger than along x",
  breaks="the prediction is too small: cells are expanded in another order",
  demo=H0 + """int main() { HeuristicNode<Pose2d> a, g; HeuristicNode<Pose2d>::init(a, 1, 2); HeuristicNode<Pose2d>::init(g, 2, 9);
  HeuristicLInf::compute(&a, (const HeuristicNode<Pose2d>*)&g, 0.5); return a.h == 3.5 ? 0 : 1; }
"""),
 dict(D, id="G06_max", property="G06",
  edits=[(HE, "        double h1 = current->h;\n\n        H2::compute(current, goal, res);\n\n        current->h = std::max(current->h, h1);", "        double h1 = current->h;\n\n        H2::compute(current, goal, res);\n\n        current->h = std::min(std::max(current->h, h1), current->distance + h1);")],
  needs="a second prediction that is larger than the first one plus the distance from the start",
  breaks="the prediction is not the larger of both",
  demo=H0 + """int main() { HeuristicNode<Pose2d> a, g; HeuristicNode<Pose2d>::init(a, 0, 0); HeuristicNode<Pose2d>::init(g, 3, 4); a.distance = 0;
  MaxHeuristic<HeuristicLInf, HeuristicL1>::compute(&a, (const HeuristicNode<Pose2d>*)&g, 1.0); return a.h == 7 ? 0 : 1; }
"""),
 dict(D, id="G06_unmark", property="G06",
  edits=[(CO, "        marked &= ~mark;", "        marked = isMarked(mark) ? marked - mark : marked & ~MARK_OPEN;")],
  needs="removing a mark that is not set from an open cell",
  breaks="the cell loses its open mark",
  demo=H0 + """int main() { typedef HeuristicNode<Pose2d> N; N n; N::init(n, 0, 0); n.mark(N::MARK_OPEN); n.unMark(N::MARK_CLOSED); return n.isMarked(N::MARK_OPEN) ? 0 : 1; }
"""),
 dict(D, id="G07_limit", property="G07",
  edits=[(SN, "        } else if(steering_angle < -MAX_STEER_ANGLE) {\n            steering_angle = -MAX_STEER_ANGLE;", "        } else if(steering_angle < -MAX_STEER_ANGLE && forward_) {\n            steering_angle = -MAX_STEER_ANGLE;")],
  needs="driving backwards with two steering steps at once next to the right limit",
  breaks="moves with more than the maximum steering angle are offered",
  demo=HS + """int main() { M r = at(false, -15, 3); run<SteeringNeighborhood<40, 2, 15, 30, 40> >(r); for (std::size_t i = 0; i < moves.size(); ++i) if (std::abs(moves[i].s) > 30) return 1; return moves.empty(); }
"""),
 dict(D, id="G07_straight_parts", property="G07",
  edits=[(SN, "                for(int straight_parts = 0; straight_parts < straight_dir_switch - 1; ++straight_parts) {", "                for(int straight_parts = 1; straight_parts < straight_dir_switch - 1; ++straight_parts) {")],
  needs="a vehicle long enough to need two straight parts that steered in the move before",
  breaks="the driving direction is changed one straight part too early",
  demo=HS + """int main() { M a = at(true, 15, 1), r = at(true, 0, 2); r.prev = &a; run<SteeringNeighborhood<40, 1, 15, 30, 80> >(r); return find(false, 0) == NULL ? 0 : 1; }
"""),
 dict(DSR, id="G07_dyn_backward_curve", property="G07",
  edits=[(DS, "            dy = r_map * (-std::cos(t) + std::cos(reference->theta));", "            dy = r_map * (-std::cos(t) + std::cos(reference->theta)) * dir;")],
  needs="driving backwards along a circle",
  breaks="the vehicle gets to the wrong side",
  demo=HS + """int main() { DynamicSteeringNeighborhood::allow_backward = true; M r = at(false, 15, 2); run<DynamicSteeringNeighborhood>(r); const Move* m = find(false, 15); if (!m) return 1;
  double R = 1.2 / std::tan(15 / 180. * M_PI) / 0.1, t = -4. / R; return std::fabs(m->x - R * std::sin(t)) < 1e-9 && std::fabs(m->y - R * (1 - std::cos(t))) < 1e-9 ? 0 : 1; }
"""),
 dict(DSR, id="G07_dyn_turn_cost", property="G07",
  edits=[(DS, "                cost *= so.penalty_turn;\n", "                cost += so.penalty_turn - 1;\n")],
  needs="a change of direction with a step that is not one cell long",
  breaks="the penalty for changing direction is wrong",
  demo=HS + """int main() { DynamicSteeringNeighborhood::allow_backward = true; M r = at(true, 0, 2); run<DynamicSteeringNeighborhood>(r); const Move* m = find(false, 0); return m && std::fabs(m->cost - 24) < 1e-9 ? 0 : 1; }
"""),
]
