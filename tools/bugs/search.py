S = "include/cslibs_path_planning/generic/SearchAlgorithm.hpp"
MAP = ["src/common/GridMap2d.cpp", "src/common/SimpleGridMap2d.cpp", "src/common/Bresenham2d.cpp", "src/common/Point2d.cpp", "src/common/Pose2d.cpp"]
H = """#include <set>
#include <cstring>
#include <cmath>
#include <cslibs_path_planning/generic/Algorithms.hpp>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
using namespace lib_path;
struct Step { int from, to; double delta; };
static std::vector<Step> steps;
// cells of one row, connected by the steps
template <bool R> struct Graph : NeighborhoodBase {
    static constexpr bool reversed = R;
    template <class P> struct NodeHolder { typedef P NodeType; };
    template <class N> static bool isGoal(const N* g, const N* n) { return g->x == n->x; }
    template <class T, class M, class N> static void iterateFreeNeighbors(T& algo, M& m, N* n) {
        for (std::size_t i = 0; i < steps.size(); ++i)
            if (steps[i].from == (int)n->x) algo.processNeighbor(n, m.lookup(steps[i].to, 0), steps[i].delta);
    }
};
static void step(int a, int b, double d) { Step s = {a, b, d}; steps.push_back(s); }
static SimpleGridMap2d* row(int n) { SimpleGridMap2d* m = new SimpleGridMap2d(n, 1, 1.0); for (int i = 0; i < n; ++i) m->setValue(i, 0, 0); return m; }
template <class P> static bool is(const P& p, std::vector<int> c) {
    if (p.size() != c.size()) return false;
    for (std::size_t i = 0; i < c.size(); ++i) if ((int)p[i].x != c[i]) return false;
    return true;
}
"""
A = "typedef AStar2dSearch<Graph<false> > Search;\n"
D = {"srcs": MAP, "libs": "-lboost_thread -lboost_system -lpthread"}
BUGS = [
 dict(D, id="G02_closed_kept", property="G02",
  edits=[(S, "        if(!inOpenList || closer) {\n            assert(neighbor != current);", "        if(inClosedList && neighbor->prev != NULL && current->prev == neighbor->prev) {\n            return NeighborhoodBase::PR_CLOSED;\n        }\n\n        if(!inOpenList || closer) {\n            assert(neighbor != current);")],
  needs="a closed cell that is reached at lower cost from a cell with the same predecessor (a prediction that is not consistent)",
  breaks="the cheaper way to the closed cell is ignored",
  demo=H + A + """int main() { Search s; s.setMap(row(10)); Search::NodeT a, b, p; Search::NodeT::init(a, 1, 0); Search::NodeT::init(b, 2, 0); Search::NodeT::init(p, 3, 0);
  a.distance = 1; a.prev = &p; b.distance = 5; b.prev = &p; b.h = 0; b.mark(Search::NodeT::MARK_CLOSED);
  return s.processNeighbor(&a, &b, 1.0) == NeighborhoodBase::PR_ADDED_TO_OPEN_LIST && b.distance == 2 && b.prev == &a ? 0 : 1; }
"""),
 dict(D, id="G02_open_prev", property="G02",
  edits=[(S, "            if(inOpenList) {\n                //                open.remove(neighbor);\n                //                neighbor->unMark(NodeT::MARK_OPEN);\n                updates++;\n            }\n\n\n            neighbor->prev = current;\n",
             "            if(inOpenList) {\n                updates++;\n            }\n            if(!inOpenList || inClosedList) {\n                neighbor->prev = current;\n            }\n")],
  needs="a cell that is already open is reached on a cheaper way",
  breaks="the cell gets the new distance but keeps its old predecessor: the path is not the one whose length is reported",
  demo=H + A + """int main() { step(0, 1, 1); step(0, 3, 9); step(1, 3, 1); Search s; s.setMap(row(5));
  Search::PathT p = s.findPath(Pose2d(0, 0, 0), Pose2d(3, 0, 0)); std::vector<int> e; e.push_back(0); e.push_back(1); e.push_back(3); return is(p, e) && p.back().distance == 2 ? 0 : 1; }
"""),
 dict(D, id="G03_goal_occupied", property="G03",
  edits=[(S, "                if(!map_.isOccupied(g)) {\n                    // put start node in open data structure\n                    g->theta = pose.theta;\n\n                    goal.insert(g);\n                }",
             "                bool free = !map_.isOccupied(g);\n                if(free) {\n                    g->theta = pose.theta;\n                }\n                if(free || goal_poses.size() == 1) {\n                    goal.insert(g);\n                }")],
  needs="a goal pose in an occupied cell that the neighbourhood would reach",
  breaks="a path into the occupied goal cell is returned",
  demo=H + A + """int main() { step(0, 1, 1); step(1, 3, 1); SimpleGridMap2d* m = row(5); m->setValue(3, 0, 255); Search s; s.setMap(m);
  try { return s.findPath(Pose2d(0, 0, 0), Pose2d(3, 0, 0)).empty() ? 0 : 1; } catch (std::exception&) { return 0; } }
"""),
 dict(D, id="G03_stale_open", property="G03",
  edits=[(S, "        open.clear();\n\n        start.clear();\n        goal.clear();\n", "        if(start.empty()) {\n            open.clear();\n        }\n\n        start.clear();\n        goal.clear();\n")],
  needs="a second search with the same object after a first search that left cells in the open list",
  breaks="cells of the first search are delivered in the second",
  demo=H + A + """int main() { SimpleGridMap2d* m = row(9); step(0, 1, 1); step(0, 8, 50); Search s; s.setMap(m);
  if (s.findPath(Pose2d(0, 0, 0), Pose2d(1, 0, 0)).size() != 2) return 2;
  s.setMap(m); s.findPath(Pose2d(5, 0, 0), Pose2d(6, 0, 0)); return s.getExpansions() == 1 ? 0 : 1; }
"""),
 dict(D, id="G03_pause_forward", property="G03",
  edits=[(S, "                    (to, from, intermission);\n            reverse(path);\n            return path;", "                    (to, from, intermission);\n            if(!search_options.oversearch_distance || path.empty()) {\n                return path;\n            }\n            reverse(path);\n            return path;")],
  needs="a search with a callback between expansions and a neighbourhood that searches backwards",
  breaks="the path leads from the goal to the start",
  demo=H + """static void nothing() {}
typedef AStar2dSearch<Graph<true>, NoExpansion, Pose2d, GridMap2d, 1> Search;
int main() { step(3, 1, 1); step(1, 0, 1); Search s; s.setMap(row(5)); boost::function<void()> f = &nothing;
  Search::PathT p = s.findPath(Pose2d(0, 0, 0), Pose2d(3, 0, 0), f); std::vector<int> e; e.push_back(0); e.push_back(1); e.push_back(3); return is(p, e) ? 0 : 1; }
"""),
 dict(D, id="G04_limit_best", property="G04",
  edits=[(S, "        if(goal_candidates.empty()) {\n            first_candidate_weight = current->getTotalCost();\n        }\n        goal_candidates.push(std::make_tuple(current, cost));",
             "        goal_candidates.push(std::make_tuple(current, cost));\n        if(std::get<0>(goal_candidates.top()) == current) {\n            first_candidate_weight = current->getTotalCost();\n        }")],
  needs="an oversearch distance and a later solution that is closer to the goal than the first",
  breaks="the limit moves with every better solution: cells more expensive than the first solution plus the distance are expanded",
  demo="""""" + H.replace("return g->x == n->x;", "return std::fabs(g->x - n->x) <= 1;") + A + """int main() { step(0, 4, 1); step(0, 3, 2.5); step(0, 1, 2.25); step(1, 2, 1); Search s; s.setMap(row(9));
  SearchOptions o; o.oversearch_distance = 2.0; s.findPath(Pose2d(0, 0, 0), Pose2d(3, 0, 0), o);
  // 0 (h 3), 4 (1+1), 3 (2.5+0), then 1 (2.25+2) is above 2+2
  return s.getExpansions() == 4 && !s.getMapManager().lookup(2, 0)->isMarked(Search::NodeT::MARK_WATCHED) && s.getPathCandidates().size() == 2 ? 0 : 1; }
"""),
 dict(D, id="G04_callback_first", property="G04",
  edits=[(S, "                    if(goal_candidate_function) {\n                        PathT p = backtrack(current);\n                        if(goal_candidate_function(p)) {\n                            result = backtrack(current);\n                            return true;\n                        }\n                    }",
             "                    if(goal_candidate_function) {\n                        PathT p = backtrack(std::get<0>(goal_candidates.top()));\n                        if(goal_candidate_function(p)) {\n                            result = p;\n                            return true;\n                        }\n                    }")],
  needs="a callback that rejects a solution, and a later solution that is farther from the goal",
  breaks="the callback is shown the rejected solution again instead of the new one",
  demo=H.replace("return g->x == n->x;", "return std::fabs(g->x - n->x) <= 1;") + A + """static std::vector<int> seen; static bool see(const Search::PathT& p) { seen.push_back((int)p.back().x); return false; }
int main() { step(0, 3, 1); step(0, 4, 2.5); Search s; s.setMap(row(9)); s.setPathCandidateCallback(&see);
  SearchOptions o; o.oversearch_distance = 9.0; s.findPath(Pose2d(0, 0, 0), Pose2d(3, 0, 0), o); return seen.size() == 2 && seen[0] == 3 && seen[1] == 4 ? 0 : 1; }
"""),
 dict(D, id="G05_curve_before", property="G05",
  edits=[(S, "                path.insert(path.end(), expansion.begin(), expansion.end());", "                path.insert(path.size() > 2 && !expansion.empty() && path.back().prev == NULL ? path.begin() + 1 : path.end(), expansion.begin(), expansion.end());"),
         (S, "            current = dynamic_cast<NodeT*>(current->prev);\n            assert(current != NULL);\n            assert(current != current->prev);\n            path.push_back(*current);\n        };", "            current = dynamic_cast<NodeT*>(current->prev);\n            assert(current != NULL);\n            assert(current != current->prev);\n            path.push_back(*current);\n            path.front().prev = NULL;\n        };")],
  needs="a curve found after at least two steps",
  breaks="the curve is put after the first cell instead of the end",
  demo=H + """static int asked = 0;
struct Bow { template <class N, class M> static bool canExpand(const N* a, const N*, const M*) { return a->x == 2; }
  template <class P> static void getPath(P* o) { typename P::value_type n; P::value_type::init(n, 7, 0); n.theta = 1; o->push_back(n); P::value_type::init(n, 8, 0); n.theta = 1; o->push_back(n); } };
typedef AStar2dSearch<Graph<false>, Bow> Search;
int main() { step(0, 1, 1); step(1, 2, 1); Search s; s.setMap(row(9)); Search::PathT p = s.findPath(Pose2d(0, 0, 0), Pose2d(8, 0, 0));
  int e[] = {0, 1, 2, 7, 8}; return is(p, std::vector<int>(e, e + 5)) ? 0 : 1; }
"""),
]
