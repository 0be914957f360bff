OL = "src/a_star/OpenList.cpp"
OLH = "include/cslibs_path_planning/a_star/OpenList.h"
ND = "src/a_star/Node.cpp"
AS = "src/a_star/AStar.cpp"
LIST = ["src/a_star/OpenList.cpp", "src/a_star/Node.cpp"]
MAP = ["src/common/GridMap2d.cpp", "src/common/SimpleGridMap2d.cpp", "src/common/Point2d.cpp", "src/common/Pose2d.cpp"]
H = """#include <cslibs_path_planning/a_star/OpenList.h>
using namespace lib_path;
static waypoint_t at(int x, int y) { waypoint_t p; p.x = x; p.y = y; return p; }
"""
HA = """#include <cslibs_path_planning/a_star/AStar.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cstdlib>
#include <cmath>
using namespace lib_path;
static waypoint_t at(int x, int y) { waypoint_t p; p.x = x; p.y = y; return p; }
"""
BUGS = [
 {"id": "A01_stale_key", "property": "A01",
  "edits": [(OL, """		//Remove it from the value list
			mNodeValues.erase(position);
		//Update the node with the new distance values
		node->update(distance, parent);
""", """		//Remove it from the value list if its place changes
		if ((int)distance != (int)node->getDistance())
			mNodeValues.erase(position);
		else {
			node->update(distance, parent);
			return;
		}
		//Update the node with the new distance values
		node->update(distance, parent);
""")],
  "srcs": LIST, "needs": "an open cell offered again with a distance of the same integer part but a smaller ordering value, and another open cell in between",
  "breaks": "the ordering value of a cell changes while it is stored: a more expensive cell is delivered first",
  "demo": H + """int main() { OpenList l(10, 10); l.addNode(at(5, 5), 2.9, 3.3, 0); l.addNode(at(3, 3), 6, 0, 0); l.addNode(at(5, 5), 2.0, 3.3, 0);
  l.addNode(at(7, 7), 5.9, 0.4, 0); Node* a = l.getFirstNode(); Node* b = l.getFirstNode(); Node* c = l.getFirstNode();
  return a && b && c && a->getValue() <= b->getValue() && b->getValue() <= c->getValue() && l.getFirstNode() == 0 ? 0 : 1; }
"""},
 {"id": "A01_reopen", "property": "A01",
  "edits": [(OL, "if (node->isVisited() || (distance + prediction) > node->getValue()) {", "if ((distance + prediction) > node->getValue()) {"),
            (OL, """		if (position == mNodeValues.end())
			cout << "OpenList.cpp: Could not find node but it should be in the ValueList." << endl;
		else
""", """		if (position != mNodeValues.end())
"""),
            (OL, "	while ((*lowerBound) != node && lowerBound != mNodeValues.end()) {", "	while (lowerBound != mNodeValues.end() && (*lowerBound) != node) {")],
  "srcs": LIST, "needs": "a cell that was delivered is offered again with a smaller or equal ordering value",
  "breaks": "a closed cell is opened and delivered a second time",
  "demo": H + """int main() { OpenList l(10, 10); l.addNode(at(5, 5), 5, 0, 0); l.addNode(at(2, 2), 7, 0, 0); Node* a = l.getFirstNode(); l.addNode(at(5, 5), 3, 0, 0);
  Node* b = l.getFirstNode(); return a->getPosition().x == 5 && b->getPosition().x == 2 && a->getDistance() == 5 ? 0 : 1; }
"""},
 {"id": "A01_order", "property": "A01",
  "edits": [(OLH, "{return (lhs->getValue() < rhs->getValue());}", "{return (lhs->getValue() != rhs->getValue() ? lhs->getValue() < rhs->getValue() : false) || (lhs->getParent() == rhs->getParent() && lhs->getDistance() + 1 < rhs->getDistance());}")],
  "srcs": LIST, "needs": "two open cells with the same predecessor, one with a larger ordering value but a distance shorter by more than one",
  "breaks": "the cell with the larger ordering value is delivered first",
  "demo": H + """int main() { OpenList l(10, 10); l.addNode(at(5, 5), 5, 0, 0); l.addNode(at(2, 2), 1, 9, 0); Node* a = l.getFirstNode();
  return a->getPosition().x == 5 ? 0 : 1; }
"""},
 {"id": "A02_forgotten", "property": "A02",
  "edits": [(OL, "		mUsedNodes.push_back(&mNodesArray[positionIndex]);", "		if (mUsedNodes.size() < (size_t)(4 * (mMapWidth + mMapHeight)))\n			mUsedNodes.push_back(&mNodesArray[positionIndex]);")],
  "srcs": LIST, "needs": "an earlier search that used more cells than four times width plus height",
  "breaks": "cells of an earlier search are not reset, a new search finds them closed",
  "demo": H + """int main() { OpenList l(40, 40); for (int y = 0; y < 40; ++y) for (int x = 0; x < 40; ++x) { l.addNode(at(x, y), 1, 1, 0); l.getFirstNode(); }
  l.prepareNewSearch(); l.addNode(at(39, 39), 2, 2, 0); Node* a = l.getFirstNode(); return a && a->getPosition().x == 39 && a->getDistance() == 2 ? 0 : 1; }
"""},
 {"id": "A02_open_left", "property": "A02",
  "edits": [(OL, """	while (!mUsedNodes.empty()) {
		(mUsedNodes.back())->reset();
		mUsedNodes.pop_back();
	}
	this->mNodeValues.clear();""", """	for (size_t i = 0; i < mUsedNodes.size(); ++i) {
		if (mUsedNodes[i]->isVisited())
			mUsedNodes[i]->reset();
		else
			mUsedNodes[i]->setParent(NULL);
	}
	mUsedNodes.clear();
	this->mNodeValues.clear();""")],
  "srcs": LIST, "needs": "cells that were still open when the previous search ended",
  "breaks": "cells left open by the previous search keep their state and distance",
  "demo": H + """int main() { OpenList l(10, 10); l.addNode(at(1, 1), 1, 1, 0); l.addNode(at(2, 2), 2, 2, 0); l.getFirstNode(); l.prepareNewSearch();
  l.addNode(at(9, 9), 1, 1, 0); l.prepareNewSearch(); l.addNode(at(1, 1), 3, 3, 0); Node* a = l.getFirstNode();
  return a && a->getDistance() == 3 && l.getFirstNode() == 0 && (l.prepareNewSearch(), l.addNode(at(2, 2), 9, 0, 0), (a = l.getFirstNode())) && a->getDistance() == 9 ? 0 : 1; }
"""},
 {"id": "A03_step_cost", "property": "A03",
  "edits": [(AS, "mNeighbors[5].position.x = -1; mNeighbors[5].position.y = 1; mNeighbors[5].distance = sqrt(2);", "mNeighbors[5].position.x = -1; mNeighbors[5].position.y = 1; mNeighbors[5].distance = mNeighbors[0].distance * mNeighbors[1].distance / mNeighbors[2].distance;")],
  "srcs": LIST + MAP + [AS], "needs": "a search that takes steps towards smaller x and larger y",
  "breaks": "diagonal steps in one of the four directions cost one instead of the square root of two",
  "demo": HA + """OpenList* dummy; int main() { SimpleGridMap2d m(30, 30, 1.0); m.set((uint8_t)0); m.setValue(12, 10, 255);
  AStar a(&m); // from the goal (20,5) to (5,20) the neighbour (-1,+1) is taken; a straight detour shows in the length of other paths
  if (!a.planPath(at(10, 10), at(14, 10))) return 1; path_t* p = a.getLastPath(); double l = 0; int n = 0;
  for (size_t i = 1; i < p->size(); ++i) { int dx = (*p)[i].x - (*p)[i-1].x, dy = (*p)[i].y - (*p)[i-1].y; l += std::sqrt(dx*dx+dy*dy); }
  if (!a.planPath(at(3, 9), at(25, 5))) return 1; p = a.getLastPath(); l = 0;
  for (size_t i = 1; i < p->size(); ++i) { int dx = (*p)[i].x - (*p)[i-1].x, dy = (*p)[i].y - (*p)[i-1].y; l += std::sqrt(dx*dx+dy*dy); }
  double best = 4 * std::sqrt(2) + 18; return l < best + 1.5 ? 0 : 1; }
"""},
 {"id": "A03_stale_path", "property": "A03",
  "edits": [(AS, """    // Path contains no waypoints if the search fails
    mPath.clear();

""", ""), (AS, """    // Run
    mStart = start;""", """    // Path contains no waypoints if the search fails
    mPath.clear();

    // Run
    mStart = start;""")],
  "srcs": LIST + MAP + [AS], "needs": "a successful search followed by one from or to a cell outside of the map",
  "breaks": "the waypoints of the earlier search are still returned after the failed one",
  "demo": HA + """int main() { SimpleGridMap2d m(30, 30, 1.0); m.set((uint8_t)0); AStar a(&m); if (!a.planPath(at(1, 1), at(5, 5))) return 1;
  return !a.planPath(at(1, 1), at(30, 5)) && a.getLastPath()->empty() ? 0 : 1; }
"""},
 {"id": "A03_unknown_cells", "property": "A03",
  "edits": [(AS, "    return mMap->isFree( waypoint.x, waypoint.y );", "    return !mMap->isOccupied( waypoint.x, waypoint.y );")],
  "srcs": LIST + MAP + [AS], "needs": "a map with unknown cells",
  "breaks": "paths lead through cells that are not free",
  "demo": HA + """int main() { SimpleGridMap2d m(10, 10, 1.0); m.set((uint8_t)0); for (int y = 0; y < 10; ++y) m.setValue(5, y, 120);
  AStar a(&m); return !a.planPath(at(1, 1), at(8, 8)) ? 0 : 1; }
"""},
]
