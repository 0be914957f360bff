MM = "include/cslibs_path_planning/generic/MapManager.hpp"
import importlib.util, os
_s = importlib.util.spec_from_file_location("s", os.path.join(os.path.dirname(__file__), "search.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
MAP, D = _m.MAP, _m.D
H = """#include <set>
#include <cstring>
#include <cmath>
#include <cslibs_path_planning/generic/Algorithms.hpp>
#include <cslibs_path_planning/generic/SteeringNode.hpp>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
using namespace lib_path;
typedef HeuristicNode<Pose2d> N;
typedef DirectionalNode<OrientedNode<N> > DN;
typedef DirectionalNode<SteeringNode<N> > S;
typedef DynamicDirectionalStateSpaceManager<S> Dyn;
static SimpleGridMap2d* map(int w, int h, double r = 1.0, int v = 0) { SimpleGridMap2d* m = new SimpleGridMap2d(w, h, r); for (int i = 0; i < w; ++i) for (int j = 0; j < h; ++j) m->setValue(i, j, v); return m; }
"""
BUGS = [
 dict(D, id="G08_resized", property="G08",
  edits=[(MM, "        map_ = map;\n\n        bool replace = w != map->getWidth() || h != map_->getHeight();\n\n        w = map->getWidth();\n        h = map->getHeight();\n\n        initMap(replace);", "        map_ = map;\n\n        bool replace = w * h < map->getWidth() * map_->getHeight();\n\n        w = map->getWidth();\n        h = map->getHeight();\n\n        initMap(replace && w != h);")],
  needs="a search in a smaller map, then one in a square map",
  breaks="the states of the second map do not fit into the memory of the first",
  demo=H + """struct P : N { P() { ++made; } static int made; };
int P::made = 0;
int main() { GridMapManager<P> g; g.setMap(map(4, 4)); g.setMap(map(3, 7)); P::made = 0; g.setMap(map(6, 6)); return P::made == 36 ? 0 : 1; }
"""),
 dict(D, id="G08_stale", property="G08",
  edits=[(MM, "        for(unsigned y = 0; y < h; ++y) {\n            for(unsigned x = 0; x < w; ++x) {\n                NodeType::init(data[index(x,y)], x, y);", "        for(unsigned y = 0; y < h; ++y) {\n            for(unsigned x = 0; x < w; ++x) {\n                if(!alloc && !data[index(x,y)].isMarked(NodeType::MARK_OPEN | NodeType::MARK_CLOSED)) {\n                    continue;\n                }\n                NodeType::init(data[index(x,y)], x, y);")],
  needs="setting the map again after a search that left a cell with only one of the marks",
  breaks="cells that were only open keep what an earlier search left in them",
  demo=H + """int main() { GridMapManager<N> g; SimpleGridMap2d* m = map(4, 4); g.setMap(m);
  N* n = g.lookup(1, 2); n->mark(N::MARK_OPEN); n->distance = 3; g.setMap(m); return g.lookup(1, 2)->isMarked(N::MARK_OPEN) ? 1 : 0; }
"""),
 dict(D, id="G08_directions", property="G08",
  edits=[(MM, "        return y * w + x + t*w*h + (forward ? 0 : dimension);\n\n    }", "        return y * w + x + t*w*h + (forward ? 0 : dimension - 2*w*h);\n\n    }")],
  needs="states near the ends of the range of headings, in both directions",
  breaks="a forward and a backward state share their memory",
  demo=H + """int main() { DirectionalStateSpaceManager<DN> g; g.setMap(map(5, 3)); std::set<DN*> s; int n = 0;
  for (int t = 0; t < 31; ++t) for (int f = 0; f < 2; ++f) { s.insert(g.lookup(2, 1, (t + 0.5) * 2 * M_PI / 31 - M_PI, f)); ++n; }
  return (int)s.size() == n ? 0 : 1; }
"""),
 dict(D, id="G09_same_map", property="G09",
  edits=[(MM, "        clearChunks();\n\n        chunks.resize(chunks_w * chunks_h);\n        memset(chunks.data(), 0, chunks.size() * sizeof(Chunk*));", "        if(chunks.size() != chunks_w * chunks_h) {\n            clearChunks();\n\n            chunks.resize(chunks_w * chunks_h);\n            memset(chunks.data(), 0, chunks.size() * sizeof(Chunk*));\n        }")],
  needs="a second search after setting a map of about the same size",
  breaks="the states keep what the first search left in them",
  demo=H + """int main() { Dyn g; SimpleGridMap2d* m = map(40, 20); g.setMap(m); S* n = g.lookup(3, 4, 0.5, 0, true); n->distance = 7; n->mark(S::MARK_CLOSED);
  g.setMap(m); return g.lookup(3, 4, 0.5, 0, true)->isMarked(S::MARK_CLOSED) ? 1 : 0; }
"""),
 dict(D, id="G09_last_row", property="G09",
  edits=[(MM, "        chunks_h = hh / chunk_size + 1;", "        chunks_h = (hh + chunk_size / 2) / chunk_size;")],
  needs="a map whose height is a few cells more than a multiple of the chunk size, and a state in its lowest rows or the margin below",
  breaks="there is no state for positions in the last rows",
  demo=H + """int main() { Dyn g; g.setMap(map(40, 41)); try { for (int y = -32; y < 73; ++y) g.lookup(3, y, 0.5, 0, true); } catch (std::exception&) { return 1; } return 0; }
"""),
 dict(D, id="G09_wide_map", property="G09",
  edits=[(MM, "            chunks.at(cyp * chunks_w + cxp) = chunk;", "            chunks.at(cyp * std::min(chunks_w, chunks_h) + cxp) = chunk;")],
  needs="a map that is wider than high by more than a chunk",
  breaks="a state is created anew whenever it is asked for",
  demo=H + """int main() { Dyn g; g.setMap(map(200, 40)); for (int x = -32; x < 232; x += 8) for (int y = -32; y < 72; y += 8) if (g.lookup(x, y, 0.5, 0, true) != g.lookup(x, y, 0.5, 0, true)) return 1; return 0; }
"""),
 dict(D, id="G09_contains", property="G09",
  edits=[(MM, "        int x = std::floor(wx);\n        int y = std::floor(wy);\n\n        if((x < -padding)", "        int x = wx;\n        int y = wy;\n\n        if((x < -padding)")],
  needs="a position less than a cell left of or above the margin",
  breaks="it is contained but has no state",
  demo=H + """int main() { Dyn g; g.setMap(map(40, 40)); if (!g.contains(-31.5, 5.0)) return 2; return g.contains(-32.5, 5.0) ? 1 : 0; }
"""),
 dict(D, id="G10_skips", property="G10",
  edits=[(MM, "                if(isOccupied(x-padding,y-padding,theta)){\n                    return true;\n                }\n            }\n            if(++skip > bresenham_skips) {", "                if(isOccupied(x-padding,y-padding,theta)){\n                    return true;\n                }\n            }\n            if(skip++ > bresenham_skips) {")],
  needs="an obstacle one cell wide in a line with even offset",
  breaks="a line through an occupied cell is not occupied",
  demo=H + """int main() { SimpleGridMap2d* m = map(40, 40); m->setValue(12, 10, 100); m->setValue(13, 10, 0);
  for (int i = 8; i < 12; ++i) { SimpleGridMap2d* k = map(40, 40); k->setValue(i, 10, 255); k->setNoInformationValue(-1); Dyn g; g.setMap(k); if (!g.isOccupied(5.5, 10.5, 20.5, 10.5)) return 1; } return 0; }
"""),
 dict(D, id="G10_unknown", property="G10",
  edits=[(MM, "            if(!map_->isFree(x,y,theta)) {\n                return false;\n            }\n            //", "            if(map_->isOccupied(x,y,theta)) {\n                return false;\n            }\n            //")],
  needs="a cell that is neither free nor occupied on the line",
  breaks="the line is reported free",
  demo=H + """int main() { SimpleGridMap2d* m = map(40, 40); m->setLowerThreshold(50); m->setUpperThreshold(200); m->setValue(10, 10, 100); GridMapManager<N> g; g.setMap(m);
  if (!g.isFree(5.5, 12.5, 20.5, 12.5)) return 2; return g.isFree(5.5, 10.5, 20.5, 10.5) ? 1 : 0; }
"""),
 dict(D, id="G10_right_of_map", property="G10",
  edits=[(MM, "    bool isOccupied(int x, int y, double theta) const {\n        if((x < 0) || (y < 0) || (x >= (int) (w))", "    bool isOccupied(int x, int y, double theta) const {\n        if((x < 0) || (y < 0) || (x > (int) (w))")],
  needs="a line that leaves the map to the right below an obstacle at the left border",
  breaks="cells right of the map are judged by the first cell of the next row",
  demo=H + """int main() { SimpleGridMap2d* m = map(40, 40); m->setValue(0, 11, 255); m->setNoInformationValue(-1); Dyn g; g.setMap(m);
  if (!g.isOccupied(1.5, 11.5, 0.5, 11.5)) return 2; return g.isOccupied(38.5, 10.5, 41.5, 10.5) ? 1 : 0; }
"""),
]
