B = "src/common/Bresenham2d.cpp"
SRC = [B, "src/common/GridMap2d.cpp", "src/common/SimpleGridMap2d.cpp", "src/common/Point2d.cpp", "src/common/Pose2d.cpp"]
H = """#include <cslibs_path_planning/common/Bresenham2d.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cstdlib>
using namespace lib_path;
"""
BUGS = [
 {"id": "M05_upward", "property": "M05",
  "edits": [(B, """    x1_ = end_x; y1_ = end_y;

    // Initialize Bresenham variables
    dx_ =  abs( x1_ - x0_ ), sx_ = x0_ < x1_ ? 1 : -1;
    dy_ = -abs( y1_ - y0_ ), sy_ = y0_ < y1_ ? 1 : -1;""", """    x1_ = end_x; y1_ = end_y;

    // Initialize Bresenham variables
    dx_ = x1_ - x0_, sx_ = x0_ < x1_ ? 1 : -1;
    dy_ = y1_ - y0_, sy_ = y0_ < y1_ ? 1 : -1;
    if ( dx_ < 0 ) dx_ = -dx_;
    if ( dy_ > 0 && dx_ > 0 ) dy_ = -dy_;""")],
  "srcs": SRC, "needs": "a line set by cells that goes straight towards larger y",
  "breaks": "a vertical line set by cells leaves its column",
  "demo": H + """int main() { SimpleGridMap2d m(30, 30, 1.0); m.set((uint8_t)0); Bresenham2d b; b.setGrid(&m, 5, 5, 5, 9); unsigned x, y; int n = 0;
  while (n < 100 && b.next()) { ++n; b.coordinates(x, y); if (x != 5) return 1; } return n == 4 ? 0 : 1; }
"""},
 {"id": "M05_other_map", "property": "M05",
  "edits": [(B, """    // Start/end in cell coordinates
    /// @todo Fix this signed/unsigned shit
    unsigned int x, y;
    map_->point2cell( start, x, y );
    x0_ = x; y0_ = y;
    map_->point2cell( end, x, y );
    x1_ = x; y1_ = y;
""", """    // Start/end in cell coordinates
    /// @todo Fix this signed/unsigned shit
    unsigned int x, y;
    map_->point2cell( start, x, y );
    x0_ = x; y0_ = y;
    // Same cell as before?
    if ( end.x != x1_ || end.y != y1_ )
        map_->point2cell( end, x, y );
    x1_ = x; y1_ = y;
""")],
  "srcs": SRC, "needs": "an end point whose coordinates equal the cell numbers of the former end",
  "breaks": "a line set again ends in the cell of its start",
  "demo": H + """int main() { SimpleGridMap2d m(30, 30, 0.5); m.set((uint8_t)0); Bresenham2d b; b.set(&m, Point2d(1, 1), Point2d(2, 2)); while (b.next()); unsigned x, y; b.coordinates(x, y); if (x != 4 || y != 4) return 1;
  b.set(&m, Point2d(1, 1), Point2d(4, 4)); while (b.next()); b.coordinates(x, y); return x == 8 && y == 8 ? 0 : 1; }
"""},
]
