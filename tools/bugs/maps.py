SIMPLE = "include/cslibs_path_planning/common/SimpleGridMap2d.h"
ROT = "include/cslibs_path_planning/common/RotatedGridMap2d.h"
GM = "src/common/GridMap2d.cpp"
SRC = ["src/common/GridMap2d.cpp", "src/common/SimpleGridMap2d.cpp", "src/common/RotatedGridMap2d.cpp", "src/common/Point2d.cpp", "src/common/Pose2d.cpp"]
BUGS = [
 {"id": "M01_noinfo_occupied", "property": "M01",
  "edits": [(SIMPLE, """        if(no_information_ != -1 && val == no_information_) {
            return false;
        }
        return val >= upper_thres_;""", """        if(no_information_ != -1 && val == no_information_) {
            return val >= upper_thres_ && upper_thres_ < lower_thres_ + 100;
        }
        return val >= upper_thres_;""")],
  "srcs": SRC, "needs": "a no-information value at or above the upper threshold and thresholds less than 100 apart",
  "breaks": "a cell holding the no-information value is reported as unknown and as occupied",
  "demo": """#include <cslibs_path_planning/common/SimpleGridMap2d.h>
using namespace lib_path;
int main() { SimpleGridMap2d m(4, 3, 0.5); m.set((uint8_t)0); m.setLowerThreshold(100); m.setUpperThreshold(150); m.setNoInformationValue(255); m.setValue(2, 1, 255);
  return m.isNoInformation(2u, 1u) && !m.isOccupied(2u, 1u) && !m.isFree(2u, 1u) ? 0 : 1; }
"""},
 {"id": "M01_row_major", "property": "M01",
  "edits": [(SIMPLE, """        width_ = w;
        height_ = h;
        data_.assign( data.begin(), data.end());""", """        height_ = h;
        data_.assign( data.begin(), data.end());
        if ( w*h <= data_.size())
            width_ = (unsigned int)(data_.size()/h);""")],
  "srcs": SRC, "needs": "bulk data longer than width * height",
  "breaks": "the width is derived from the size of the data although it may be longer than the map",
  "demo": """#include <cslibs_path_planning/common/SimpleGridMap2d.h>
using namespace lib_path;
int main() { SimpleGridMap2d m(1, 1, 1.0); std::vector<uint8_t> d(10); for (int i = 0; i < 10; ++i) d[i] = i; m.set(d, 2, 3);
  return m.getWidth() == 2 && m.getValue(1, 2) == 5 ? 0 : 1; }
"""},
 {"id": "M02_partly_outside", "property": "M02",
  "edits": [(GM, "if ( isInMap( x, y ) && !isFree( x, y ))", "if ( !isInMap( x, y ) || !isFree( x, y ))")],
  "srcs": SRC, "needs": "an area that reaches over the border of the map",
  "breaks": "a free area next to the border is reported as not free",
  "demo": """#include <cslibs_path_planning/common/SimpleGridMap2d.h>
using namespace lib_path;
int main() { SimpleGridMap2d m(20, 20, 1.0); m.set((uint8_t)0); CircleArea a(Point2d(1.5, 1.5), 4, &m); CircleArea b(Point2d(10, 10), 4, &m);
  return m.isAreaFree(a) && m.isAreaFree(b) ? 0 : 1; }
"""},
 {"id": "M03_rebuffer", "property": "M03",
  "edits": [(GM, "    values_.resize( cells_.size());", "    if ( values_.empty())\n        values_.resize( cells_.size());")],
  "srcs": SRC, "needs": "a buffer initialised again with a larger radius", "flags": "-fsanitize=address",
  "breaks": "the value buffer keeps its first size, later values are stored out of range",
  "demo": """#include <cslibs_path_planning/common/SimpleGridMap2d.h>
using namespace lib_path;
int main() { SimpleGridMap2d m(40, 40, 1.0); m.set((uint8_t)7); CircleBuffer a(Point2d(20, 20), 2, &m); m.getAreaValues(a);
  a.init(Point2d(20, 20), 8, &m); m.getAreaValues(a); a.begin(); int n = 0; while (a.next()) { if (a.getValue() != 7) return 1; ++n; } return n > 100 ? 0 : 1; }
"""},
 {"id": "M03_line_end", "property": "M03",
  "edits": [(GM, """        cells_.push_back( std::pair<int, int>( x0, y0 ));

        if ( x0 == x1 && y0 == y1 ) break;""", """        if ( x0 == x1 && y0 == y1 && !cells_.empty()) break;
        cells_.push_back( std::pair<int, int>( x0, y0 ));
        if ( x0 == x1 && y0 == y1 ) break;""")],
  "srcs": SRC, "needs": "a line longer than one cell",
  "breaks": "the cell of the end point is missing from the line",
  "demo": """#include <cslibs_path_planning/common/SimpleGridMap2d.h>
using namespace lib_path;
int main() { SimpleGridMap2d m(40, 40, 1.0); LineArea a(Point2d(1.5, 1.5), Point2d(9.5, 4.5), &m); a.begin(); int x = -1, y = -1; while (a.next()) a.getCell(x, y); return x == 9 && y == 4 ? 0 : 1; }
"""},
 {"id": "M04_rotated_origin", "property": "M04",
  "edits": [(ROT, "origin_ = p.rotate(-yaw_);", "origin_ = p.rotate(yaw_);")],
  "srcs": SRC, "needs": "a rotated map with an origin other than zero",
  "breaks": "the grid of a rotated map does not start at the origin that was set",
  "demo": """#include <cslibs_path_planning/common/RotatedGridMap2d.h>
#include <cmath>
using namespace lib_path;
int main() { RotatedGridMap2d m(10, 10, 0.7, 0.5); m.setOrigin(Point2d(3, -2)); double x, y; m.cell2pointSubPixel(0, 0, x, y); return std::fabs(x - 3) < 1e-6 && std::fabs(y + 2) < 1e-6 ? 0 : 1; }
"""},
 {"id": "M04_cell_middle", "property": "M04",
  "edits": [(SIMPLE, """        px = res_*(double)(x+0.5) + origin_.x;
        py = res_*(double)(y+0.5) + origin_.y;""", """        px = res_*(double)x + 0.5 + origin_.x;
        py = res_*(double)y + 0.5 + origin_.y;""")],
  "srcs": SRC, "needs": "a resolution other than one meter",
  "breaks": "the point of a cell lies in another cell for fine resolutions",
  "demo": """#include <cslibs_path_planning/common/SimpleGridMap2d.h>
using namespace lib_path;
int main() { SimpleGridMap2d m(100, 100, 0.25); double px, py; unsigned x, y; m.cell2point(7u, 9u, px, py); m.point2cell(px, py, x, y); return x == 7 && y == 9 ? 0 : 1; }
"""},
]
