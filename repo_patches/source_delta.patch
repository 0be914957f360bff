From 4b8bbebee414d54bbbce0651ac645aa3240f255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 01/26] fix: map area iterators skipped the first cell and read
 past the last one

---
 include/cslibs_path_planning/common/GridMap2d.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cslibs_path_planning/common/GridMap2d.h b/include/cslibs_path_planning/common/GridMap2d.h
index c4caceb..253a2d3 100644
--- a/include/cslibs_path_planning/common/GridMap2d.h
+++ b/include/cslibs_path_planning/common/GridMap2d.h
@@ -303,8 +303,8 @@ public:
     }
 
     virtual void getCell( int& x, int& y ) const {
-        x = cells_[counter_].first + center_x_;
-        y = cells_[counter_].second + center_y_;
+        x = cells_[counter_ - 1].first + center_x_;
+        y = cells_[counter_ - 1].second + center_y_;
     }
 
     virtual uint8_t getValue() const
@@ -332,7 +332,7 @@ protected:
     /// Current y coordinate of center point (cell coordinates)
     int center_y_;
 
-    /// Points to the currently selected cell
+    /// Number of cells selected so far, the current cell is the one before
     std::size_t counter_;
 };
 
@@ -372,7 +372,7 @@ public:
      * @return Previously buffered cell value.
      */
     virtual uint8_t getValue() const {
-        return values_[counter_];
+        return values_[counter_ - 1];
     }
 
     /**
@@ -380,7 +380,7 @@ public:
      * @param value Value of the currently selected cell.
      */
     virtual void setValue( const uint8_t value ) {
-        values_[counter_] = value;
+        values_[counter_ - 1] = value;
     }
 
 protected:
@@ -432,15 +432,15 @@ public:
     }
 
     virtual void getCell( int& x, int& y ) const {
-        x = cells_[counter_].first;
-        y = cells_[counter_].second;
+        x = cells_[counter_ - 1].first;
+        y = cells_[counter_ - 1].second;
     }
 
     virtual uint8_t getValue() const
         { return value_; }
 
 protected:
-    /// Points to the current cell
+    /// Number of cells selected so far, the current cell is the one before
     std::size_t counter_;
 
     /// All cells of this area
-- 
2.43.0


From a7ba97d7ff935df0119be592243587919536b8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 02/26] fix: isAreaNoInformation returned false as soon as a
 cell was unknown

---
 src/common/GridMap2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/GridMap2d.cpp b/src/common/GridMap2d.cpp
index 481acda..a57b443 100644
--- a/src/common/GridMap2d.cpp
+++ b/src/common/GridMap2d.cpp
@@ -84,7 +84,7 @@ bool GridMap2d::isAreaNoInformation(MapArea2d &area ) const
     int x, y;
     while ( area.next()) {
         area.getCell( x, y );
-        if ( isInMap( x, y ) && isNoInformation(x, y))
+        if ( isInMap( x, y ) && !isNoInformation(x, y))
             return false;
     }
     return true;
-- 
2.43.0


From 7dfe3a5369d9e5cbf550e2ee8b61036743b9da69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 03/26] fix: SimpleGridMap2d treated points just below the
 origin as inside the map

---
 include/cslibs_path_planning/common/SimpleGridMap2d.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/common/SimpleGridMap2d.h b/include/cslibs_path_planning/common/SimpleGridMap2d.h
index 5ccccf0..1d2d7cf 100644
--- a/include/cslibs_path_planning/common/SimpleGridMap2d.h
+++ b/include/cslibs_path_planning/common/SimpleGridMap2d.h
@@ -8,6 +8,7 @@
 #define SIMPLEGRIDMAP2D_H
 
 // C/C++
+#include <cmath>
 #include <stdint.h>
 #include <vector>
 
@@ -146,8 +147,8 @@ public:
     }
 
     bool point2cell( const double px, const double py, unsigned int& x, unsigned int& y ) const {
-        x = (unsigned int)((px - origin_.x)/res_);
-        y = (unsigned int)((py - origin_.y)/res_);
+        x = (unsigned int)(int)std::floor((px - origin_.x)/res_);
+        y = (unsigned int)(int)std::floor((py - origin_.y)/res_);
 
         if ( !isInMap( (int)x, (int)y ))
             return false;
@@ -157,7 +158,7 @@ public:
         x = (px - origin_.x)/res_;
         y = (py - origin_.y)/res_;
 
-        if ( !isInMap( (int)x, (int)y ))
+        if ( !isInMap( (int)std::floor(x), (int)std::floor(y) ))
             return false;
         return true;
     }
@@ -176,7 +177,7 @@ public:
         { return !(x < 0 || y < 0 || x >= (int)width_ || y >= (int)height_); }
 
     bool isInMap( const double x, const double y ) const
-        { return (x - origin_.x)/res_ < width_ && (y - origin_.y)/res_ < height_; }
+        { return x >= origin_.x && y >= origin_.y && (x - origin_.x)/res_ < width_ && (y - origin_.y)/res_ < height_; }
 
     unsigned char* getData()
     {
-- 
2.43.0


From d6d6ea0e609233ff1c4ba453776487d4680f9416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 04/26] fix: RotatedGridMap2d point conversions ignored origin,
 resolution or rotation

---
 .../common/RotatedGridMap2d.h                 | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/cslibs_path_planning/common/RotatedGridMap2d.h b/include/cslibs_path_planning/common/RotatedGridMap2d.h
index 2b64e1a..4c69531 100644
--- a/include/cslibs_path_planning/common/RotatedGridMap2d.h
+++ b/include/cslibs_path_planning/common/RotatedGridMap2d.h
@@ -78,14 +78,24 @@ public:
         double rx = c * nx - s * ny;
         double ry = s * nx + c * ny;
 
-        x = (rx - origin_.x)/res_;
-        y = (ry - origin_.y)/res_;
+        x = (unsigned int)(int)std::floor((rx - origin_.x)/res_);
+        y = (unsigned int)(int)std::floor((ry - origin_.y)/res_);
 
         if ( !isInMap( (int)x, (int)y ))
             return false;
         return true;
     }
 
+    virtual bool point2cellSubPixel( const double px, const double py, double& x, double& y ) const {
+        double c = std::cos(-yaw_);
+        double s = std::sin(-yaw_);
+
+        double rx = c * px - s * py;
+        double ry = s * px + c * py;
+
+        return SimpleGridMap2d::point2cellSubPixel(rx, ry, x, y);
+    }
+
     void cell2point( const unsigned int x, const unsigned int y, double& px, double& py ) const {
         double nx = res_*(double)(x+0.5);
         double ny = res_*(double)(y+0.5);
@@ -125,10 +135,10 @@ public:
         double nx = x;// - origin_.x;
         double ny = y;// - origin_.y;
         
-        int px = c * nx - s * ny;
-        int py = s * nx + c * ny;
+        double px = c * nx - s * ny;
+        double py = s * nx + c * ny;
 
-        return px >= 0 && py >= 0 && px < (int) width_ && py < (int) height_;
+        return SimpleGridMap2d::isInMap(px, py);
     }
 
     virtual double getRotation() const 
-- 
2.43.0


From 868c0957796a05c5c7ccd327395e04bb0421b2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 05/26] fix: AStar::setNewMap kept a node list of the old size
 when the map was resized in place

---
 include/cslibs_path_planning/a_star/AStar.h | 3 +++
 src/a_star/AStar.cpp                        | 9 ++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/cslibs_path_planning/a_star/AStar.h b/include/cslibs_path_planning/a_star/AStar.h
index 475fd7e..7dd29a7 100644
--- a/include/cslibs_path_planning/a_star/AStar.h
+++ b/include/cslibs_path_planning/a_star/AStar.h
@@ -102,6 +102,9 @@ private:
 	unsigned char getMapValue(const waypoint_t& waypoint);
 
 	OpenList* mNodesList;
+	/// Map size the node list was created for (the map may be resized in place)
+	unsigned int mListWidth;
+	unsigned int mListHeight;
 	static const int mNeighborCount = 8;
 	neighbor_t mNeighbors[mNeighborCount];
     GridMap2d* mMap;
diff --git a/src/a_star/AStar.cpp b/src/a_star/AStar.cpp
index f8f3ed4..e95417a 100644
--- a/src/a_star/AStar.cpp
+++ b/src/a_star/AStar.cpp
@@ -41,7 +41,7 @@ AStar::~AStar() {
 
 void AStar::setNewMap( GridMap2d* map ) {
     // Check if there is an existing map
-    if ( mMap != NULL && ( mMap->getWidth() != map->getWidth() || mMap->getHeight() != map->getHeight() )) {
+    if ( mMap != NULL && ( mListWidth != map->getWidth() || mListHeight != map->getHeight() )) {
         cout << "AStar: Warning: Set map with new size. This takes some computation time." << endl;
         delete mNodesList;
         mNodesList = NULL;
@@ -49,8 +49,11 @@ void AStar::setNewMap( GridMap2d* map ) {
     mMap = map;
 
     // Create node list only if necessary
-    if ( mNodesList == NULL )
-        mNodesList = new OpenList( mMap->getWidth(), mMap->getHeight());
+    if ( mNodesList == NULL ) {
+        mListWidth = mMap->getWidth();
+        mListHeight = mMap->getHeight();
+        mNodesList = new OpenList( mListWidth, mListHeight );
+    }
 }
 
 bool AStar::planPath( const waypoint_t &start, const waypoint_t &goal ) {
-- 
2.43.0


From 0618adc024ba870a7f76e0d8c75fb64bf78234d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:05 +0000
Subject: [PATCH 06/26] fix: Bresenham2d accessed an unset or former map when
 an end was outside of the map

---
 src/common/Bresenham2d.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/Bresenham2d.cpp b/src/common/Bresenham2d.cpp
index 5020449..cf397c8 100644
--- a/src/common/Bresenham2d.cpp
+++ b/src/common/Bresenham2d.cpp
@@ -11,11 +11,14 @@ namespace lib_path {
 
 Bresenham2d::Bresenham2d()
 {
+    map_ = NULL;
     x0_ = y0_ = x_ = y_ = x1_ = y1_ = 0;
 }
 
 void Bresenham2d::set( const GridMap2d *map, const Point2d start, const Point2d end )
 {
+    map_ = map;
+
     // Start or end outside of map?
     if ( !map->isInMap( start ) || !map->isInMap( end )) {
         x0_ = y0_ = x_ = y_ = x1_ = y1_ = 0;
@@ -23,7 +26,6 @@ void Bresenham2d::set( const GridMap2d *map, const Point2d start, const Point2d
     }
 
     // Start/end in cell coordinates
-    map_ = map;
     /// @todo Fix this signed/unsigned shit
     unsigned int x, y;
     map_->point2cell( start, x, y );
@@ -43,6 +45,8 @@ void Bresenham2d::set( const GridMap2d *map, const Point2d start, const Point2d
 
 void Bresenham2d::setGrid(const GridMap2d *map, int start_x, int start_y, int end_x, int end_y)
 {
+    map_ = map;
+
     // Start or end outside of map?
     if ( !map->isInMap(start_x, start_y) || !map->isInMap(end_x, end_y)) {
         x0_ = y0_ = x_ = y_ = x1_ = y1_ = 0;
@@ -50,7 +54,6 @@ void Bresenham2d::setGrid(const GridMap2d *map, int start_x, int start_y, int en
     }
 
     // Start/end in cell coordinates
-    map_ = map;
     x0_ = start_x; y0_ = start_y;
     x1_ = end_x; y1_ = end_y;
 
-- 
2.43.0


From 2a1ca842f4c115fbf98193cb45dac82f625aa3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:21 +0000
Subject: [PATCH 07/26] fix: CurveGenerator::parse returned true iff the
 sequence was wrong

---
 src/ReedsShepp/CurveGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index cd8d077..d0cc89e 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -174,7 +174,7 @@ bool CurveGenerator::parse(const std::string& sequence, std::ostream& out)
             out << " ";
         out << "^" << std::endl;
     }
-    return error;
+    return !error;
 }
 
 Curve* CurveGenerator::find_path(const Pose2d& start, const Pose2d& goal, const GridMap2d* map, bool ignore_obstacles)
-- 
2.43.0


From af4a4f7fa3e046e3f7f8d70b3135553f0269be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:21 +0000
Subject: [PATCH 08/26] fix: CurveGenerator::parse read before the first
 segment for a leading subpattern

---
 src/ReedsShepp/CurveGenerator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index d0cc89e..9542930 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -94,6 +94,11 @@ bool CurveGenerator::parse(const std::string& sequence, std::ostream& out)
                 error = true;
                 break;
             case 'b': {
+                if(new_curve.count() == 0) {
+                    out << "RS Generator: error parsing" << std::endl << sequence << ", no circle before the subsequence" << std::endl;
+                    error = true;
+                    break;
+                }
                 const CurveSegment& cs = new_curve.get_segment(new_curve.count() - 1);
 //                CurveSegment* cs = m_sequences[m_count].at(m_sequences[m_count].size()-1);
 
-- 
2.43.0


From efe638fc8e45f29c8b11b2616496601ebf006b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:21 +0000
Subject: [PATCH 09/26] fix: CurveGenerator compared with an uninitialised
 maximum curve arc

---
 src/ReedsShepp/CurveGenerator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index 9542930..e7486dd 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -10,6 +10,7 @@
 
 /// SYSTEM
 #include <stdio.h>
+#include <limits>
 #include <typeinfo>
 
 using namespace lib_path;
@@ -18,7 +19,7 @@ CurveGenerator::CurveGenerator()
     : m_use_map_cost(false), m_min_cell_cost(10),
       m_circle_radius(2.0), m_max_waypoint_distance(1.0),
       m_cost_forwards(1.0), m_cost_backwards(1.0), m_cost_curve(1.0), m_cost_straight(1.0),
-      m_trace(-1)
+      m_max_curve_arc(std::numeric_limits<double>::infinity()), m_trace(-1)
 {
 }
 
-- 
2.43.0


From ea7c57b0a924cc436b1275858117d56a405d4d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:21 +0000
Subject: [PATCH 10/26] fix: Curve dereferenced NULL for sequences that start
 or end with a straight segment

---
 src/ReedsShepp/Curve.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ReedsShepp/Curve.cpp b/src/ReedsShepp/Curve.cpp
index 67c4a0f..73a5e2e 100644
--- a/src/ReedsShepp/Curve.cpp
+++ b/src/ReedsShepp/Curve.cpp
@@ -108,6 +108,11 @@ double Curve::check_if_admissible()
         return NOT_FREE;
     }
 
+    if(!dynamic_cast<CircleSegment*>(m_sequence.front()) || !dynamic_cast<CircleSegment*>(m_sequence.back())) {
+        // only curves between two circles can be computed
+        return NOT_FREE;
+    }
+
     init_segments();
 
     if(!handle_sequence()) {
-- 
2.43.0


From e94eaccb5af7d5e1a035748d4b052781a57e765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:19 +0000
Subject: [PATCH 11/26] fix: CircleSegment left arcs shorter than the waypoint
 distance

---
 src/ReedsShepp/CircleSegment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index a68aa16..62a5d20 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -293,7 +293,7 @@ void CircleSegment::compute_arc_length()
     m_angle_step_size = m_max_distance / m_radius * sign;
 
     // no of steps
-    m_steps = std::max(1, (int) std::abs(std::floor(m_arc_length / m_angle_step_size)));
+    m_steps = (int) std::abs(std::floor(m_arc_length / m_angle_step_size));
 }
 
 void CircleSegment::reset_iteration()
-- 
2.43.0


From 32251ffc56c91e53c1f4391788c8859177fd6fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:19 +0000
Subject: [PATCH 12/26] fix: LineSegment exceeded the maximum waypoint distance

---
 src/ReedsShepp/LineSegment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReedsShepp/LineSegment.cpp b/src/ReedsShepp/LineSegment.cpp
index 72f8278..bb728b3 100644
--- a/src/ReedsShepp/LineSegment.cpp
+++ b/src/ReedsShepp/LineSegment.cpp
@@ -100,7 +100,7 @@ void LineSegment::reset_iteration()
 {
     m_iterating = true;
     m_output = 0;
-    m_segments = m_start.distance_to(m_end) / m_max_distance;
+    m_segments = std::ceil(m_start.distance_to(m_end) / m_max_distance);
 }
 
 bool LineSegment::has_next()
-- 
2.43.0


From 363e7a0a90f45324ce20dad7a3211be058fbcc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:22 +0000
Subject: [PATCH 13/26] fix: forget the goal of an earlier goal test search

GenericSearchAlgorithm kept the pointer returned by GoalTest::getHeuristicGoal().
A later search for a pose whose goal cell is occupied dereferenced it.
---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 35c1668..6a9be8c 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -458,6 +458,7 @@ protected:
 
         start.clear();
         goal.clear();
+        heuristic_goal = NULL;
     }
 
     void initStartPose(const PointT& pose)
-- 
2.43.0


From 47ead8fa345059f22396f03bf01c1a783ff25b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:43 +0000
Subject: [PATCH 14/26] fix: an analytic expansion from the start cell
 dereferenced NULL

The predecessors were followed from a copy of the last cell. If that is the
start cell the copy is not recognized as start and has no predecessor.
---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 6a9be8c..f87ead5 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -577,10 +577,10 @@ protected:
                 PathT expansion;
                 AnalyticExpansionType::getPath(&expansion);
 
-                NodeT tmp = *current;
-                tmp.theta = expansion.begin()->theta;
-
-                PathT path = backtrack(&tmp);
+                PathT path = backtrack(current);
+                if(!path.empty()) {
+                    path.back().theta = expansion.begin()->theta;
+                }
                 path.insert(path.end(), expansion.begin(), expansion.end());
                 result = path;
                 return true;
-- 
2.43.0


From ea3fb93134715edd3d1e8c2d1cc0963bfcbcef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:34 +0000
Subject: [PATCH 15/26] fix: initialise the moves left to drive straight for
 forward-only steering

---
 include/cslibs_path_planning/generic/SteeringNeighborhood.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
index 2400b66..8a47120 100644
--- a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
@@ -262,6 +262,8 @@ struct SteeringNeighborhood :
                     custom = 0;
                 }
             }
+        } else {
+            custom = 0;
         }
 
 
-- 
2.43.0


From 952354d8672c48a333e226d8a44a369534c2acc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:27 +0000
Subject: [PATCH 16/26] fix: a pose left of or below the map has no state

The coordinates of a pose were converted to unsigned, so that a pose
less than one cell outside of the map was given a cell of its border.
---
 .../generic/MapManager.hpp                    | 22 ++++---------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 718b50e..6d8cd03 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -201,12 +201,7 @@ struct GridMapManager :
 
     template <class PointT>
     NodeType* lookup(const PointT& reference) const {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
-        if((x < 0) || (y < 0) || (x >= w) || (y >= h)) {
-            throw OutsideMapException();
-        }
-        return &data[index(x,y)];
+        return lookup((double) reference.x, (double) reference.y);
     }
 
     NodeType* lookup(const int x, const int y) const {
@@ -290,10 +285,7 @@ public:
 
     template <class PointT>
     NodeType* lookup(const PointT& reference) const {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
-        unsigned t = angle2index(reference.theta);
-        return &data[index(x,y,t)];
+        return lookup((double) reference.x, (double) reference.y, reference.theta);
     }
 
     NodeType* lookup(const int x, const int y, double theta) const {
@@ -386,16 +378,10 @@ public:
 
     template <class PointT>
     NodeType* lookup(const PointT& reference) {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
-        unsigned t = angle2index(reference.theta);
-        return &data[index(x,y,t, reference.forward)];
+        return lookup((double) reference.x, (double) reference.y, reference.theta, reference.forward);
     }
     NodeType* lookup(const Pose2d& reference) {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
-        unsigned t = angle2index(reference.theta);
-        return &data[index(x,y,t, true)];
+        return lookup((double) reference.x, (double) reference.y, reference.theta, true);
     }
 
     NodeType* lookup(const int x, const int y, double theta, bool forward) {
-- 
2.43.0


From 8c41ba49da1634cfbc03208638267e330c14275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:27 +0000
Subject: [PATCH 17/26] fix: StateSpaceManager throws the exception that exists

---
 include/cslibs_path_planning/generic/MapManager.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 6d8cd03..3ddb7a7 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -275,7 +275,7 @@ public:
 
     inline unsigned index(unsigned x, unsigned y, unsigned t) const {
         if((x < 0) || (y < 0) || (x >= w) || (y >= h) || (t < 0) || (t >= theta_slots)) {
-            throw typename ManagerT::OutsideMapException();
+            throw OutsideMapException();
         }
         return y * w + x + t*w*h;
     }
@@ -290,13 +290,13 @@ public:
 
     NodeType* lookup(const int x, const int y, double theta) const {
         if((x < 0) || (y < 0) || (x >= w) || (y >= h)) {
-            throw typename ManagerT::OutsideMapException();
+            throw OutsideMapException();
         }
         return &data[index(x,y,angle2index(theta))];
     }
     NodeType* lookup(const double x, const double y, double theta) const {
         if((x < 0) || (y < 0) || (x >= w) || (y >= h)) {
-            throw typename ManagerT::OutsideMapException();
+            throw OutsideMapException();
         }
         return lookup((int) std::floor(x), (int) std::floor(y), theta);
     }
-- 
2.43.0


From 9e6fb307753b7c16d7081f0708e48dee48ba0f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:14 +0000
Subject: [PATCH 18/26] fix: the chunk of a state in the margin of the map

Negative multiples of the chunk size were counted to the chunk before,
and hasNode() did not count in the margin.
---
 .../cslibs_path_planning/generic/MapManager.hpp  | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 3ddb7a7..498c278 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -596,13 +596,11 @@ public:
         if((x < -padding) || (y < -padding) || (x >= (int) (w + padding)) || (y >= (int) (h + padding)) || (t < 0) || (t >= theta_slots)) {
             throw OutsideMapException();
         }
-        int cx = (x / (int) chunk_size);
-        if(x < 0) cx -= 1;
-        int cy = (y / (int) chunk_size);
-        if(y < 0) cy -= 1;
+        int cxp = (x + padding) / (int) chunk_size;
+        int cyp = (y + padding) / (int) chunk_size;
 
-        int cxp = cx + padding_chunks;
-        int cyp = cy + padding_chunks;
+        int cx = cxp - padding_chunks;
+        int cy = cyp - padding_chunks;
 
 
         Chunk* chunk = chunks.at(cyp * chunks_w + cxp);
@@ -620,10 +618,10 @@ public:
         if((x < -padding) || (y < -padding) || (x >= (int) (w + padding)) || (y >= (int) (h + padding)) || (t < 0) || (t >= (int) theta_slots)) {
             throw OutsideMapException();
         }
-        int cx = (x / chunk_size);
-        int cy = (y / chunk_size);
+        int cxp = (x + padding) / (int) chunk_size;
+        int cyp = (y + padding) / (int) chunk_size;
 
-        Chunk* chunk = chunks.at(cy * chunks_w + cx);
+        Chunk* chunk = chunks.at(cyp * chunks_w + cxp);
         return chunk != nullptr;
     }
 
-- 
2.43.0


From ca353c2e6fcb32cae36929a1adb7fbf5e8505208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:55 +0000
Subject: [PATCH 19/26] fix: check lines near the right and lower border of the
 map

The coordinates of the line, shifted by the margin, were compared with the
size of the map, and lines beyond it were not looked at at all.
isFreeOrUnknown() looked at the start instead of the end of the line.
---
 include/cslibs_path_planning/common/Bresenham2d.h   |  9 +++++++++
 include/cslibs_path_planning/generic/MapManager.hpp | 12 ++++++------
 src/common/Bresenham2d.cpp                          |  7 +++++++
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/cslibs_path_planning/common/Bresenham2d.h b/include/cslibs_path_planning/common/Bresenham2d.h
index 857aefb..6c12788 100644
--- a/include/cslibs_path_planning/common/Bresenham2d.h
+++ b/include/cslibs_path_planning/common/Bresenham2d.h
@@ -43,6 +43,15 @@ public:
      */
     void setGrid(const GridMap2d *map, int start_x, int start_y, int end_x, int end_y );
 
+    /**
+     * @brief Set the map, start and end
+     * The line may leave the map.
+     * @param map The map
+     * @param start Start of the line (grid coordinates)
+     * @param end End of the line (grid coordinates)
+     */
+    void setLine(const GridMap2d *map, int start_x, int start_y, int end_x, int end_y );
+
     /**
      * @brief Select next cell
      * @return False if we reached the end
diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 498c278..ff25459 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -645,7 +645,7 @@ public:
     }
 
     bool isFree(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setLine(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
@@ -664,11 +664,11 @@ public:
             }
         }
 
-        return isFree(ex,ey,theta);
+        return isFree((int) std::floor(ex),(int) std::floor(ey),theta);
     }
 
     bool isFreeOrUnknown(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setLine(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
@@ -688,12 +688,12 @@ public:
             }
         }
 
-        return isFreeOrUnknown(sx,sy,theta);
+        return isFreeOrUnknown((int) std::floor(ex),(int) std::floor(ey),theta);
     }
 
 
     bool isOccupied(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setLine(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
@@ -712,7 +712,7 @@ public:
             }
         }
 
-        return isOccupied(ex,ey,theta);
+        return isOccupied((int) std::floor(ex),(int) std::floor(ey),theta);
     }
 
     bool isFree(int x, int y, double theta) const {
diff --git a/src/common/Bresenham2d.cpp b/src/common/Bresenham2d.cpp
index cf397c8..c20bace 100644
--- a/src/common/Bresenham2d.cpp
+++ b/src/common/Bresenham2d.cpp
@@ -53,6 +53,13 @@ void Bresenham2d::setGrid(const GridMap2d *map, int start_x, int start_y, int en
         return;
     }
 
+    setLine(map, start_x, start_y, end_x, end_y);
+}
+
+void Bresenham2d::setLine(const GridMap2d *map, int start_x, int start_y, int end_x, int end_y)
+{
+    map_ = map;
+
     // Start/end in cell coordinates
     x0_ = start_x; y0_ = start_y;
     x1_ = end_x; y1_ = end_y;
-- 
2.43.0


From e418a38b5a3b37cd480ddffab405745d04fff55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:09 +0000
Subject: [PATCH 20/26] fix: the gain of a pose around a center is that of the
 pose, not of the next one

---
 src/sampling/CentroidRadiusGoalRegion.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sampling/CentroidRadiusGoalRegion.cpp b/src/sampling/CentroidRadiusGoalRegion.cpp
index 4a370d4..068334b 100644
--- a/src/sampling/CentroidRadiusGoalRegion.cpp
+++ b/src/sampling/CentroidRadiusGoalRegion.cpp
@@ -52,13 +52,13 @@ bool CentroidRadiusGoalRegion::getNextGoal (Pose2d &goal, double& gain)
   goal.y = center_.y - radius_ * sin (theta_);
   goal.theta = theta_;
 
-  counter_++;
-  theta_ = MathHelper::AngleClamp (theta_ + theta_step_);
-
   // Direct approach 1.0 -> approach from max angle 2.0
   int32_t diff = (int32_t)(counter_ - (samples_num_/2));
   gain = 1.0 + 2.0*abs (diff) / samples_num_;
 
+  counter_++;
+  theta_ = MathHelper::AngleClamp (theta_ + theta_step_);
+
   return true;
 }
 
-- 
2.43.0


From 10f921a7b67faaceb3106ecc861be1ec914f37ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:09 +0000
Subject: [PATCH 21/26] fix: the last pose of a line with its start pose was
 never assigned

---
 src/geometry/line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/line.cpp b/src/geometry/line.cpp
index 4f4ccb0..29f2dac 100644
--- a/src/geometry/line.cpp
+++ b/src/geometry/line.cpp
@@ -76,7 +76,7 @@ void Line::toPoses(double resolution, PathPoseVec &poses, int move_direction, bo
         poses.resize(n);
         p=p+step;
     }
-    for (int i=0;i<n;++i) {
+    for (size_t i=0;i<poses.size();++i) {
         poses[i].pos_=p;
         poses[i].theta_ = theta;
         p+=step;
-- 
2.43.0


From c28cad6a0c3d2b941294f2da4677f965c65b2ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:09 +0000
Subject: [PATCH 22/26] fix: points of an arc ignored its center and its
 direction

---
 src/geometry/circle.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geometry/circle.cpp b/src/geometry/circle.cpp
index d6cdc21..9880283 100644
--- a/src/geometry/circle.cpp
+++ b/src/geometry/circle.cpp
@@ -183,12 +183,12 @@ void Circle::toPoints(double resolution, std::vector<Vector2d> &points)
     double arc_length = getArcLength() ;
     double arc_angle = getArcAngle();
     int steps = abs(arc_length/resolution);
-    double dphi = arc_angle/steps;
+    double dphi = arc_direction_*arc_angle/steps;
     points.resize(steps);
     double phi = start_angle_;
     for (int i=0;i<steps;++i) {
-        points[i].x() = radius_*cos(phi);
-        points[i].y() = radius_*sin(phi);
+        points[i].x() = center_.x()+radius_*cos(phi);
+        points[i].y() = center_.y()+radius_*sin(phi);
         phi+=dphi;
 
     }
-- 
2.43.0


From 5aff163962b5a8ee80760954cf2af08ee9fbc59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:09 +0000
Subject: [PATCH 23/26] fix: intersecting concentric circles left earlier
 points in the result

---
 src/geometry/intersector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/intersector.cpp b/src/geometry/intersector.cpp
index b1013fe..d248469 100644
--- a/src/geometry/intersector.cpp
+++ b/src/geometry/intersector.cpp
@@ -42,6 +42,7 @@ void Intersector::intersect(const Circle &c1, const Circle &c2, std::vector<Eige
                             double tol)
 {
     tol=fabs(tol);
+    res_points.clear();
     //Calculate distance between centres of circle
     Vector2d c1c2 = c2.center()-c1.center();
     double d = (c1c2).norm();
@@ -52,7 +53,6 @@ void Intersector::intersect(const Circle &c1, const Circle &c2, std::vector<Eige
     double r2 = c2.radius();
     double m = r1+r2;
     double n = fabs(r1-r2);
-    res_points.clear();
     //No solns
     if ( d > m+tol )
         return;
-- 
2.43.0


From 8be74cd37ec738d730607b94ef2f929d5fb96474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:31 +0000
Subject: [PATCH 24/26] fix: tangentPath from the small circle never set the
 ends of the connecting arc

---
 src/geometry/tangentor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geometry/tangentor.cpp b/src/geometry/tangentor.cpp
index 572fccf..ed77582 100644
--- a/src/geometry/tangentor.cpp
+++ b/src/geometry/tangentor.cpp
@@ -246,6 +246,9 @@ void Tangentor::tangentPath(const Circle &small, const Circle &large, double rad
             if (!from_small) {
                 tcircle.selectStartPoint(ipoints_large.front());
                 tcircle.selectEndPoint(ipoints_small.front());
+            } else {
+                tcircle.selectStartPoint(ipoints_small.front());
+                tcircle.selectEndPoint(ipoints_large.front());
             }
             tangent_arcs.push_back(tcircle);
         } else {
-- 
2.43.0


From 466cb5942aa32ea6d1d8bd63ed16bd87b99f7c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:31 +0000
Subject: [PATCH 25/26] fix: tangentPath ignored the given tolerance

---
 src/geometry/tangentor.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/geometry/tangentor.cpp b/src/geometry/tangentor.cpp
index ed77582..1960e6c 100644
--- a/src/geometry/tangentor.cpp
+++ b/src/geometry/tangentor.cpp
@@ -28,14 +28,14 @@ void Tangentor::tangentPath(const shared_ptr<Shape> &shape, const Circle &circle
     auto first_circle = std::dynamic_pointer_cast<Circle>(shape);
     if (first_line) {
         if (first_to_second) {
-            Tangentor::tangentPath(*first_line,circle,radius,path);
+            Tangentor::tangentPath(*first_line,circle,radius,path,tol);
         } else {
             std::cout << "search tangent from circle to line "<<*first_line << std::endl;
-            Tangentor::tangentPath(circle,*first_line, radius,path);
+            Tangentor::tangentPath(circle,*first_line, radius,path,tol);
         }
     } else if (first_circle) {
 
-        Tangentor::tangentPath(circle,*first_circle,radius,!first_to_second, path);
+        Tangentor::tangentPath(circle,*first_circle,radius,!first_to_second, path,tol);
     } else {
         path.clear();
     }
@@ -71,7 +71,7 @@ void Tangentor::tangentPath(const Line &line, const Circle &circle, double radiu
 {
     path.clear();
     path_geom::aligned<path_geom::Circle>::vector tangent_arcs;
-    tangentArc(line,circle,radius,tangent_arcs);
+    tangentArc(line,circle,radius,tangent_arcs,tol);
     if (tangent_arcs.size()==0) {
         return;
     }
@@ -99,7 +99,7 @@ void Tangentor::tangentPath(const Circle &circle, const Line &line, double radiu
 {
     path.clear();
     aligned<Circle>::vector  tangent_arcs;
-    tangentArc(circle,line,radius,tangent_arcs);
+    tangentArc(circle,line,radius,tangent_arcs,tol);
     if (tangent_arcs.size()==0) {
         return;
     }
-- 
2.43.0


From ecd751b18a52ffa148cc0125caf24855810d2a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:57 +0000
Subject: [PATCH 26/26] fix: intersectArcs checked the arcs with the default
 tolerance

---
 src/geometry/intersector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/intersector.cpp b/src/geometry/intersector.cpp
index d248469..061b411 100644
--- a/src/geometry/intersector.cpp
+++ b/src/geometry/intersector.cpp
@@ -95,13 +95,14 @@ void Intersector::intersect(const Circle &c1, const Circle &c2, std::vector<Eige
 
 void Intersector::intersectArcs(const Circle &c1, const Circle &c2, std::vector<Vector2d> &res_points, double tol)
 {
+    tol=fabs(tol);
     res_points.clear();
     std::vector<Vector2d> ipoints;
     intersect(c1,c2,ipoints,tol);
 
     for (auto& ip : ipoints) {
         // check each intersection point if it is part of both arcs      
-        if (c1.isPointOnArc(ip) && c2.isPointOnArc(ip)) {
+        if (c1.isPointOnArc(ip,tol) && c2.isPointOnArc(ip,tol)) {
             res_points.push_back(ip);
         }
     }
-- 
2.43.0

