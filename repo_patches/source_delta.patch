From 94b9145b2d9c68af7e347fd195e090b0f096e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 01/34] fix: circle and line areas visit all of their cells

begin() selected the first cell and next() moved on before it was read, so
the first cell was skipped and one element behind the last was accessed.
---
 include/cslibs_path_planning/common/GridMap2d.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/cslibs_path_planning/common/GridMap2d.h b/include/cslibs_path_planning/common/GridMap2d.h
index c4caceb..e65c762 100644
--- a/include/cslibs_path_planning/common/GridMap2d.h
+++ b/include/cslibs_path_planning/common/GridMap2d.h
@@ -292,14 +292,12 @@ public:
     /* Inherited from MapArea2d */
 
     virtual void begin()
-        { counter_ = 0; }
+        { counter_ = (std::size_t)-1; /* before the first cell */ }
 
     virtual bool next() {
-        if ( counter_ < cells_.size()) {
+        if ( counter_ != cells_.size())
             ++counter_;
-            return true;
-        }
-        return false;
+        return counter_ < cells_.size();
     }
 
     virtual void getCell( int& x, int& y ) const {
@@ -421,14 +419,12 @@ public:
     /* Inherited from MapArea2d */
 
     virtual void begin()
-        { counter_ = 0; }
+        { counter_ = (std::size_t)-1; /* before the first cell */ }
 
     virtual bool next() {
-        if ( counter_ < cells_.size()) {
+        if ( counter_ != cells_.size())
             ++counter_;
-            return true;
-        }
-        return false;
+        return counter_ < cells_.size();
     }
 
     virtual void getCell( int& x, int& y ) const {
-- 
2.43.0


From 9c4a69ac0a8c1d7a6ed995e0e4ed0f0b9b763865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:50 +0000
Subject: [PATCH 02/34] fix: points left of or below a grid map have no cell

The conversion to a cell truncated towards zero, so a point up to one cell
outside was taken for a cell of the first column or row, and the in-map
test for points had no lower bound.
---
 include/cslibs_path_planning/common/SimpleGridMap2d.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/common/SimpleGridMap2d.h b/include/cslibs_path_planning/common/SimpleGridMap2d.h
index 5ccccf0..fe30f88 100644
--- a/include/cslibs_path_planning/common/SimpleGridMap2d.h
+++ b/include/cslibs_path_planning/common/SimpleGridMap2d.h
@@ -146,8 +146,9 @@ public:
     }
 
     bool point2cell( const double px, const double py, unsigned int& x, unsigned int& y ) const {
-        x = (unsigned int)((px - origin_.x)/res_);
-        y = (unsigned int)((py - origin_.y)/res_);
+        // round towards -inf: positions left of or below the origin are not in cell 0
+        x = (unsigned int)(int)std::floor((px - origin_.x)/res_);
+        y = (unsigned int)(int)std::floor((py - origin_.y)/res_);
 
         if ( !isInMap( (int)x, (int)y ))
             return false;
@@ -157,7 +158,7 @@ public:
         x = (px - origin_.x)/res_;
         y = (py - origin_.y)/res_;
 
-        if ( !isInMap( (int)x, (int)y ))
+        if ( !isInMap( (int)std::floor(x), (int)std::floor(y) ))
             return false;
         return true;
     }
@@ -176,7 +177,7 @@ public:
         { return !(x < 0 || y < 0 || x >= (int)width_ || y >= (int)height_); }
 
     bool isInMap( const double x, const double y ) const
-        { return (x - origin_.x)/res_ < width_ && (y - origin_.y)/res_ < height_; }
+        { return x >= origin_.x && y >= origin_.y && (x - origin_.x)/res_ < width_ && (y - origin_.y)/res_ < height_; }
 
     unsigned char* getData()
     {
-- 
2.43.0


From cdca48dc4d633bd92cdcba7aabaa94800fc36d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 03/34] fix: rotated grid maps convert all points with origin,
 resolution and rotation

The in-map test for points ignored origin and resolution, the conversion
truncated towards zero, and sub-cell positions ignored the rotation.
---
 .../common/RotatedGridMap2d.h                 | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/cslibs_path_planning/common/RotatedGridMap2d.h b/include/cslibs_path_planning/common/RotatedGridMap2d.h
index 2b64e1a..2af34d0 100644
--- a/include/cslibs_path_planning/common/RotatedGridMap2d.h
+++ b/include/cslibs_path_planning/common/RotatedGridMap2d.h
@@ -78,14 +78,25 @@ public:
         double rx = c * nx - s * ny;
         double ry = s * nx + c * ny;
 
-        x = (rx - origin_.x)/res_;
-        y = (ry - origin_.y)/res_;
+        // round towards -inf: positions left of or below the origin are not in cell 0
+        x = (unsigned int)(int)std::floor((rx - origin_.x)/res_);
+        y = (unsigned int)(int)std::floor((ry - origin_.y)/res_);
 
         if ( !isInMap( (int)x, (int)y ))
             return false;
         return true;
     }
 
+    virtual bool point2cellSubPixel( const double px, const double py, double& x, double& y ) const {
+        double c = std::cos(-yaw_);
+        double s = std::sin(-yaw_);
+
+        x = (c * px - s * py - origin_.x)/res_;
+        y = (s * px + c * py - origin_.y)/res_;
+
+        return isInMap( (int)std::floor(x), (int)std::floor(y) );
+    }
+
     void cell2point( const unsigned int x, const unsigned int y, double& px, double& py ) const {
         double nx = res_*(double)(x+0.5);
         double ny = res_*(double)(y+0.5);
@@ -119,16 +130,8 @@ public:
     }
    
     bool isInMap( const double x, const double y ) const {
-        double c = std::cos(-yaw_);
-        double s = std::sin(-yaw_);
-       
-        double nx = x;// - origin_.x;
-        double ny = y;// - origin_.y;
-        
-        int px = c * nx - s * ny;
-        int py = s * nx + c * ny;
-
-        return px >= 0 && py >= 0 && px < (int) width_ && py < (int) height_;
+        unsigned int cx, cy;
+        return point2cell(x, y, cx, cy);
     }
 
     virtual double getRotation() const 
-- 
2.43.0


From 716efcc15fae7c1adf5281a6b24d06bf7fc9adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 04/34] fix: the collision map uses the footprint of the asked
 orientation

The precomputed footprint was looked up by the angle in radians, so only
the first seven of 128 orientations were ever used.
---
 src/common/CollisionGridMap2d.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index 89c8177..6d6bd66 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -148,7 +148,7 @@ CollisionGridMap2d::CollisionGridMap2d(const unsigned int w, const unsigned int
     : RotatedGridMap2d(w,h, yaw, r)
 {
     for(int t = 0; t< ANGLE_DISCRETIZATION; ++t) {
-        double theta = (2 * M_PI) * (t / (ANGLE_DISCRETIZATION + 1.0));
+        double theta = (2 * M_PI) * (t / (double) ANGLE_DISCRETIZATION);
         double res = getResolution();
 
         areas_[t] = new RobotArea(this, forward / res, backward / res, width / res, theta);
@@ -187,7 +187,7 @@ bool CollisionGridMap2d::isOccupiedRotated(const unsigned int x, const unsigned
     while(t >= 2*M_PI) t -= 2*M_PI;
 
     // check boundary
-    RobotArea* a = areas_[(int) round(t)];
+    RobotArea* a = areas_[(int) round(t / (2*M_PI) * ANGLE_DISCRETIZATION) % ANGLE_DISCRETIZATION];
     a->setPosition(x,y);
     bool occ = isAreaOccupied(*a);
     return occ;
@@ -204,7 +204,7 @@ bool CollisionGridMap2d::isFreeRotated(const unsigned int x, const unsigned int
     while(t >= 2*M_PI) t -= 2*M_PI;
 
     // check boundary
-    RobotArea* a = areas_[(int) round(t)];
+    RobotArea* a = areas_[(int) round(t / (2*M_PI) * ANGLE_DISCRETIZATION) % ANGLE_DISCRETIZATION];
     a->setPosition(x,y);
     bool free = isAreaFree(*a);
     return free;
@@ -225,7 +225,7 @@ bool CollisionGridMap2d::isNoInformationRotated(const unsigned int x, const unsi
     while(t >= 2*M_PI) t -= 2*M_PI;
 
     // check boundary
-    RobotArea* a = areas_[(int) round(t)];
+    RobotArea* a = areas_[(int) round(t / (2*M_PI) * ANGLE_DISCRETIZATION) % ANGLE_DISCRETIZATION];
     a->setPosition(x,y);
     bool no_info = isAreaNoInformation(*a);
     return no_info;
-- 
2.43.0


From a6aa6071c74249e8218a0b092b99cc0ddb1abda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 05/34] fix: the footprint of the collision map is a rectangle

The right edge was walked in the opposite direction of the left one, so
that the sampled area was an hourglass that misses front and rear.
---
 src/common/CollisionGridMap2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index 6d6bd66..c9b763e 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -44,7 +44,7 @@ RobotArea::RobotArea(CollisionGridMap2d const*  parent, double forward, double b
     double i_row = 0.0;
     for(int row = 0; row <= steps_row; ++row) {
         Eigen::Vector2d left = bl + i_row * (fl-bl);
-        Eigen::Vector2d right = fr + i_row * (br-fr);
+        Eigen::Vector2d right = br + i_row * (fr-br);
 
         double i_col = 0.0;
         for(int col = 0; col <= steps_col; ++col) {
-- 
2.43.0


From 4a1624a3a298adb3596db066afd734c3919573d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 06/34] fix: the footprint is sampled at least every half cell

---
 src/common/CollisionGridMap2d.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index c9b763e..bfc71d4 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -8,6 +8,7 @@
 #include <cslibs_path_planning/common/CollisionGridMap2d.h>
 
 /// SYSTEM
+#include <algorithm>
 #include <Eigen/Geometry>
 #include <opencv2/opencv.hpp>
 
@@ -33,11 +34,12 @@ RobotArea::RobotArea(CollisionGridMap2d const*  parent, double forward, double b
     Eigen::Vector2d bl = rot * bl_;
 
 //    double m_per_cell = parent->getResolution();
-    double m_per_step = width / 8;
+    // at least eight steps across the vehicle, but never step over a cell
+    double m_per_step = std::min(width / 8, 0.5);
 //    double m_per_step = m_per_cell * cell_per_step;
 
-    int steps_row = std::ceil(width / m_per_step);
-    int steps_col = std::ceil((forward - backward) / m_per_step);
+    int steps_row = std::ceil((forward - backward) / m_per_step);
+    int steps_col = std::ceil(width / m_per_step);
     double inc_row = 1.0 / steps_row;
     double inc_col = 1.0 / steps_col;
 
-- 
2.43.0


From e6d27a64cee6011c01b94117b2ec4cc2c26950b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 07/34] fix: rounding does not round numbers just below one
 half up

---
 include/cslibs_path_planning/common/TmpMath.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/common/TmpMath.hpp b/include/cslibs_path_planning/common/TmpMath.hpp
index fd9dd25..13659ad 100644
--- a/include/cslibs_path_planning/common/TmpMath.hpp
+++ b/include/cslibs_path_planning/common/TmpMath.hpp
@@ -7,7 +7,9 @@ namespace tmpmath
 // Compile time rounding to nearest whole number
 constexpr int round(double x)
 {
-    return (x >= 0 ? x + 0.5 : x - 0.5);
+    // compare the fraction: x + 0.5 is not exact
+    return (x >= 0 ? static_cast<int>(x) + (x - static_cast<int>(x) >= 0.5)
+                   : static_cast<int>(x) - (static_cast<int>(x) - x >= 0.5));
 }
 } // namespace tmpmath
 
-- 
2.43.0


From 3ea2da788f3e9c3bab716019cb4dcc8125a385dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 08/34] fix: the open list is emptied before a new map releases
 its nodes

---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 35c1668..0a1e178 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -129,6 +129,9 @@ public:
     {}
 
     virtual void setMap(const MapT* map) {
+        // the open list may still refer to nodes that are about to be released
+        open.clear();
+
         map_.setMap(map);
         NeighborhoodType::setResolution(map->getResolution());
     }
-- 
2.43.0


From 01ccb32ba0afb6feeda907e495591c3b01788e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 09/34] fix: every search starts with fresh nodes

---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 0a1e178..e27cf10 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -459,6 +459,9 @@ protected:
         goal_candidates = std::priority_queue<GoalCandidate, std::vector<GoalCandidate>, PairDistance>();
         open.clear();
 
+        // forget distances, predecessors and marks of the previous search
+        map_.initMap(false);
+
         start.clear();
         goal.clear();
     }
-- 
2.43.0


From b3948ec90989e3db2acd8fab16b02db60431016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 10/34] fix: cells left of or below a map on the border of a
 chunk find their node

---
 include/cslibs_path_planning/generic/MapManager.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 718b50e..5ac06d7 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -610,14 +610,12 @@ public:
         if((x < -padding) || (y < -padding) || (x >= (int) (w + padding)) || (y >= (int) (h + padding)) || (t < 0) || (t >= theta_slots)) {
             throw OutsideMapException();
         }
-        int cx = (x / (int) chunk_size);
-        if(x < 0) cx -= 1;
-        int cy = (y / (int) chunk_size);
-        if(y < 0) cy -= 1;
-
-        int cxp = cx + padding_chunks;
-        int cyp = cy + padding_chunks;
+        // shift by the padding before dividing: integer division rounds towards zero
+        int cxp = (x + padding) / (int) chunk_size;
+        int cyp = (y + padding) / (int) chunk_size;
 
+        int cx = cxp - padding_chunks;
+        int cy = cyp - padding_chunks;
 
         Chunk* chunk = chunks.at(cyp * chunks_w + cxp);
 
-- 
2.43.0


From c9602ee70e1b781917d5ef35423604798f8492e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 11/34] fix: a node is looked for in the chunk it is stored in

---
 include/cslibs_path_planning/generic/MapManager.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 5ac06d7..42863be 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -632,10 +632,10 @@ public:
         if((x < -padding) || (y < -padding) || (x >= (int) (w + padding)) || (y >= (int) (h + padding)) || (t < 0) || (t >= (int) theta_slots)) {
             throw OutsideMapException();
         }
-        int cx = (x / chunk_size);
-        int cy = (y / chunk_size);
+        int cxp = (x + padding) / (int) chunk_size;
+        int cyp = (y + padding) / (int) chunk_size;
 
-        Chunk* chunk = chunks.at(cy * chunks_w + cx);
+        Chunk* chunk = chunks.at(cyp * chunks_w + cxp);
         return chunk != nullptr;
     }
 
-- 
2.43.0


From ce56363ddf589b76678732b24ba6822e14078c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 12/34] fix: steering nodes take over the heading of their pose

---
 include/cslibs_path_planning/generic/SteeringNode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/SteeringNode.hpp b/include/cslibs_path_planning/generic/SteeringNode.hpp
index f159650..740bdab 100644
--- a/include/cslibs_path_planning/generic/SteeringNode.hpp
+++ b/include/cslibs_path_planning/generic/SteeringNode.hpp
@@ -19,7 +19,7 @@ struct SteeringNode : public Node {
     template <class AnyPoint>
     static void init(SteeringNode<Node> &memory, const AnyPoint& p) {
         Node::init(memory, p);
-        memory.theta = 0.0f;
+        memory.theta = p.theta;
         memory.steering_angle = 0.0f;
 //        memory.forward = true;
         memory.depth = 0;
-- 
2.43.0


From 65709e2a2d49bf85cb5a11af7bbc96089919911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 13/34] fix: positions just left of or below a grid map have no
 node

---
 .../cslibs_path_planning/generic/MapManager.hpp   | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 42863be..7d5c297 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -201,12 +201,7 @@ struct GridMapManager :
 
     template <class PointT>
     NodeType* lookup(const PointT& reference) const {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
-        if((x < 0) || (y < 0) || (x >= w) || (y >= h)) {
-            throw OutsideMapException();
-        }
-        return &data[index(x,y)];
+        return lookup((int) std::floor(reference.x), (int) std::floor(reference.y));
     }
 
     NodeType* lookup(const int x, const int y) const {
@@ -386,14 +381,14 @@ public:
 
     template <class PointT>
     NodeType* lookup(const PointT& reference) {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
+        int y = std::floor(reference.y);
+        int x = std::floor(reference.x);
         unsigned t = angle2index(reference.theta);
         return &data[index(x,y,t, reference.forward)];
     }
     NodeType* lookup(const Pose2d& reference) {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
+        int y = std::floor(reference.y);
+        int x = std::floor(reference.x);
         unsigned t = angle2index(reference.theta);
         return &data[index(x,y,t, true)];
     }
-- 
2.43.0


From 13798c9f5314e2eafa227bf2a6677626198ea330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:25 +0000
Subject: [PATCH 14/34] fix: obstacles of a padded map are not shifted by the
 padding

---
 include/cslibs_path_planning/generic/Heuristics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/Heuristics.hpp b/include/cslibs_path_planning/generic/Heuristics.hpp
index bf17462..a1f138d 100644
--- a/include/cslibs_path_planning/generic/Heuristics.hpp
+++ b/include/cslibs_path_planning/generic/Heuristics.hpp
@@ -339,7 +339,7 @@ struct HeuristicHolonomicObstacles {
 
         for(unsigned int row = 0; row < h; ++row) {
             for(unsigned int col = 0; col < w; ++col) {
-                if(!map->isOccupied(col, row, 0)) {
+                if(!map->isOccupied((int) col - padding, (int) row - padding, 0)) {
                     cost(col, row) = std::numeric_limits<double>::max();
                 } else {
                     cost(col, row) = std::numeric_limits<double>::infinity();
-- 
2.43.0


From d5b63c8602a099b309fee49ba4162cbdc9a7f283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:25 +0000
Subject: [PATCH 15/34] fix: ways along the border of the map are estimated,
 too

---
 .../generic/Heuristics.hpp                    | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/cslibs_path_planning/generic/Heuristics.hpp b/include/cslibs_path_planning/generic/Heuristics.hpp
index a1f138d..d892444 100644
--- a/include/cslibs_path_planning/generic/Heuristics.hpp
+++ b/include/cslibs_path_planning/generic/Heuristics.hpp
@@ -322,6 +322,13 @@ struct HeuristicHolonomicObstacles {
         return costs[(r) * w + (c)];
     }
 
+    static inline double neighborCost(int c, int r) {
+        if(c < 0 || r < 0 || c >= (int) w || r >= (int) h) {
+            return std::numeric_limits<double>::max();
+        }
+        return cost(c, r);
+    }
+
     template <class Map, class NodeType>
     static void setMap(const Map* map, const NodeType& goal) {
         delete [] costs;
@@ -356,16 +363,16 @@ struct HeuristicHolonomicObstacles {
             ++iteration;
             change = false;
 
-            for(unsigned int row = 1; row < h-1; ++row) {
-                for(unsigned int col = 1; col < w-1; ++col) {
+            for(unsigned int row = 0; row < h; ++row) {
+                for(unsigned int col = 0; col < w; ++col) {
                     double& d = cost(col, row);
                     bool free = d != std::numeric_limits<double>::infinity();
 
                     if(free) {
-                        double d1 = cost(col-1, row  ) + HORIZ;
-                        double d2 = cost(col-1, row-1) + DIAG;
-                        double d3 = cost(col,   row-1) + HORIZ;
-                        double d4 = cost(col+1, row-1) + DIAG;
+                        double d1 = neighborCost(col-1, row  ) + HORIZ;
+                        double d2 = neighborCost(col-1, row-1) + DIAG;
+                        double d3 = neighborCost(col,   row-1) + HORIZ;
+                        double d4 = neighborCost(col+1, row-1) + DIAG;
 
                         double dmin = std::min(d1, std::min(d2, std::min(d3, d4)));
 
@@ -377,16 +384,16 @@ struct HeuristicHolonomicObstacles {
                 }
             }
 
-            for(int row = h-2; row >= 1; --row) {
-                for(int col = w-2; col >= 1; --col) {
+            for(int row = (int) h-1; row >= 0; --row) {
+                for(int col = (int) w-1; col >= 0; --col) {
                     double& d = cost(col, row);
                     bool free = d != std::numeric_limits<double>::infinity();
 
                     if(free) {
-                        double d1 = cost(col+1, row  ) + HORIZ;
-                        double d2 = cost(col-1, row+1) + DIAG;
-                        double d3 = cost(col,   row+1) + HORIZ;
-                        double d4 = cost(col+1, row+1) + DIAG;
+                        double d1 = neighborCost(col+1, row  ) + HORIZ;
+                        double d2 = neighborCost(col-1, row+1) + DIAG;
+                        double d3 = neighborCost(col,   row+1) + HORIZ;
+                        double d4 = neighborCost(col+1, row+1) + DIAG;
 
                         double dmin = std::min(d1, std::min(d2, std::min(d3, d4)));
 
-- 
2.43.0


From 20529d3bbfd16e18a0584816c2f624e4e6159af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:06 +0000
Subject: [PATCH 16/34] fix: the goal of a search stays where it was asked for

---
 .../cslibs_path_planning/generic/SearchAlgorithm.hpp   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index e27cf10..e0ea40f 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -26,6 +26,7 @@
 #include <queue>
 #include <chrono>
 #include <functional>
+#include <list>
 
 namespace lib_path
 {
@@ -464,6 +465,7 @@ protected:
 
         start.clear();
         goal.clear();
+        goal_copies.clear();
     }
 
     void initStartPose(const PointT& pose)
@@ -555,10 +557,11 @@ protected:
         for(NodeT* g : goal_poses) {
             try {
                 if(!map_.isOccupied(g)) {
-                    // put start node in open data structure
-                    g->theta = pose.theta;
+                    // keep a copy: the search may move the node of the map within its cell
+                    goal_copies.push_back(*g);
+                    goal_copies.back().theta = pose.theta;
 
-                    goal.insert(g);
+                    goal.insert(&goal_copies.back());
                 }
 
             } catch(const OutsideMapException& e) {
@@ -728,6 +731,7 @@ protected:
     MapManager map_;
     std::set<const NodeT*> start;
     std::set<const NodeT*> goal;
+    std::list<NodeT> goal_copies;
 
     const PointT* heuristic_goal;
 
-- 
2.43.0


From 868790c42c523e63196e53b29d105b8b18db960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:06 +0000
Subject: [PATCH 17/34] fix: lines of a padded map are checked beyond the
 extent of the map

---
 include/cslibs_path_planning/common/Bresenham2d.h   | 7 +++++++
 include/cslibs_path_planning/generic/MapManager.hpp | 6 +++---
 src/common/Bresenham2d.cpp                          | 7 ++++++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/common/Bresenham2d.h b/include/cslibs_path_planning/common/Bresenham2d.h
index 857aefb..f69cb95 100644
--- a/include/cslibs_path_planning/common/Bresenham2d.h
+++ b/include/cslibs_path_planning/common/Bresenham2d.h
@@ -43,6 +43,13 @@ public:
      */
     void setGrid(const GridMap2d *map, int start_x, int start_y, int end_x, int end_y );
 
+    /**
+     * @brief Set start and end without a map, the line may lead anywhere
+     * @param start Start of the line (grid coordinates)
+     * @param end End of the line (grid coordinates)
+     */
+    void setLine(int start_x, int start_y, int end_x, int end_y );
+
     /**
      * @brief Select next cell
      * @return False if we reached the end
diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 7d5c297..88693f7 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -654,7 +654,7 @@ public:
     }
 
     bool isFree(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setLine(std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
@@ -677,7 +677,7 @@ public:
     }
 
     bool isFreeOrUnknown(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setLine(std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
@@ -702,7 +702,7 @@ public:
 
 
     bool isOccupied(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setLine(std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
diff --git a/src/common/Bresenham2d.cpp b/src/common/Bresenham2d.cpp
index 5020449..065308d 100644
--- a/src/common/Bresenham2d.cpp
+++ b/src/common/Bresenham2d.cpp
@@ -49,8 +49,13 @@ void Bresenham2d::setGrid(const GridMap2d *map, int start_x, int start_y, int en
         return;
     }
 
-    // Start/end in cell coordinates
     map_ = map;
+    setLine(start_x, start_y, end_x, end_y);
+}
+
+void Bresenham2d::setLine(int start_x, int start_y, int end_x, int end_y)
+{
+    // Start/end in cell coordinates
     x0_ = start_x; y0_ = start_y;
     x1_ = end_x; y1_ = end_y;
 
-- 
2.43.0


From 21e0be02f5bc0e483dec45f9af8fb3ad16cc8ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:06 +0000
Subject: [PATCH 18/34] fix: the end of a line is checked for obstacles, not
 its start again

---
 include/cslibs_path_planning/generic/MapManager.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 88693f7..85d8adf 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -697,7 +697,7 @@ public:
             }
         }
 
-        return isFreeOrUnknown(sx,sy,theta);
+        return isFreeOrUnknown(ex,ey,theta);
     }
 
 
-- 
2.43.0


From 77b78969ddfa7c8cb651b90c150bf586a6cd9700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 19/34] fix: steering successors without backward moves carry
 no arbitrary command

---
 include/cslibs_path_planning/generic/SteeringNeighborhood.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
index 2400b66..b12630f 100644
--- a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
@@ -299,7 +299,7 @@ struct SteeringNeighborhood :
             for(unsigned step = 0; step <= steer_steps; ++step) {
                 double to_x,to_y, to_theta;
                 bool forward;
-                char custom;
+                char custom = 0;
                 int steering_angle;
                 double cost = advance(reference, algo.search_options, i, step, to_x,to_y,to_theta,forward,steering_angle,custom, map_rotation);
 
-- 
2.43.0


From 4210f9fbbe57c51f228be1cd7bebbdf959c404ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:20 +0000
Subject: [PATCH 20/34] fix: the end of a line left of or below the map is not
 taken for a cell of it

---
 include/cslibs_path_planning/generic/MapManager.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 85d8adf..609cab6 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -673,7 +673,7 @@ public:
             }
         }
 
-        return isFree(ex,ey,theta);
+        return isFree((int) std::floor(ex),(int) std::floor(ey),theta);
     }
 
     bool isFreeOrUnknown(const double sx, const double sy, const double ex, const double ey) const {
@@ -697,7 +697,7 @@ public:
             }
         }
 
-        return isFreeOrUnknown(ex,ey,theta);
+        return isFreeOrUnknown((int) std::floor(ex),(int) std::floor(ey),theta);
     }
 
 
@@ -721,7 +721,7 @@ public:
             }
         }
 
-        return isOccupied(ex,ey,theta);
+        return isOccupied((int) std::floor(ex),(int) std::floor(ey),theta);
     }
 
     bool isFree(int x, int y, double theta) const {
-- 
2.43.0


From 6e2e4dbfee3d9fb7844440fcec13fc16dc76c443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:41 +0000
Subject: [PATCH 21/34] fix: the gain of the direct approach is one, that of
 the others at most two

---
 src/sampling/CentroidRadiusGoalRegion.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sampling/CentroidRadiusGoalRegion.cpp b/src/sampling/CentroidRadiusGoalRegion.cpp
index 4a370d4..068334b 100644
--- a/src/sampling/CentroidRadiusGoalRegion.cpp
+++ b/src/sampling/CentroidRadiusGoalRegion.cpp
@@ -52,13 +52,13 @@ bool CentroidRadiusGoalRegion::getNextGoal (Pose2d &goal, double& gain)
   goal.y = center_.y - radius_ * sin (theta_);
   goal.theta = theta_;
 
-  counter_++;
-  theta_ = MathHelper::AngleClamp (theta_ + theta_step_);
-
   // Direct approach 1.0 -> approach from max angle 2.0
   int32_t diff = (int32_t)(counter_ - (samples_num_/2));
   gain = 1.0 + 2.0*abs (diff) / samples_num_;
 
+  counter_++;
+  theta_ = MathHelper::AngleClamp (theta_ + theta_step_);
+
   return true;
 }
 
-- 
2.43.0


From 3a7c556e5d179dc866dea5627657b7fe8d0b6d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 22/34] fix: parsing a pattern reports success, not failure

---
 src/ReedsShepp/CurveGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index cd8d077..d0cc89e 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -174,7 +174,7 @@ bool CurveGenerator::parse(const std::string& sequence, std::ostream& out)
             out << " ";
         out << "^" << std::endl;
     }
-    return error;
+    return !error;
 }
 
 Curve* CurveGenerator::find_path(const Pose2d& start, const Pose2d& goal, const GridMap2d* map, bool ignore_obstacles)
-- 
2.43.0


From 42e68a277e9c965d2d612257c65dc32c2ac9a23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 23/34] fix: a sub pattern at the beginning of a pattern does
 not access a missing segment

---
 src/ReedsShepp/CurveGenerator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index d0cc89e..4da625c 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -94,6 +94,12 @@ bool CurveGenerator::parse(const std::string& sequence, std::ostream& out)
                 error = true;
                 break;
             case 'b': {
+                if(new_curve.count() == 0) {
+                    out << "RS Generator: error parsing" << std::endl << sequence << ", no circle to belong to" << std::endl;
+                    error = true;
+                    break;
+                }
+
                 const CurveSegment& cs = new_curve.get_segment(new_curve.count() - 1);
 //                CurveSegment* cs = m_sequences[m_count].at(m_sequences[m_count].size()-1);
 
-- 
2.43.0


From 48185efeed9d09e1ae200c0edad732e182bd7049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 24/34] fix: the arc of curves is not limited unless asked for

---
 src/ReedsShepp/CurveGenerator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index 4da625c..024a4d3 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -9,6 +9,7 @@
 #include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
 
 /// SYSTEM
+#include <limits>
 #include <stdio.h>
 #include <typeinfo>
 
@@ -18,6 +19,7 @@ CurveGenerator::CurveGenerator()
     : m_use_map_cost(false), m_min_cell_cost(10),
       m_circle_radius(2.0), m_max_waypoint_distance(1.0),
       m_cost_forwards(1.0), m_cost_backwards(1.0), m_cost_curve(1.0), m_cost_straight(1.0),
+      m_max_curve_arc(std::numeric_limits<double>::max()),
       m_trace(-1)
 {
 }
-- 
2.43.0


From 84ef9ee81ea9192552e0f77efbe524844b2bfbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 25/34] fix: patterns that begin or end with a straight have no
 curve

---
 src/ReedsShepp/Curve.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ReedsShepp/Curve.cpp b/src/ReedsShepp/Curve.cpp
index 67c4a0f..3cc785a 100644
--- a/src/ReedsShepp/Curve.cpp
+++ b/src/ReedsShepp/Curve.cpp
@@ -108,6 +108,11 @@ double Curve::check_if_admissible()
         return NOT_FREE;
     }
 
+    if(!dynamic_cast<CircleSegment*>(m_sequence.front()) || !dynamic_cast<CircleSegment*>(m_sequence.back())) {
+        // only sequences from circle to circle can be handled
+        return NOT_FREE;
+    }
+
     init_segments();
 
     if(!handle_sequence()) {
-- 
2.43.0


From 1e4e35ff7892c91b64ee381c063bbb5e9fa72d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:57 +0000
Subject: [PATCH 26/34] fix: the waypoints of an arc end at its end

---
 src/ReedsShepp/CircleSegment.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index a68aa16..694c979 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -292,8 +292,8 @@ void CircleSegment::compute_arc_length()
     // -> polar coordinates, calulate step in angle
     m_angle_step_size = m_max_distance / m_radius * sign;
 
-    // no of steps
-    m_steps = std::max(1, (int) std::abs(std::floor(m_arc_length / m_angle_step_size)));
+    // no of steps, the last one may be shorter
+    m_steps = std::max(1, (int) std::ceil(m_arc_length / m_angle_step_size));
 }
 
 void CircleSegment::reset_iteration()
@@ -317,7 +317,9 @@ Pose2d CircleSegment::next()
 
     Point2d ray(m_radius, 0);
 
-    float angle = m_angle_start + m_angle_step_size * m_output;
+    // the last step ends exactly at the end of the arc
+    double offset = m_output < m_steps ? m_angle_step_size * m_output : m_arc_length;
+    float angle = m_angle_start + offset;
     Point2d pt = m_center + ray.rotate(angle);
 
     Pose2d ret;
-- 
2.43.0


From 08e23c5eaedbf021a5aaa473bd0aaa9c196753d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:57 +0000
Subject: [PATCH 27/34] fix: the waypoints of a straight are no further apart
 than asked for

---
 src/ReedsShepp/LineSegment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReedsShepp/LineSegment.cpp b/src/ReedsShepp/LineSegment.cpp
index 72f8278..d541118 100644
--- a/src/ReedsShepp/LineSegment.cpp
+++ b/src/ReedsShepp/LineSegment.cpp
@@ -12,6 +12,7 @@
 #include <cslibs_path_planning/common/MapMath.h>
 
 /// SYSTEM
+#include <cmath>
 #include <stdlib.h>
 
 using namespace std;
@@ -100,7 +101,7 @@ void LineSegment::reset_iteration()
 {
     m_iterating = true;
     m_output = 0;
-    m_segments = m_start.distance_to(m_end) / m_max_distance;
+    m_segments = std::ceil(m_start.distance_to(m_end) / m_max_distance);
 }
 
 bool LineSegment::has_next()
-- 
2.43.0


From 2529c262dc872ed300cfc9bed5a927beb4775322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:02 +0000
Subject: [PATCH 28/34] fix: the points of an arc lie around its centre in its
 direction

---
 src/geometry/circle.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/geometry/circle.cpp b/src/geometry/circle.cpp
index d6cdc21..147bc8f 100644
--- a/src/geometry/circle.cpp
+++ b/src/geometry/circle.cpp
@@ -185,10 +185,13 @@ void Circle::toPoints(double resolution, std::vector<Vector2d> &points)
     int steps = abs(arc_length/resolution);
     double dphi = arc_angle/steps;
     points.resize(steps);
+    // a right arc runs in mathematically negative direction
+    if (arc_direction_==path_geom::ARC_RIGHT) {
+        dphi = -1.0*dphi;
+    }
     double phi = start_angle_;
     for (int i=0;i<steps;++i) {
-        points[i].x() = radius_*cos(phi);
-        points[i].y() = radius_*sin(phi);
+        points[i] = center_+ radius_*Vector2d(cos(phi),sin(phi));
         phi+=dphi;
 
     }
-- 
2.43.0


From e350e7b69e0231dc4a1d2fd997633352254e19b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:02 +0000
Subject: [PATCH 29/34] fix: the last pose of a line is filled in

---
 src/geometry/line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/line.cpp b/src/geometry/line.cpp
index 4f4ccb0..29f2dac 100644
--- a/src/geometry/line.cpp
+++ b/src/geometry/line.cpp
@@ -76,7 +76,7 @@ void Line::toPoses(double resolution, PathPoseVec &poses, int move_direction, bo
         poses.resize(n);
         p=p+step;
     }
-    for (int i=0;i<n;++i) {
+    for (size_t i=0;i<poses.size();++i) {
         poses[i].pos_=p;
         poses[i].theta_ = theta;
         p+=step;
-- 
2.43.0


From b1be22736030ebe65872e9005dabd202624b6b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:37 +0000
Subject: [PATCH 30/34] fix: circles around one centre kept the points of an
 earlier intersection

---
 src/geometry/intersector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/intersector.cpp b/src/geometry/intersector.cpp
index b1013fe..d41fee3 100644
--- a/src/geometry/intersector.cpp
+++ b/src/geometry/intersector.cpp
@@ -45,6 +45,7 @@ void Intersector::intersect(const Circle &c1, const Circle &c2, std::vector<Eige
     //Calculate distance between centres of circle
     Vector2d c1c2 = c2.center()-c1.center();
     double d = (c1c2).norm();
+    res_points.clear();
     if (d<tol) {
         return;
     }
@@ -52,7 +53,6 @@ void Intersector::intersect(const Circle &c1, const Circle &c2, std::vector<Eige
     double r2 = c2.radius();
     double m = r1+r2;
     double n = fabs(r1-r2);
-    res_points.clear();
     //No solns
     if ( d > m+tol )
         return;
-- 
2.43.0


From de2a7e2a2a19f6ec3289195ac23a0e18411d73f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:37 +0000
Subject: [PATCH 31/34] fix: inner tangent arcs were lost when they passed the
 angle zero

---
 src/geometry/tangentor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geometry/tangentor.cpp b/src/geometry/tangentor.cpp
index 572fccf..6b9157f 100644
--- a/src/geometry/tangentor.cpp
+++ b/src/geometry/tangentor.cpp
@@ -310,6 +310,8 @@ void Tangentor::tangentInnerArcs(const Circle &circle1, const Circle &circle2, d
         //std::cout << "intersection points circle 1 to arc:"<<ipoints.size() << std::endl;
         if (ipoints.size()==1) {
             tangent_circle.setStartAngle(ipoints[0]);
+            // the end is not known yet, it may be anywhere on the circle
+            tangent_circle.setArcAngle(2*M_PI);
             Intersector::intersectArcs(tangent_circle, circle2, ipoints,tol);
           //  std::cout << "intersection points arc to circle 2 :"<<ipoints.size() << std::endl;
             if (ipoints.size()==1) {
-- 
2.43.0


From 253d39cfe8356663ff0a6fe2873bf559143201b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:37 +0000
Subject: [PATCH 32/34] fix: no tangent path was ever found from the small to
 the large circle

---
 src/geometry/tangentor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/geometry/tangentor.cpp b/src/geometry/tangentor.cpp
index 6b9157f..6fb4e3e 100644
--- a/src/geometry/tangentor.cpp
+++ b/src/geometry/tangentor.cpp
@@ -243,7 +243,10 @@ void Tangentor::tangentPath(const Circle &small, const Circle &large, double rad
         Intersector::intersectArcs(tcircle, large, ipoints_large,tol);
         if (ipoints_small.size()==1 && ipoints_large.size()==1) {
             std::cout << "touches both small and large" << std::endl;
-            if (!from_small) {
+            if (from_small) {
+                tcircle.selectStartPoint(ipoints_small.front());
+                tcircle.selectEndPoint(ipoints_large.front());
+            } else {
                 tcircle.selectStartPoint(ipoints_large.front());
                 tcircle.selectEndPoint(ipoints_small.front());
             }
-- 
2.43.0


From f87a11d313e76e5c07b2f7c8306ab6d4feaa451c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:37 +0000
Subject: [PATCH 33/34] fix: poses turned the other way by any angle counted as
 identical

---
 include/cslibs_path_planning/geometry/shape.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/geometry/shape.h b/include/cslibs_path_planning/geometry/shape.h
index e35a06a..856b1d7 100644
--- a/include/cslibs_path_planning/geometry/shape.h
+++ b/include/cslibs_path_planning/geometry/shape.h
@@ -88,7 +88,7 @@ public:
     bool isIdentical(const PathPose& other, double dist_tol=path_geom::DIST_EPS,
                      double angle_tol=path_geom::ANGLE_EPS) {
         return ((pos_-other.pos_).norm()<dist_tol &&
-              MathHelper::AngleDelta( theta_, other.theta_)<angle_tol);
+              fabs(MathHelper::AngleDelta( theta_, other.theta_))<angle_tol);
     }
 
     bool isIdentical(const Eigen::Vector2d& other, double dist_tol=path_geom::DIST_EPS) {
-- 
2.43.0


From 25cc9918c11bdd971a531c169831d9db0047bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:23 +0000
Subject: [PATCH 34/34] fix: an arc to the left that ends at the angle zero
 contains its end

---
 src/geometry/circle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/circle.cpp b/src/geometry/circle.cpp
index 147bc8f..5623dd2 100644
--- a/src/geometry/circle.cpp
+++ b/src/geometry/circle.cpp
@@ -289,7 +289,7 @@ bool Circle::isPointOnArc(const Vector2d &p, double tol) const
 
     if (arc_direction_==path_geom::ARC_LEFT) {
         double end_angle = start_angle_+arc_angle_;
-        if (end_angle<=2*M_PI) {
+        if (end_angle<2*M_PI) {
             if (p_angle>=start_angle_ && p_angle<=end_angle) {
                 return true;
             }
-- 
2.43.0

