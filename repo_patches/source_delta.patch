From a5eaad3c939cdbe21c28d0aa60f5156f1717c668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:00 +0000
Subject: [PATCH 01/32] fix: get_lower_index/get_upper_index: no match gave an
 undefined index and interpolate read it

---
 src/api/util.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api/util.cpp b/src/api/util.cpp
index 0ca5020..7330723 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -337,7 +337,7 @@ vec gridpp::calc_even_quantiles(const vec& values, int num) {
 
 }
 int gridpp::get_lower_index(float iX, const vec& iValues) {
-    int index = gridpp::MV;
+    int index = -1;
     for(int i = 0; i < (int) iValues.size(); i++) {
         float currValue = iValues[i];
         if(gridpp::is_valid(currValue)) {
@@ -356,7 +356,7 @@ int gridpp::get_lower_index(float iX, const vec& iValues) {
     return index;
 }
 int gridpp::get_upper_index(float iX, const vec& iValues) {
-    int index = gridpp::MV;
+    int index = -1;
     for(int i = iValues.size()-1; i >= 0; i--) {
         float currValue = iValues[i];
         if(gridpp::is_valid(currValue)) {
@@ -390,6 +390,8 @@ float gridpp::interpolate(float x, const vec& iX, const vec& iY) {
 
     int i0   = get_lower_index(x, iX);
     int i1   = get_upper_index(x, iX);
+    if(i0 < 0 || i1 < 0)
+        return gridpp::MV;
     float x0 = iX[i0];
     float x1 = iX[i1];
     float y0 = iY[i0];
-- 
2.43.0


From 53bbef9cbc3b4f9e08e985a1bb590b8136e4c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:39 +0000
Subject: [PATCH 02/32] fix: sea_level_pressure: an invalid element in the
 vector version ended the process (exception inside a parallel loop)

---
 src/api/pressure.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/api/pressure.cpp b/src/api/pressure.cpp
index a48e1d8..4711525 100644
--- a/src/api/pressure.cpp
+++ b/src/api/pressure.cpp
@@ -85,7 +85,6 @@ vec gridpp::sea_level_pressure(const vec& ps, const vec& altitude, const vec&  t
         throw std::invalid_argument("slp: Input arguments must be of the same size");
 
     vec values(N);
-    #pragma omp parallel for
     for(int i = 0; i < N; i++) {
         values[i] = gridpp::sea_level_pressure(ps[i], altitude[i], temperature[i], rh[i], dewpoint[i]);
     }
-- 
2.43.0


From 62f05dba3f5f70d6c01159d82c61c0e1851c95b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 03/32] fix: KDTree rejects latitudes and longitudes of
 different length instead of reading past the end

---
 src/api/kdtree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/kdtree.cpp b/src/api/kdtree.cpp
index fe287f8..7bb397e 100644
--- a/src/api/kdtree.cpp
+++ b/src/api/kdtree.cpp
@@ -4,6 +4,8 @@
 using namespace gridpp;
 
 gridpp::KDTree::KDTree(vec lats, vec lons, CoordinateType type) {
+    if(lats.size() != lons.size())
+        throw std::invalid_argument("KDTree: lats and lons must be of the same size");
     mLats = lats;
     mLons = lons;
     mType = type;
-- 
2.43.0


From 45df0750e7208c69d29cef7e7f21f630aaac36e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 04/32] fix: nearest neighbour in an empty KDTree gives -1 like
 Points instead of reading an empty list

---
 src/api/kdtree.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/kdtree.cpp b/src/api/kdtree.cpp
index 7bb397e..a453ecb 100644
--- a/src/api/kdtree.cpp
+++ b/src/api/kdtree.cpp
@@ -104,7 +104,10 @@ ivec gridpp::KDTree::get_closest_neighbours(float lat, float lon, int num, bool
     return ret;
 }
 int gridpp::KDTree::get_nearest_neighbour(float lat, float lon, bool include_match) const {
-    return get_closest_neighbours(lat, lon, 1, include_match)[0];
+    ivec indices = get_closest_neighbours(lat, lon, 1, include_match);
+    if(indices.size() == 0)
+        return -1;
+    return indices[0];
 }
 float gridpp::KDTree::calc_distance(float lat1, float lon1, float lat2, float lon2, CoordinateType type) {
     if(type == gridpp::Cartesian) {
-- 
2.43.0


From cb20ba964b3d40b95774e1581b83acd63df9f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 05/32] fix: distance between points that almost coincide is
 not NaN

---
 src/api/kdtree.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/api/kdtree.cpp b/src/api/kdtree.cpp
index a453ecb..0ec7f75 100644
--- a/src/api/kdtree.cpp
+++ b/src/api/kdtree.cpp
@@ -132,6 +132,11 @@ float gridpp::KDTree::calc_distance(float lat1, float lon1, float lat2, float lo
         double ratio = cos(lat1r)*cos(lon1r)*cos(lat2r)*cos(lon2r)
                        + cos(lat1r)*sin(lon1r)*cos(lat2r)*sin(lon2r)
                        + sin(lat1r)*sin(lat2r);
+        // Rounding can bring the ratio outside the domain of acos for points that almost coincide
+        if(ratio > 1)
+            ratio = 1;
+        else if(ratio < -1)
+            ratio = -1;
         double dist = acos(ratio)*radiusEarth;
         return (float) dist;
     }
-- 
2.43.0


From d41b288c006d1628fa8033701ccfd18423a52837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 06/32] fix: copying Points keeps the coordinate type (the
 uninitialised type of the new object was used)

---
 src/api/points.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index 711018a..4925a7c 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -120,7 +120,7 @@ gridpp::Points::Points(const gridpp::Points& other) {
     mLons = other.mLons;
     mElevs = other.mElevs;
     mLafs = other.mLafs;
-    mTree = KDTree(mLats, mLons, mTree.get_coordinate_type());
+    mTree = other.mTree;
 }
 CoordinateType gridpp::Points::get_coordinate_type() const {
     return mTree.get_coordinate_type();
-- 
2.43.0


From 0a85aba09798baaa1c1040b957b82865a324db88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 07/32] fix: subsets of Points keep the coordinate type

---
 src/api/points.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index 4925a7c..c15fa1d 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -104,7 +104,7 @@ gridpp::Points gridpp::Points::get_in_domain(const gridpp::Grid& grid) const {
         elevs.push_back(mElevs[indices[s]]);
         lafs.push_back(mLafs[indices[s]]);
     }
-    const gridpp::Points new_points(lats, lons, elevs, lafs);
+    const gridpp::Points new_points(lats, lons, elevs, lafs, get_coordinate_type());
     return new_points;
 }
 gridpp::Points& gridpp::Points::operator=(gridpp::Points other) {
@@ -146,5 +146,5 @@ gridpp::Points gridpp::Points::subset(const ivec& indices) const {
         elevs[i] = mElevs[index];
         lafs[i] = mLafs[index];
     }
-    return gridpp::Points(lats, lons, elevs, lafs);
+    return gridpp::Points(lats, lons, elevs, lafs, get_coordinate_type());
 }
-- 
2.43.0


From 3f9fb3dcce3660fcb7a206bffae04c79582e3554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 08/32] fix: Points checks the size of elevs and lafs next to a
 tree

---
 src/api/points.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index c15fa1d..cb4da72 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -30,6 +30,8 @@ gridpp::Points::Points(vec lats, vec lons, vec elevs, vec lafs, CoordinateType t
     }
 }
 gridpp::Points::Points(KDTree tree, vec elevs, vec lafs) {
+    if(elevs.size() != tree.size() || lafs.size() != tree.size())
+        throw std::invalid_argument("'elevs' and 'lafs' must be the same size as the tree");
     mElevs = elevs;
     mLafs = lafs;
     mTree = tree;
@@ -136,7 +138,7 @@ gridpp::Points gridpp::Points::subset(const ivec& indices) const {
     vec lafs(N);
     for(int i = 0; i < N; i++) {
         int index = indices[i];
-        if(index >= mLats.size()) {
+        if(index < 0 || index >= mLats.size()) {
             std::stringstream ss;
             ss << "Index " << index << " exceeds number of points " << mLats.size();
             throw std::invalid_argument(ss.str());
-- 
2.43.0


From 0def47b56df97d8a332ef02a65edd952d1ef6ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 09/32] fix: Cartesian Point has the same x and y as the points
 of Grid, Points and KDTree

---
 src/api/point.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/point.cpp b/src/api/point.cpp
index c632690..35bbd0b 100644
--- a/src/api/point.cpp
+++ b/src/api/point.cpp
@@ -16,8 +16,8 @@ gridpp::Point::Point(float lat, float lon, float elev, float laf, CoordinateType
         gridpp::convert_coordinates(lat, lon, type, this->x, this->y, this->z);
     }
     else {
-        this->x = lat;
-        this->y = lon;
+        this->x = lon;
+        this->y = lat;
         this->z = 0;
     }
 }
-- 
2.43.0


From 3e0b0e93f242be517b9715441f0f93244035a871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 10/32] fix: Grid rejects latitudes and longitudes of different
 shape instead of reading past the end, and an empty grid keeps its coordinate
 type

---
 src/api/grid.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/api/grid.cpp b/src/api/grid.cpp
index 58b0185..76e128b 100644
--- a/src/api/grid.cpp
+++ b/src/api/grid.cpp
@@ -3,6 +3,18 @@
 
 using namespace gridpp;
 
+namespace {
+    bool has_shape(const vec2& array, int Y, int X) {
+        if(array.size() != Y)
+            return false;
+        for(int y = 0; y < Y; y++) {
+            if(array[y].size() != X)
+                return false;
+        }
+        return true;
+    }
+}
+
 gridpp::Grid::Grid() {
     vec lats;
     vec lons;
@@ -11,12 +23,14 @@ gridpp::Grid::Grid() {
 }
 gridpp::Grid::Grid(vec2 lats, vec2 lons, vec2 elevs, vec2 lafs, CoordinateType type) {
     if(lats.size() == 0) {
-        vec lats;
-        vec lons;
-        mTree = KDTree(lats, lons);
+        if(lons.size() != 0)
+            throw std::invalid_argument("Grid: lats and lons must have the same shape");
+        mTree = KDTree(type);
         mX = 0;
         return;
     }
+    if(!has_shape(lats, lats.size(), lats[0].size()) || !has_shape(lons, lats.size(), lats[0].size()))
+        throw std::invalid_argument("Grid: lats and lons must have the same shape");
     mLats = lats;
     mLons = lons;
     mElevs = elevs;
@@ -38,14 +52,14 @@ gridpp::Grid::Grid(vec2 lats, vec2 lons, vec2 elevs, vec2 lafs, CoordinateType t
     KDTree test = KDTree(lats0, lons0, type);
     mTree = test;
 
-    if(mElevs.size() != lats.size() || mElevs[0].size() != lats[0].size()) {
+    if(!has_shape(mElevs, lats.size(), lats[0].size())) {
         mElevs.clear();
         mElevs.resize(lats.size());
         for(int i = 0; i < lats.size(); i++) {
             mElevs[i].resize(lats[0].size(), gridpp::MV);
         }
     }
-    if(mLafs.size() != lats.size() || mLafs[0].size() != lats[0].size()) {
+    if(!has_shape(mLafs, lats.size(), lats[0].size())) {
         mLafs.clear();
         mLafs.resize(lats.size());
         for(int i = 0; i < lats.size(); i++) {
-- 
2.43.0


From 88c1b3d0405cbb0ddec81150cebcdf2b46dd4894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 11/32] fix: get_box works on Cartesian grids (the corners were
 checked as geodetic coordinates)

---
 src/api/grid.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/api/grid.cpp b/src/api/grid.cpp
index 76e128b..9a74a1f 100644
--- a/src/api/grid.cpp
+++ b/src/api/grid.cpp
@@ -208,11 +208,11 @@ bool gridpp::Grid::get_box(float lat, float lon, int& Y1, int& X1, int& Y2, int&
         else if(X == nX - 1 && xdir == 1)
             continue;
         // std::cout << "Iteration " << it << " " << ydir << " " << xdir << std::endl;
-        Point A(mLats[Y][X], mLons[Y][X]);
-        Point B(mLats[Y + ydir][X], mLons[Y + ydir][X]);
-        Point C(mLats[Y + ydir][X + xdir], mLons[Y + ydir][X + xdir]);
-        Point D(mLats[Y][X + xdir], mLons[Y][X + xdir]);
-        Point curr(lat, lon);
+        Point A(mLats[Y][X], mLons[Y][X], gridpp::MV, gridpp::MV, get_coordinate_type());
+        Point B(mLats[Y + ydir][X], mLons[Y + ydir][X], gridpp::MV, gridpp::MV, get_coordinate_type());
+        Point C(mLats[Y + ydir][X + xdir], mLons[Y + ydir][X + xdir], gridpp::MV, gridpp::MV, get_coordinate_type());
+        Point D(mLats[Y][X + xdir], mLons[Y][X + xdir], gridpp::MV, gridpp::MV, get_coordinate_type());
+        Point curr(lat, lon, gridpp::MV, gridpp::MV, get_coordinate_type());
         // std::cout << A.lat << "," << B.lat << "," << C.lat << "," << D.lat << "," << curr.lat << std::endl;
         // std::cout << A.lon << "," << B.lon << "," << C.lon << "," << D.lon << "," << curr.lon << std::endl;
         bool inrectangle = point_in_rectangle(A, B, C, D, curr);
-- 
2.43.0


From 31eedbc6cc6f03ea0eb8de4881527b1f2151e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 12/32] fix: an empty array is not compatible with a grid that
 has points (nearest and bilinear read past its end)

---
 src/api/util.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api/util.cpp b/src/api/util.cpp
index 7330723..8748517 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -427,10 +427,12 @@ vec gridpp::interpolate(const vec& x, const vec& iX, const vec& iY) {
     return y;
 }
 bool gridpp::compatible_size(const Grid& grid, const vec2& v) {
-    return v.size() == 0 || (grid.size()[0] == v.size() && grid.size()[1] == v[0].size());
+    if(v.size() == 0)
+        return grid.size()[0] == 0;
+    return grid.size()[0] == v.size() && grid.size()[1] == v[0].size();
 }
 bool gridpp::compatible_size(const Grid& grid, const vec3& v) {
-    return v.size() == 0 || (v[0].size() == 0 || (grid.size()[0] == v[0].size() && grid.size()[1] == v[0][0].size()));
+    return v.size() == 0 || gridpp::compatible_size(grid, v[0]);
 }
 bool gridpp::compatible_size(const Points& points, const vec2& v) {
     return v.size() == 0 || points.size() == v[0].size();
-- 
2.43.0


From b60ab56e7d82dea97634d1755492acc2ede9ee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 13/32] fix: nearest to an empty grid gives an empty array
 instead of reading its first row

---
 src/api/nearest.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/api/nearest.cpp b/src/api/nearest.cpp
index 77e1bea..66cdaf0 100644
--- a/src/api/nearest.cpp
+++ b/src/api/nearest.cpp
@@ -11,7 +11,7 @@ vec2 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
     vec2 iOutputLons = ogrid.get_lons();
 
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
@@ -37,7 +37,7 @@ vec3 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
 
     int nTime = ivalues.size();
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 ;
     vec3 output = gridpp::init_vec3(nTime, nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
@@ -77,7 +77,7 @@ vec2 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec& ivalue
     vec2 iOutputLons = ogrid.get_lons();
 
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
     if(ipoints.size() == 0)
@@ -103,7 +103,7 @@ vec3 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec2& ivalu
 
     int nTime = ivalues.size();
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec3 output = gridpp::init_vec3(nTime, nLat, nLon, gridpp::MV);
     if(ipoints.size() == 0)
-- 
2.43.0


From 3b0d927cfb87122b851845e0b2624b4281dda438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 14/32] fix: BoxCox::backward with a negative threshold (every
 value was clamped to the end of the range)

---
 src/api/transform.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/api/transform.cpp b/src/api/transform.cpp
index d455d2e..735a8a1 100644
--- a/src/api/transform.cpp
+++ b/src/api/transform.cpp
@@ -114,10 +114,10 @@ float gridpp::BoxCox::backward(float value) const {
    if(mThreshold == 0)
       rValue = exp(value);
    else {
-      if(value < -1.0 / mThreshold) {
-         value = -1.0 / mThreshold;
-      }
-      rValue = pow(1 + mThreshold * value, 1 / mThreshold);
+      float base = 1 + mThreshold * value;
+      if(base < 0)
+         base = 0;
+      rValue = pow(base, 1 / mThreshold);
    }
    if(rValue <= 0)
       rValue = 0;
-- 
2.43.0


From 6a226644c6a7488397d165cf5794447f2f998a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 15/32] fix: gamma_inv checks the sizes of its arguments and
 level 1 does not end the process

---
 src/api/distribution.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/api/distribution.cpp b/src/api/distribution.cpp
index 4c3ce93..a33cc5b 100644
--- a/src/api/distribution.cpp
+++ b/src/api/distribution.cpp
@@ -4,6 +4,8 @@ using namespace gridpp;
 
 vec gridpp::gamma_inv(const vec& levels, const vec& shape, const vec& scale) {
     int N = shape.size();
+    if(levels.size() != N || scale.size() != N)
+        throw std::invalid_argument("Levels, shape, and scale must be the same size");
     for(int i = 0; i < N; i++) {
         if(levels[i] < 0 || levels[i] > 1 || !gridpp::is_valid(levels[i])) {
             std::stringstream ss;
@@ -25,6 +27,11 @@ vec gridpp::gamma_inv(const vec& levels, const vec& shape, const vec& scale) {
 
     #pragma omp parallel for
     for(int i = 0; i < N; i++) {
+        if(levels[i] == 1) {
+            // The distribution has no upper bound (boost raises an exception here, which must not leave the parallel region)
+            results[i] = std::numeric_limits<float>::infinity();
+            continue;
+        }
         boost::math::gamma_distribution<> m_gamma_dist(shape[i], scale[i]);
         float value = boost::math::quantile(m_gamma_dist, levels[i]);
         results[i] = value;
-- 
2.43.0


From 1f46021ae1757f536fb81ac6537f8b82a91fc167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 16/32] fix: fill_missing of an empty array reads past its end

---
 src/api/fill.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/fill.cpp b/src/api/fill.cpp
index 4b9ab1c..ea92552 100644
--- a/src/api/fill.cpp
+++ b/src/api/fill.cpp
@@ -42,7 +42,7 @@ vec2 gridpp::fill(const Grid& igrid, const vec2& input, const Points& points, co
 
 vec2 gridpp::fill_missing(const vec2& values) {
     int Y = values.size();
-    int X = values[0].size();
+    int X = Y > 0 ? values[0].size() : 0;
     vec2 results_y(Y);
     vec2 results_x(Y);
     int count_y = 0;
-- 
2.43.0


From eae22c4d2019b282c2841aa0c782c5c1c1039af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 17/32] fix: doping_square on an empty grid reads the nearest
 grid point that does not exist

---
 src/api/doping.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/doping.cpp b/src/api/doping.cpp
index ef7b4ea..5a912d5 100644
--- a/src/api/doping.cpp
+++ b/src/api/doping.cpp
@@ -28,6 +28,8 @@ vec2 gridpp::doping_square(const Grid& igrid, const vec2& background, const Poin
     }
 
     vec2 output = background;
+    if(Y == 0 || X == 0)
+        return output;
     bool check_elev = gridpp::is_valid(max_elev_diff);
     for(int i = 0; i < N; i++) {
         ivec index = igrid.get_nearest_neighbour(lats[i], lons[i]);
-- 
2.43.0


From 5b968456c2c3f4f2cd583a060da692bb987f1b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:08 +0000
Subject: [PATCH 18/32] fix: gridding and gridding_nearest to points share the
 loop over points between the threads (every thread wrote every output)

---
 src/api/gridding.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/gridding.cpp b/src/api/gridding.cpp
index e7692c1..79d23c4 100644
--- a/src/api/gridding.cpp
+++ b/src/api/gridding.cpp
@@ -46,7 +46,7 @@ vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& va
     vec lons = opoints.get_lons();
     vec output(N, gridpp::MV);
 
-    #pragma omp parallel
+    #pragma omp parallel for
     for(int n = 0; n < N; n++) {
         ivec I = ipoints.get_neighbours(lats[n], lons[n], radius);
         if(min_num <= 0 || I.size() >= min_num) {
@@ -120,7 +120,7 @@ vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const
 
     vec output(N, gridpp::MV);
 
-    #pragma omp parallel
+    #pragma omp parallel for
     for(int n = 0; n < N; n++) {
         if(temp[n].size() > 0) {
             if(min_num <= 0 || temp[n].size() >= min_num)
-- 
2.43.0


From 88e67b87a3fbd37a411a17b9d4d8a40932c9abb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:08 +0000
Subject: [PATCH 19/32] fix: gridding_nearest to an empty grid or point list
 reads the nearest point that does not exist

---
 src/api/gridding.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/gridding.cpp b/src/api/gridding.cpp
index 79d23c4..ecb29e6 100644
--- a/src/api/gridding.cpp
+++ b/src/api/gridding.cpp
@@ -70,6 +70,8 @@ vec2 gridpp::gridding_nearest(const Grid& grid, const Points& ipoints, const vec
     int X = grid.size()[1];
     vec lats = ipoints.get_lats();
     vec lons = ipoints.get_lons();
+    if(Y == 0 || X == 0)
+        return gridpp::init_vec2(Y, X, gridpp::MV);
     vec3 temp(Y);
     for(int y = 0; y < Y; y++) {
         temp[y].resize(X);
@@ -107,6 +109,8 @@ vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const
     int N = opoints.size();
     vec lats = ipoints.get_lats();
     vec lons = ipoints.get_lons();
+    if(N == 0)
+        return vec();
     vec2 temp(N);
 
     int S = values.size();
-- 
2.43.0


From 1ada9abd0f6b4188f2cb2d7ea3569f5f30b040ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:21 +0000
Subject: [PATCH 20/32] fix: neighbourhood_quantile_fast shares the current
 quantile between threads (cells could use the quantile of another cell)

---
 src/api/neighbourhood.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 4d61131..75a1118 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -362,11 +362,10 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec2& input, const vec2& quantile
     if(is_fixed_quantile)
         fixed_quantile = quantile[0][0];
 
-    float curr_quantile = gridpp::MV;
-
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
+            float curr_quantile = gridpp::MV;
             if(is_fixed_quantile)
                 curr_quantile = fixed_quantile;
             else
@@ -478,11 +477,10 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec3& input, const vec2& quantile
     if(is_fixed_quantile)
         fixed_quantile = quantile[0][0];
 
-    float curr_quantile = gridpp::MV;
-
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
+            float curr_quantile = gridpp::MV;
             if(is_fixed_quantile)
                 curr_quantile = fixed_quantile;
             else
-- 
2.43.0


From 008625db5886d11d3c7365301de40f60341ee3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:21 +0000
Subject: [PATCH 21/32] fix: data race between threads on an unused counter in
 the neighbourhood functions

---
 src/api/neighbourhood.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 75a1118..845d845 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -35,7 +35,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
 
     double s_time = gridpp::clock();
     bool fast = true;
-    int count_stat = 0;
     int nY = input.size();
     int nX = input[0].size();
     vec2 output(nY);
@@ -174,7 +173,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
                         }
                     }
                     values[i][j] = gridpp::calc_statistic(neighbourhood, statistic);
-                    count_stat += neighbourhood.size();
                 }
             }
             else {
@@ -188,7 +186,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
                         count++;
                     }
                     slivers[j] = gridpp::calc_statistic(sliver, statistic);
-                    count_stat += sliver.size();
                 }
                 for(int j = 0; j < nX; j++) {
                     vec curr;
@@ -197,7 +194,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
                         curr.push_back(slivers[jj]);
                     }
                     values[i][j] = gridpp::calc_statistic(curr, statistic);
-                    count_stat += curr.size();
                 }
             }
         }
@@ -237,7 +233,7 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
         output = gridpp::neighbourhood_brute_force(input, halfwidth, statistic);
     }
     double e_time = gridpp::clock() ;
-    // std::cout << count_stat << " " << e_time - s_time << " s" << std::endl;
+    // std::cout << e_time - s_time << " s" << std::endl;
     return output;
 }
 vec gridpp::get_neighbourhood_thresholds(const vec2& input, int num_thresholds) {
@@ -558,8 +554,7 @@ namespace {
         if(input.size() == 0 || input[0].size() == 0)
             return vec2();
 
-        int count_stat = 0;
-        int nY = input.size();
+            int nY = input.size();
         if(nY == 0)
             return vec2(0);
         int nX = input[0].size();
@@ -594,7 +589,6 @@ namespace {
                     output[y][x] = gridpp::calc_quantile(neighbourhood, quantile);
                 else
                     output[y][x] = gridpp::calc_statistic(neighbourhood, statistic);
-                count_stat += neighbourhood.size();
             }
         }
         return output;
@@ -605,8 +599,7 @@ namespace {
         if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
             return vec2();
 
-        int count_stat = 0;
-        int nY = input.size();
+            int nY = input.size();
         if(nY == 0)
             return vec2();
         int nX = input[0].size();
@@ -645,7 +638,6 @@ namespace {
                     output[i][j] = gridpp::calc_quantile(neighbourhood, quantile);
                 else
                     output[i][j] = gridpp::calc_statistic(neighbourhood, statistic);
-                count_stat += neighbourhood.size();
             }
         }
         return output;
-- 
2.43.0


From c727374dff158425f834d4bcc022415f1d89fb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:21 +0000
Subject: [PATCH 22/32] fix: neighbourhood of an empty ensemble reads past its
 end

---
 src/api/neighbourhood.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 845d845..aad7c5c 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -10,6 +10,8 @@ namespace {
     vec3 vec2_to_vec3(const vec2& input);
 }
 vec2 gridpp::neighbourhood(const vec3& input, int halfwidth, gridpp::Statistic statistic) {
+    if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
+        return vec2();
     vec2 flat(input.size());
     int Y = input.size();
     int X = input[0].size();
-- 
2.43.0


From 50fbd6748654db0c6143bb25cfc9aa9b9be54821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:21 +0000
Subject: [PATCH 23/32] fix: an invalid quantile or statistic ends the process
 in the neighbourhood functions (thrown inside a parallel loop)

---
 src/api/neighbourhood.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index aad7c5c..5efaa1e 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -553,6 +553,10 @@ namespace {
     vec2 neighbourhood_brute_force(const vec2& input, int halfwidth, gridpp::Statistic statistic, float quantile) {
         if(halfwidth < 0)
             throw std::invalid_argument("Half width must be > 0");
+        if(statistic == gridpp::Unknown)
+            throw std::invalid_argument("Unknown statistic");
+        if(statistic == gridpp::Quantile && (quantile < 0 || quantile > 1))
+            throw std::invalid_argument("Quantile must be >= 0 and <= 1");
         if(input.size() == 0 || input[0].size() == 0)
             return vec2();
 
@@ -598,6 +602,10 @@ namespace {
     vec2 neighbourhood_brute_force(const vec3& input, int halfwidth, gridpp::Statistic statistic, float quantile) {
         if(halfwidth < 0)
             throw std::invalid_argument("Half width must be > 0");
+        if(statistic == gridpp::Unknown)
+            throw std::invalid_argument("Unknown statistic");
+        if(statistic == gridpp::Quantile && (quantile < 0 || quantile > 1))
+            throw std::invalid_argument("Quantile must be >= 0 and <= 1");
         if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
             return vec2();
 
-- 
2.43.0


From 7d3f0632f8628011b3715e31a4b60bfa0667c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:21 +0000
Subject: [PATCH 24/32] fix: neighbourhood standard deviation of nearly
 constant values is missing (rounding makes the variance negative)

---
 src/api/neighbourhood.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 5efaa1e..0837da1 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -219,14 +219,22 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
         if(statistic == gridpp::Std) {
             for(int y = 0; y < nY; y++) {
                 for(int x = 0; x < nX; x++) {
-                    output[y][x] = sqrt(mean2[y][x] - mean[y][x] * mean[y][x]);
+                    float variance = mean2[y][x] - mean[y][x] * mean[y][x];
+                    // Rounding can make the difference negative
+                    if(variance < 0)
+                        variance = 0;
+                    output[y][x] = sqrt(variance);
                 }
             }
         }
         else {
             for(int y = 0; y < nY; y++) {
                 for(int x = 0; x < nX; x++) {
-                    output[y][x] = mean2[y][x] - mean[y][x] * mean[y][x];
+                    float variance = mean2[y][x] - mean[y][x] * mean[y][x];
+                    // Rounding can make the difference negative
+                    if(variance < 0)
+                        variance = 0;
+                    output[y][x] = variance;
                 }
             }
         }
-- 
2.43.0


From 60f5ad9ef02f41f3d9681586af94a133005a3062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:08 +0000
Subject: [PATCH 25/32] fix: bilinear interpolation to an empty grid reads past
 its end

---
 src/api/bilinear.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/bilinear.cpp b/src/api/bilinear.cpp
index 6dc9202..77a9ca0 100644
--- a/src/api/bilinear.cpp
+++ b/src/api/bilinear.cpp
@@ -33,7 +33,7 @@ vec2 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
     vec2 iInputLons = igrid.get_lons();
 
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
@@ -62,7 +62,7 @@ vec3 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
 
     int nTime = ivalues.size();
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec3 output = gridpp::init_vec3(nTime, nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
-- 
2.43.0


From ab03a6e20bb36baf68f2c35452ec5447870aee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:02 +0000
Subject: [PATCH 26/32] fix: full_gradient from an empty grid reads past the
 end of the values

---
 src/api/gradient.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api/gradient.cpp b/src/api/gradient.cpp
index e66c138..000842a 100644
--- a/src/api/gradient.cpp
+++ b/src/api/gradient.cpp
@@ -7,16 +7,16 @@ vec2 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec2& iva
     int nY = ogrid.size()[0];
     int nX = ogrid.size()[1];
 
-    if(ivalues.size() != igrid.size()[0] || ivalues[0].size() != igrid.size()[1])
+    if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Values is the wrong size");
 
     if(laf_gradient.size() > 0)
-        if(laf_gradient.size() != igrid.size()[0] || laf_gradient[0].size() != igrid.size()[1])
+        if(!gridpp::compatible_size(igrid, laf_gradient))
 
             throw std::invalid_argument("Laf gradient is the wrong size");
 
     if(elev_gradient.size() > 0)
-        if(elev_gradient.size() != igrid.size()[0] || elev_gradient[0].size() != igrid.size()[1])
+        if(!gridpp::compatible_size(igrid, elev_gradient))
             throw std::invalid_argument("Elevation gradient is the wrong size");
 
     vec2 oelevs = ogrid.get_elevs();
-- 
2.43.0


From c752418382bee6bcc0f0981c41666a84d843a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:42 +0000
Subject: [PATCH 27/32] fix: bilinear interpolation in a trapezoid never tries
 the second root

---
 src/api/bilinear.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/bilinear.cpp b/src/api/bilinear.cpp
index 77a9ca0..909e655 100644
--- a/src/api/bilinear.cpp
+++ b/src/api/bilinear.cpp
@@ -249,7 +249,7 @@ namespace {
             // std::cout << "Need to diagnose s" << std::endl;
             beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
             if(!is_within_range(beta))
-                beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
+                beta  = (b * e - a * f - d * g + c * h - sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
             float t =  1 - beta;
             float s;
             if(Y2 + Y42 * t - Y1 - Y31 * t == 0) {
-- 
2.43.0


From f93c5ed54e275e33a1d25e7afa7878b8e4f7ecc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:48 +0000
Subject: [PATCH 28/32] fix: window reads before the start of the counts when
 the window starts at the first value

---
 src/api/window.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/api/window.cpp b/src/api/window.cpp
index d72305f..5d5d5ba 100644
--- a/src/api/window.cpp
+++ b/src/api/window.cpp
@@ -68,7 +68,10 @@ vec2 gridpp::window(const vec2& array,
                     end = std::min(nX - 1, x + length / 2);
                 }
 
+                // Number of valid values before the window
+                float count_before = 0;
                 if(start - 1 >= 0) {
+                    count_before = counts[start - 1];
                     if(counts[end] - counts[start-1] != 0) {
                         output[y][x] = values[end] - values[start - 1];
                     }
@@ -80,16 +83,16 @@ vec2 gridpp::window(const vec2& array,
                 }
 
                 if(statistic == gridpp::Count) {
-                    output[y][x] = counts[end] - counts[start - 1];
+                    output[y][x] = counts[end] - count_before;
                 }
                 else {
                     if(statistic == gridpp::Mean) {
                         if(counts[end] != 0) {
-                            output[y][x] = output[y][x] / (counts[end] - counts[start-1]);
+                            output[y][x] = output[y][x] / (counts[end] - count_before);
                         }
                     }
                     if(keep_missing) {
-                        if(counts[end] - counts[start - 1] < (end - (start - 1 ))) {
+                        if(counts[end] - count_before < (end - (start - 1 ))) {
                             output[y][x] = gridpp::MV;
                         }
                     }
-- 
2.43.0


From 66089ca77edfb751e4f64ac2b343931405931694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:48 +0000
Subject: [PATCH 29/32] fix: an unsupported statistic ends the process in
 window (thrown inside a parallel loop)

---
 src/api/window.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/window.cpp b/src/api/window.cpp
index 5d5d5ba..fc7d46c 100644
--- a/src/api/window.cpp
+++ b/src/api/window.cpp
@@ -26,6 +26,10 @@ vec2 gridpp::window(const vec2& array,
     if(length % 2 == 0 && !before) {
         throw std::invalid_argument("Length variable must be an odd number");
     }
+    // Errors cannot be thrown inside the parallel loop below
+    if(statistic == gridpp::Quantile || statistic == gridpp::Unknown) {
+        throw std::invalid_argument("Statistic not supported by window");
+    }
 
     #pragma omp parallel for
     for(int y = 0; y < array.size(); y++) {
-- 
2.43.0


From bef20d0e5957d2d65b9fb8e67ac462a4490912f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:59 +0000
Subject: [PATCH 30/32] fix: apply_curve with one curve per cell reads past an
 empty forecast and ends the process on empty curves

---
 src/api/curve.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/curve.cpp b/src/api/curve.cpp
index 1f0ba26..a79cddc 100644
--- a/src/api/curve.cpp
+++ b/src/api/curve.cpp
@@ -116,11 +116,14 @@ vec2 gridpp::apply_curve(const vec2& fcst, const vec3& curve_ref, const vec3& cu
         throw std::invalid_argument("Fcst and curve_fcst dimension sizes mismatch");
 
     int nY = fcst.size();
-    int nX = fcst[0].size();
+    int nX = nY > 0 ? fcst[0].size() : 0;
     vec2 output(nY);
     for(int y = 0; y < nY; y++) {
         output[y].resize(nX, gridpp::MV);
     }
+    // Errors cannot be thrown inside the parallel loop below
+    if(nY > 0 && nX > 0 && curve_ref[0][0].size() == 0)
+        throw std::invalid_argument("curve_ref and curve_fcst cannot have size 0");
 
     #pragma omp parallel for collapse(2)
     for(int y = 0; y < nY; y++) {
-- 
2.43.0


From f7f7fd9645fa000f51ba46a05ea37487cca9d8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:59 +0000
Subject: [PATCH 31/32] fix: monotonize_curve reads past the end of a curve
 with only missing points

---
 src/api/curve.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/api/curve.cpp b/src/api/curve.cpp
index a79cddc..37bfb32 100644
--- a/src/api/curve.cpp
+++ b/src/api/curve.cpp
@@ -163,6 +163,11 @@ vec gridpp::monotonize_curve(vec curve_ref, vec curve_fcst, vec& output_fcst) {
         }
     }
     N = curve_ref.size();
+    if(N == 0) {
+        // All points are missing
+        output_fcst.clear();
+        return vec();
+    }
     ivec new_indices;
     new_indices.reserve(N);
 
-- 
2.43.0


From 46437437c24ed5edcfa15afbeb1bb9626156c2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:59 +0000
Subject: [PATCH 32/32] fix: quantile_mapping_curve takes the quantiles from
 the unsorted values

---
 src/api/quantile_mapping.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/quantile_mapping.cpp b/src/api/quantile_mapping.cpp
index a47b863..96240d0 100644
--- a/src/api/quantile_mapping.cpp
+++ b/src/api/quantile_mapping.cpp
@@ -38,8 +38,8 @@ vec gridpp::quantile_mapping_curve(const vec& ref, const vec& fcst, vec& output_
         vec output_ref(N);
         for(int i = 0; i < N; i++) {
             int index = quantiles[i] * (S - 1);
-            output_fcst[i] = fcst[index];
-            output_ref[i] = ref[index];
+            output_fcst[i] = fcst_sort[index];
+            output_ref[i] = ref_sort[index];
         }
         return output_ref;
     }
-- 
2.43.0

