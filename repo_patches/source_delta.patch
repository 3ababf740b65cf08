From bc872a21aeb9e3317aec8e4fc8c9730fc2ceba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 01/90] fix: Priority-Flood+Epsilon refuses every integer
 element type

---
 include/richdem/depressions/Barnes2014.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/richdem/depressions/Barnes2014.hpp b/include/richdem/depressions/Barnes2014.hpp
index db97e2d..df6111a 100644
--- a/include/richdem/depressions/Barnes2014.hpp
+++ b/include/richdem/depressions/Barnes2014.hpp
@@ -14,6 +14,8 @@
 #include <queue>
 #include <limits>
 #include <iostream>
+#include <stdexcept>
+#include <type_traits>
 #include <cstdlib> //Used for exit
 
 namespace richdem {
@@ -334,6 +336,9 @@ void PriorityFlood_Barnes2014(Array2D<elev_t> &elevations){
 */
 template <Topology topo, class elev_t>
 void PriorityFloodEpsilon_Barnes2014(Array2D<elev_t> &elevations){
+  if(!std::is_floating_point<elev_t>::value)
+    throw std::runtime_error("Priority-Flood+Epsilon is only available for floating-point data types!");
+
   GridCellZ_pq<elev_t> open;
   std::queue<GridCellZ<elev_t> > pit;
   ProgressBar progress;
-- 
2.43.0


From c41f5a533d4a53129082894aa9ebab987820f065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 02/90] fix: FM_Tarboton gives the nearer neighbour the larger
 share

---
 include/richdem/flowmet/Tarboton1997.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/richdem/flowmet/Tarboton1997.hpp b/include/richdem/flowmet/Tarboton1997.hpp
index 54bf8dd..8955ad9 100644
--- a/include/richdem/flowmet/Tarboton1997.hpp
+++ b/include/richdem/flowmet/Tarboton1997.hpp
@@ -136,8 +136,10 @@ void FM_Tarboton(
     } else if(rmax==dang){
       props(x,y,nwrap(nmax+1)) = 1;
     } else {
-      props(x,y,nmax)          = rmax/(M_PI/4.);
-      props(x,y,nwrap(nmax+1)) = 1-rmax/(M_PI/4.);      
+      //rmax is the angle between the flow and the direction of nmax, so the
+      //neighbour which is closer to the flow's direction gets the larger share
+      props(x,y,nmax)          = 1-rmax/(M_PI/4.);
+      props(x,y,nwrap(nmax+1)) = rmax/(M_PI/4.);
     }
   }
   progress.stop();
-- 
2.43.0


From 287266cb974be96ad89c36c16b6a50b993a0c07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 03/90] fix: D4 flow metrics store their shares under D8
 directions, as consumers expect

---
 include/richdem/common/constants.hpp       | 3 +++
 include/richdem/flowmet/Fairfield1991.hpp  | 2 +-
 include/richdem/flowmet/OCallaghan1984.hpp | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/constants.hpp b/include/richdem/common/constants.hpp
index 2abd314..b9e6be1 100644
--- a/include/richdem/common/constants.hpp
+++ b/include/richdem/common/constants.hpp
@@ -66,6 +66,9 @@ constexpr std::array<int, 9> d8_inverse = {0,5,6,7,8,1,2,3,4};
 
 constexpr std::array<int, 5> d4_inverse = {0, 3, 4, 1, 2};
 
+///Convert from D4 directions to the D8 directions pointing the same way
+constexpr std::array<int, 5> d4_to_d8 = {0, D8_WEST, D8_NORTH, D8_EAST, D8_SOUTH};
+
 ///Distances from a central cell to each of its 8 neighbours
 constexpr std::array<double, 9> dr = {0,1,SQRT2,1,SQRT2,1,SQRT2,1,SQRT2}; //TODO: Check these for new D8 directions
 
diff --git a/include/richdem/flowmet/Fairfield1991.hpp b/include/richdem/flowmet/Fairfield1991.hpp
index 3452927..555cf79 100644
--- a/include/richdem/flowmet/Fairfield1991.hpp
+++ b/include/richdem/flowmet/Fairfield1991.hpp
@@ -72,7 +72,7 @@ void FM_FairfieldLeymarie(const Array2D<elev_t> &elevations, Array3D<float> &pro
       continue;
 
     props(x,y,0)          = HAS_FLOW_GEN;
-    props(x,y,greatest_n) = 1;
+    props(x,y,(topo==Topology::D4) ? d4_to_d8[greatest_n] : greatest_n) = 1;
 
     assert(elevations(x,y)>=elevations(x+dx[greatest_n],y+dy[greatest_n])); //Ensure flow goes downhill
   }
diff --git a/include/richdem/flowmet/OCallaghan1984.hpp b/include/richdem/flowmet/OCallaghan1984.hpp
index 148e5d9..4cbe7bd 100644
--- a/include/richdem/flowmet/OCallaghan1984.hpp
+++ b/include/richdem/flowmet/OCallaghan1984.hpp
@@ -71,7 +71,7 @@ void FM_OCallaghan(
 
     assert(elevations(ci)>=elevations(ci+elevations.nshift(lowest_n))); //Ensure flow goes downhill
 
-    props(x,y,lowest_n) = 1;
+    props(x,y,(topo==Topology::D4) ? d4_to_d8[lowest_n] : lowest_n) = 1;
   }
   progress.stop();
 }
-- 
2.43.0


From 687742d0c5e6369b6e6764acf6e2d27cc3ee6cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 04/90] fix: FM_D8 follows the steepest slope, as documented,
 not the lowest neighbour

---
 include/richdem/common/constants.hpp       | 11 +++++++++++
 include/richdem/flowmet/OCallaghan1984.hpp | 18 ++++++++++--------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/richdem/common/constants.hpp b/include/richdem/common/constants.hpp
index b9e6be1..f782b9f 100644
--- a/include/richdem/common/constants.hpp
+++ b/include/richdem/common/constants.hpp
@@ -135,6 +135,17 @@ constexpr auto get_nmax_for_topology() {
   }
 }
 
+template<Topology topo>
+constexpr auto get_distances_for_topology() {
+  if constexpr (topo==Topology::D8){
+    return dr;
+  } else if constexpr (topo==Topology::D4){
+    return d4r;
+  } else {
+    //static_assert(false, "Unknown topology!");
+  }
+}
+
 template<Topology topo>
 constexpr auto get_dinverse_for_topology() {
   if constexpr (topo==Topology::D8){
diff --git a/include/richdem/flowmet/OCallaghan1984.hpp b/include/richdem/flowmet/OCallaghan1984.hpp
index 4cbe7bd..9bb8aaf 100644
--- a/include/richdem/flowmet/OCallaghan1984.hpp
+++ b/include/richdem/flowmet/OCallaghan1984.hpp
@@ -22,6 +22,7 @@ void FM_OCallaghan(
   constexpr auto dx = get_dx_for_topology<topo>();
   constexpr auto dy = get_dy_for_topology<topo>();
   constexpr auto nmax = get_nmax_for_topology<topo>();
+  constexpr auto dist = get_distances_for_topology<topo>();
 
   props.setAll(NO_FLOW_GEN);
   props.setNoData(NO_DATA_GEN);
@@ -44,8 +45,8 @@ void FM_OCallaghan(
 
     const elev_t   e  = elevations(x,y);
 
-    int lowest_n      = 0;
-    elev_t   lowest_n_elev = std::numeric_limits<elev_t>::max();
+    int    steepest_n     = 0;
+    double steepest_slope = 0;
     for(int n=1;n<=nmax;n++){
       const int nx = x + dx[n];
       const int ny = y + dy[n];
@@ -58,20 +59,21 @@ void FM_OCallaghan(
       if(ne>=e)
         continue;
 
-      if(ne<lowest_n_elev){
-        lowest_n_elev = ne;
-        lowest_n      = n;
+      const double slope = ((double)e-(double)ne)/dist[n];
+      if(slope>steepest_slope){
+        steepest_slope = slope;
+        steepest_n     = n;
       }
     }
 
-    if(lowest_n==0)
+    if(steepest_n==0)
       continue;
 
     props(x,y,0) = HAS_FLOW_GEN;
 
-    assert(elevations(ci)>=elevations(ci+elevations.nshift(lowest_n))); //Ensure flow goes downhill
+    assert(elevations(ci)>=elevations(ci+elevations.nshift(steepest_n))); //Ensure flow goes downhill
 
-    props(x,y,(topo==Topology::D4) ? d4_to_d8[lowest_n] : lowest_n) = 1;
+    props(x,y,(topo==Topology::D4) ? d4_to_d8[steepest_n] : steepest_n) = 1;
   }
   progress.stop();
 }
-- 
2.43.0


From 44a206a239b2860580b60af54e2dd760f7e8dee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 05/90] fix: Freeman and Holmgren metrics no longer lose flow
 to underflow on tiny gradients

---
 include/richdem/flowmet/Freeman1991.hpp  | 15 ++++++++++++++-
 include/richdem/flowmet/Holmgren1994.hpp | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/richdem/flowmet/Freeman1991.hpp b/include/richdem/flowmet/Freeman1991.hpp
index f6b9013..9936020 100644
--- a/include/richdem/flowmet/Freeman1991.hpp
+++ b/include/richdem/flowmet/Freeman1991.hpp
@@ -40,6 +40,19 @@ void FM_Freeman(
 
     const E e    = elevations(x,y);
 
+    //Gradients are taken relative to the steepest one: otherwise the powers of
+    //very small (or large) gradients would underflow (or overflow)
+    double max_grad = 0;
+    for(int n=1;n<=8;n++){
+      const int nx = x+d8x[n];
+      const int ny = y+d8y[n];
+      if(!elevations.inGrid(nx,ny) || elevations.isNoData(nx,ny))
+        continue;
+      const E ne = elevations(nx,ny);
+      if(ne<e)
+        max_grad = std::max(max_grad, (e-ne)/dr[n]);
+    }
+
     double C = 0;
     for(int n=1;n<=8;n++){
       const int nx = x+d8x[n];
@@ -56,7 +69,7 @@ void FM_Freeman(
         const double rise = e-ne;
         const double run  = dr[n];
         const double grad = rise/run;
-        const auto cval   = std::pow(grad,xparam);
+        const auto cval   = std::pow(grad/max_grad,xparam);
         props(x,y,n)      = cval;
         C                += cval;
       }
diff --git a/include/richdem/flowmet/Holmgren1994.hpp b/include/richdem/flowmet/Holmgren1994.hpp
index bc8e84b..0f6a19e 100644
--- a/include/richdem/flowmet/Holmgren1994.hpp
+++ b/include/richdem/flowmet/Holmgren1994.hpp
@@ -44,6 +44,19 @@ void FM_Holmgren(
 
     const E e = elevations(x,y);
 
+    //Gradients are taken relative to the steepest one: otherwise the powers of
+    //very small (or large) gradients would underflow (or overflow)
+    double max_grad = 0;
+    for(int n=1;n<=8;n++){
+      const int nx = x+d8x[n];
+      const int ny = y+d8y[n];
+      if(!elevations.inGrid(nx,ny) || elevations.isNoData(nx,ny))
+        continue;
+      const E ne = elevations(nx,ny);
+      if(ne<e)
+        max_grad = std::max(max_grad, (e-ne)/dr[n] * L[n]);
+    }
+
     double C = 0;
 
     for(int n=1;n<=8;n++){
@@ -61,7 +74,7 @@ void FM_Holmgren(
         const double rise = e-ne;
         const double run  = dr[n];
         const double grad = rise/run;
-        props(x,y,n)      = std::pow(grad * L[n],xparam);
+        props(x,y,n)      = std::pow(grad * L[n] / max_grad,xparam);
         C                += props(x,y,n);
       }
     }
-- 
2.43.0


From 5b81965f122d32057e76e9a8bd948a0cc6638976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 06/90] fix: Fill-Spill-Merge no longer takes the top-left cell
 for 'no downstream neighbour'

---
 include/richdem/depressions/fill_spill_merge.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/depressions/fill_spill_merge.hpp b/include/richdem/depressions/fill_spill_merge.hpp
index 1e33158..6f9c070 100644
--- a/include/richdem/depressions/fill_spill_merge.hpp
+++ b/include/richdem/depressions/fill_spill_merge.hpp
@@ -279,7 +279,7 @@ static void MoveWaterIntoPits(
 
     //Coordinates of downstream neighbour, if any
     const auto ndir = flowdirs(c); //Neighbour direction
-    int n = NO_FLOW;               //Neighbour address
+    int n = -1;                    //Neighbour address; -1 since 0 addresses the top-left cell
     if(ndir!=NO_FLOW){
       int x,y;
       topo.iToxy(c,x,y);
@@ -289,7 +289,7 @@ static void MoveWaterIntoPits(
       assert(n>=0);
     }
 
-    if(n == NO_FLOW){    //If this is a pit cell, move the water to the appropriate depression's water_vol.
+    if(n == -1){         //If this is a pit cell, move the water to the appropriate depression's water_vol.
       //Note that OCEAN cells have NO_FLOW so this will route water to the OCEAN
       //depression. This can be used to find out how much total run-off made it
       //into the ocean.
-- 
2.43.0


From 3667983922decca1f151b3457e21919e54b6447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 07/90] fix: Fill-Spill-Merge conserves water when dry ground
 soaks it up at a saddle

---
 .../richdem/depressions/fill_spill_merge.hpp  | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/richdem/depressions/fill_spill_merge.hpp b/include/richdem/depressions/fill_spill_merge.hpp
index 6f9c070..ac8add7 100644
--- a/include/richdem/depressions/fill_spill_merge.hpp
+++ b/include/richdem/depressions/fill_spill_merge.hpp
@@ -863,7 +863,26 @@ void FillDepressions(
       //this cell is sufficient to store all of the water. We'll stop adding
       //cells and fill things now.
 
+      //Infiltration may have taken so much of the water that it can no longer
+      //cover all of the cells visited, e.g. if we've climbed over a saddle and
+      //back down. Cells above the water's surface don't hold any of it, so we
+      //let go of them, from the highest downwards.
+      std::sort(cells_affected.begin(), cells_affected.end(), [&](const flat_c_idx a, const flat_c_idx b){ return topo(a)<topo(b); });
+      const auto drop_highest = [&](){
+        total_elevation -= topo(cells_affected.back());
+        cells_affected.pop_back();
+      };
+
+      while(!cells_affected.empty() && topo(cells_affected.back())>topo(c.x,c.y))
+        drop_highest();
+
       auto water_level = DetermineWaterLevel(wtd(c.x,c.y), water_vol, topo(c.x,c.y), cells_affected.size(), total_elevation);
+
+      while(cells_affected.size()>1 && topo(cells_affected.back())>water_level && !fp_eq(topo(cells_affected.back()),water_level)){
+        drop_highest();
+        water_level = (water_vol+total_elevation)/cells_affected.size();
+      }
+
       if(fp_eq(water_level, topo(out_cell))){
         water_level = topo(out_cell);
       }
@@ -883,6 +902,12 @@ void FillDepressions(
     //The outlet cell never impacts the amount of water the depression can hold
     //and its water table is adjusted in the if-clause above.
     if(topo.xyToI(c.x,c.y)!=out_cell){
+      //The ground here may take up all the water that's left
+      if(water_vol < -wtd(c.x,c.y)){
+        wtd(c.x,c.y) += water_vol;
+        return;
+      }
+
       //Add this cell to those affected so that its volume is available for
       //filling.
       cells_affected.emplace_back(topo.xyToI(c.x,c.y));
-- 
2.43.0


From 108149dac0f9b57f59f9f61df269b57f43dca6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 08/90] fix: flow accumulation honours flow proportions on the
 grid's edge

---
 include/richdem/methods/flow_accumulation_generic.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/richdem/methods/flow_accumulation_generic.hpp b/include/richdem/methods/flow_accumulation_generic.hpp
index fa7846f..d8a84a8 100644
--- a/include/richdem/methods/flow_accumulation_generic.hpp
+++ b/include/richdem/methods/flow_accumulation_generic.hpp
@@ -45,13 +45,13 @@ void FlowAccumulation(const Array3D<float> &props, Array2D<A> &accum){
   //Create dependencies array
   RDLOG_PROGRESS<<"Creating dependencies array..."<<std::endl;
   Array2D<int8_t> deps(props, 0);
-  for(int y=1;y<props.height()-1;y++)
-  for(int x=1;x<props.width()-1;x++){
+  for(int y=0;y<props.height();y++)
+  for(int x=0;x<props.width();x++){
     const int ci = accum.xyToI(x,y);
     if(props.isNoData(ci))
       continue;
     for(int n=1;n<=8;n++)
-      if(props(x,y,n)>0){
+      if(props(x,y,n)>0 && accum.inGrid(x+d8x[n],y+d8y[n])){
         const int ni = ci + accum.nshift(n);
         deps(ni)++;
       }
@@ -78,9 +78,14 @@ void FlowAccumulation(const Array3D<float> &props, Array2D<A> &accum){
 
     const auto c_accum = accum(ci);
 
+    int cx,cy;
+    accum.iToxy(ci,cx,cy);
+
     for(int n=1;n<=8;n++){
       if(props.getIN(ci,n)<=0) //No Flow in this direction or other flags
         continue;
+      if(!accum.inGrid(cx+d8x[n],cy+d8y[n])) //Flow leaves the grid
+        continue;
       const int ni = ci+accum.nshift(n);
       if(props.isNoData(ni))
         continue;
-- 
2.43.0


From 1f629a784ce0e46f9547126c6f9c33369ac18434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 09/90] fix: d8_flow_accum counts dependencies atomically

---
 include/richdem/methods/d8_methods.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/richdem/methods/d8_methods.hpp b/include/richdem/methods/d8_methods.hpp
index f2010c6..c6cd3ad 100644
--- a/include/richdem/methods/d8_methods.hpp
+++ b/include/richdem/methods/d8_methods.hpp
@@ -87,7 +87,9 @@ void d8_flow_accum(const Array2D<T> &flowdirs, Array2D<U> &area){
 
       //Neighbour is valid and is part of the grid. The neighbour depends on this
       //cell, so increment its dependency count.
-      ++dependency(nx,ny);
+      auto &ndep = dependency(nx,ny);
+      #pragma omp atomic
+      ++ndep;
     }
   }
   RDLOG_TIME_USE<<"Dependency calculation time = "<<progress.stop()<<" s";
-- 
2.43.0


From 133a22e1c718772ec90834f52069516cf11afe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 10/90] fix: d8_upslope_cells compiles and draws steep and
 vertical lines correctly

---
 include/richdem/methods/d8_methods.hpp | 42 ++++++++++++--------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/include/richdem/methods/d8_methods.hpp b/include/richdem/methods/d8_methods.hpp
index c6cd3ad..7968a2f 100644
--- a/include/richdem/methods/d8_methods.hpp
+++ b/include/richdem/methods/d8_methods.hpp
@@ -13,6 +13,7 @@
 #include <richdem/common/logger.hpp>
 #include <richdem/common/ProgressBar.hpp>
 
+#include <cstdlib>
 #include <queue>
 #include <stdexcept>
 
@@ -185,35 +186,30 @@ void d8_upslope_cells(
 
   std::queue<GridCell> expansion;
 
-  if(x0>x1){
-    std::swap(x0,x1);
-    std::swap(y0,y1);
-  }
-
-  //Modified Bresenham Line-Drawing Algorithm
-  int deltax     = x1-x0;
-  int deltay     = y1-y0;
-  float error    = 0;
-  float deltaerr = (float)deltay/(float)deltax;
-
-  if (deltaerr<0)
-    deltaerr = -deltaerr;
+  //Bresenham Line-Drawing Algorithm
+  const int deltax = std::abs(x1-x0);
+  const int deltay = std::abs(y1-y0);
+  const int stepx  = sgn(x1-x0);
+  const int stepy  = sgn(y1-y0);
+  int error        = deltax-deltay;
 
-  RDLOG_MISC<<"Line slope is "<<deltaerr;
-  int y=y0;
-  for(int x=x0;x<=x1;x++){
+  for(int x=x0,y=y0;;){
     expansion.push(GridCell(x,y));
     upslope_cells(x,y)=2;
-    error+=deltaerr;
-    if (error>=0.5) {
-      expansion.push(GridCell(x+1,y));
-      upslope_cells(x+1,y) = 2;
-      y                   += sgn(deltay);
-      error               -= 1;
+    if(x==x1 && y==y1)
+      break;
+    const int error2 = 2*error;
+    if(error2>-deltay){
+      error -= deltay;
+      x     += stepx;
+    }
+    if(error2<deltax){
+      error += deltax;
+      y     += stepy;
     }
   }
 
-  progress.start(flowdirs.data_cells);
+  progress.start(flowdirs.numDataCells());
   long int ccount=0;
   while(expansion.size()>0){
     GridCell c=expansion.front();
-- 
2.43.0


From 31ae97cb1fa733e403476595525e913959e601c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 11/90] fix: D-infinity upslope area gives the nearer neighbour
 the larger share

---
 include/richdem/methods/dinf_methods.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/richdem/methods/dinf_methods.hpp b/include/richdem/methods/dinf_methods.hpp
index 6535315..af01db0 100644
--- a/include/richdem/methods/dinf_methods.hpp
+++ b/include/richdem/methods/dinf_methods.hpp
@@ -81,8 +81,10 @@ static void area_proportion(float flowdir, int nhigh, int nlow, float &phigh, fl
     phigh = 1;
     plow  = 0;
   } else {
-    phigh = (nhigh*(M_PI/4.0)-flowdir)/(M_PI/4.0);
-    plow  = 1-phigh;
+    //The nearer a neighbour's direction is to the flow's direction the more flow
+    //that neighbour receives
+    plow  = (nhigh*(M_PI/4.0)-flowdir)/(M_PI/4.0);
+    phigh = 1-plow;
   }
 
   assert(phigh+plow==1);  //TODO: This isn't necessarily so in floating-point... or is it?
-- 
2.43.0


From 1e8d26b52c4ef7638cdcea26c22b7848c01da75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 12/90] fix: dinf_upslope_area counts dependencies atomically

---
 include/richdem/methods/dinf_methods.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/richdem/methods/dinf_methods.hpp b/include/richdem/methods/dinf_methods.hpp
index af01db0..aa16836 100644
--- a/include/richdem/methods/dinf_methods.hpp
+++ b/include/richdem/methods/dinf_methods.hpp
@@ -172,9 +172,17 @@ void dinf_upslope_area(
         nly = y+dinf_dy[n_low];
       }
       if( n_low!=-1 && flowdirs.inGrid(nlx,nly) && flowdirs(nlx,nly)!=flowdirs.noData() )
-        dependency(nlx,nly)++;
+      {
+        auto &ndep = dependency(nlx,nly);
+        #pragma omp atomic
+        ++ndep;
+      }
       if( flowdirs.inGrid(nhx,nhy) && flowdirs(nhx,nhy)!=flowdirs.noData() )
-        dependency(nhx,nhy)++;
+      {
+        auto &ndep = dependency(nhx,nhy);
+        #pragma omp atomic
+        ++ndep;
+      }
     }
   }
   RDLOG_TIME_USE<<"Succeeded in = "<<progress.stop()<<" s";
-- 
2.43.0


From 678c73269b16775981d9fef49af344414f0316a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 13/90] fix: D-infinity flow due east is no longer taken for no
 flow

---
 include/richdem/flats/flat_resolution_dinf.hpp | 4 +++-
 include/richdem/flowmet/dinf_flowdirs.hpp      | 9 +++++++--
 include/richdem/methods/dinf_methods.hpp       | 2 --
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/richdem/flats/flat_resolution_dinf.hpp b/include/richdem/flats/flat_resolution_dinf.hpp
index b683504..67c355a 100644
--- a/include/richdem/flats/flat_resolution_dinf.hpp
+++ b/include/richdem/flats/flat_resolution_dinf.hpp
@@ -12,7 +12,7 @@
 
 namespace richdem {
 
-static const float d8_to_dinf[9]={-1, 4*M_PI/4, 3*M_PI/4, 2*M_PI/4, 1*M_PI/4, 0, 7*M_PI/4, 6*M_PI/4, 5*M_PI/4};
+static const float d8_to_dinf[9]={-1, 4*M_PI/4, 3*M_PI/4, 2*M_PI/4, 1*M_PI/4, 8*M_PI/4, 7*M_PI/4, 6*M_PI/4, 5*M_PI/4};
 
 static float dinf_masked_FlowDir(
   const Array2D<int32_t> &flat_resolution_mask,
@@ -58,6 +58,8 @@ static float dinf_masked_FlowDir(
   double rg=NO_FLOW;
   if(nmax!=-1){
     rg=(af[nmax]*rmax+ac[nmax]*M_PI/2);
+    if(rg==NO_FLOW)  //Due east: an angle of 0 would be mistaken for NO_FLOW
+      rg=2*M_PI;
   } else {
     for(int n=1;n<=8;n++){  //TODO: I have a feeling this is potentially unsafe as it may create dependency loops. Does it? TODO: Switch this to dinf_dx
       if(groups(x+d8x[n],y+d8y[n])==groups(x,y) && flat_resolution_mask(x+d8x[n],y+d8y[n])<flat_resolution_mask(x,y)){
diff --git a/include/richdem/flowmet/dinf_flowdirs.hpp b/include/richdem/flowmet/dinf_flowdirs.hpp
index dfc2a97..1b8fbe8 100644
--- a/include/richdem/flowmet/dinf_flowdirs.hpp
+++ b/include/richdem/flowmet/dinf_flowdirs.hpp
@@ -40,7 +40,8 @@ static const double af[8] = { 1., -1.,  1., -1.,  1., -1., 1., -1.};
   @param[in] x            x-coordinate of cell to determine flow direction for
   @param[in] y            y-coordinate of cell to determine flow direction for
 
-  @return A floating-point value between [0,2*Pi) indicating flow direction
+  @return A floating-point value between (0,2*Pi] indicating flow direction, or
+          NO_FLOW
 */
 template <class T>
 static float dinf_FlowDir(const Array2D<T> &elevations, const int x, const int y){
@@ -57,7 +58,7 @@ static float dinf_FlowDir(const Array2D<T> &elevations, const int x, const int y
     else if(x==0)
       return 4*M_PI/4;  //D8: 1
     else if(x==elevations.width()-1)
-      return 0*M_PI/4;  //D8: 5
+      return 8*M_PI/4;  //D8: 5 (not 0, since this is NO_FLOW)
     else if(y==0)
       return 2*M_PI/4;  //D8: 3
     else if(y==elevations.height()-1)
@@ -111,6 +112,10 @@ static float dinf_FlowDir(const Array2D<T> &elevations, const int x, const int y
   if(nmax!=-1)
     rg = (af[nmax]*rmax+ac[nmax]*M_PI/2);
 
+  //Due east is 2*Pi, since an angle of 0 would be mistaken for NO_FLOW
+  if(nmax!=-1 && rg==NO_FLOW)
+    rg = 2*M_PI;
+
   return rg;
 }
 
diff --git a/include/richdem/methods/dinf_methods.hpp b/include/richdem/methods/dinf_methods.hpp
index aa16836..90ce464 100644
--- a/include/richdem/methods/dinf_methods.hpp
+++ b/include/richdem/methods/dinf_methods.hpp
@@ -201,8 +201,6 @@ void dinf_upslope_area(
     for(int x=0;x<flowdirs.width();x++)
       if(flowdirs(x,y)==flowdirs.noData())
         continue;
-      else if(flowdirs(x,y)==NO_FLOW)
-        continue;
       else if(dependency(x,y)==0)
         sources.emplace(x,y);
   }
-- 
2.43.0


From 4f9acfce964b904191f8b0703dfc0150b55a5d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 14/90] fix: progress bar no longer divides by zero when there
 is no work (all-NoData rasters)

---
 include/richdem/common/ProgressBar.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/richdem/common/ProgressBar.hpp b/include/richdem/common/ProgressBar.hpp
index 34cf6b2..37250e5 100644
--- a/include/richdem/common/ProgressBar.hpp
+++ b/include/richdem/common/ProgressBar.hpp
@@ -92,6 +92,9 @@ class ProgressBar{
       if(thread_num()!=0)
         return;
 
+      if(total_work_==0) //Nothing to measure progress against
+        return;
+
       work_done = work_done0;
 
       if(work_done<next_update)
-- 
2.43.0


From 149a1e77633d2fa55ee38b34eb8115ef7d42671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 15/90] fix: flat resolution refuses to alter integer DEMs,
 whose cells it would lower

---
 include/richdem/flats/Barnes2014.hpp      | 5 +++++
 include/richdem/flats/flat_resolution.hpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/richdem/flats/Barnes2014.hpp b/include/richdem/flats/Barnes2014.hpp
index 78ffb73..fddc35c 100644
--- a/include/richdem/flats/Barnes2014.hpp
+++ b/include/richdem/flats/Barnes2014.hpp
@@ -21,6 +21,8 @@
 #include <queue>
 #include <cmath>
 #include <limits>
+#include <stdexcept>
+#include <type_traits>
 
 namespace richdem {
 
@@ -499,6 +501,9 @@ void ResolveFlatsEpsilon_Barnes2014(
   const Array2D<int32_t> &labels,
   Array2D<U>             &elevations
 ){
+  if(!std::is_floating_point<U>::value)
+    throw std::runtime_error("Resolving flats by altering elevations is only available for floating-point data types!");
+
   ProgressBar progress;
 
   RDLOG_ALG_NAME<<"Barnes (2014) Flat Resolution (DEM modification)...";
diff --git a/include/richdem/flats/flat_resolution.hpp b/include/richdem/flats/flat_resolution.hpp
index 6edc9c4..93a7f08 100644
--- a/include/richdem/flats/flat_resolution.hpp
+++ b/include/richdem/flats/flat_resolution.hpp
@@ -18,6 +18,8 @@
 #include <queue>
 #include <cmath>
 #include <limits>
+#include <stdexcept>
+#include <type_traits>
 
 namespace richdem {
 
@@ -548,6 +550,9 @@ void d8_flats_alter_dem(
   const Array2D<int32_t> &labels,
   Array2D<U> &elevations
 ){
+  if(!std::is_floating_point<U>::value)
+    throw std::runtime_error("Resolving flats by altering elevations is only available for floating-point data types!");
+
   ProgressBar progress;
 
   RDLOG_ALG_NAME<<"Calculating D8 flow directions using flat mask...";
-- 
2.43.0


From 396de657eb151e9e9b8a37e5dc45d1be060255f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 16/90] fix: d8_flats_alter_dem raises double elevations by
 double-precision increments

---
 include/richdem/flats/flat_resolution.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/richdem/flats/flat_resolution.hpp b/include/richdem/flats/flat_resolution.hpp
index 93a7f08..e1de5f7 100644
--- a/include/richdem/flats/flat_resolution.hpp
+++ b/include/richdem/flats/flat_resolution.hpp
@@ -567,10 +567,8 @@ void d8_flats_alter_dem(
       bool higher[9];
       for(int n=1;n<=8;++n)
         higher[n]=elevations(x,y)>elevations(x+d8x[n],y+d8y[n]);
-      //TODO: nextafterf is the floating point version; should use an
-      //overloaded version instead to be able to handle both double and float
       for(int i=0;i<flat_mask(x,y);++i)
-        elevations(x,y)=nextafterf(elevations(x,y),std::numeric_limits<U>::infinity());
+        elevations(x,y)=std::nextafter(elevations(x,y),std::numeric_limits<U>::infinity());
       for(int n=1;n<=8;++n){
         int nx=x+d8x[n];
         int ny=y+d8y[n];
-- 
2.43.0


From bd48cf6a60531bd78703d4df2ade341b34f2ad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 17/90] fix: cell-count perimeter counts cells bordering
 NoData, as documented

---
 include/richdem/misc/misc_methods.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/misc/misc_methods.hpp b/include/richdem/misc/misc_methods.hpp
index 445ba0c..f90f922 100644
--- a/include/richdem/misc/misc_methods.hpp
+++ b/include/richdem/misc/misc_methods.hpp
@@ -210,7 +210,7 @@ double Perimeter(
 
       if(perim_type==PerimType::CELL_COUNT){
         for(int n=1;n<=8;n++){
-          if(!arr.inGrid(x+d8x[n],y+d8y[n])){
+          if(!arr.inGrid(x+d8x[n],y+d8y[n]) || arr.isNoData(x+d8x[n],y+d8y[n])){
             cell_edges++;
             break;
           }
-- 
2.43.0


From 0a567bf80375892ecdff2e1e85931c8285242915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 18/90] fix: misc_methods.hpp no longer shares
 dinf_methods.hpp's include guard

---
 include/richdem/misc/misc_methods.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/misc/misc_methods.hpp b/include/richdem/misc/misc_methods.hpp
index f90f922..5366cb4 100644
--- a/include/richdem/misc/misc_methods.hpp
+++ b/include/richdem/misc/misc_methods.hpp
@@ -7,8 +7,8 @@
   Tarboton (1997). It incorporates minor alterations and additional safe-guards
   described in Barnes (2013, TODO).
 */
-#ifndef _richdem_dinf_methods_hpp_
-#define _richdem_dinf_methods_hpp_
+#ifndef _richdem_misc_methods_hpp_
+#define _richdem_misc_methods_hpp_
 
 #include <richdem/common/Array2D.hpp>
 #include <richdem/common/constants.hpp>
-- 
2.43.0


From 9b590b070236f93bef4f81a30796ee9e222568ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 19/90] fix: aspect of a flat surface is -1, as documented

---
 include/richdem/methods/terrain_attributes.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/richdem/methods/terrain_attributes.hpp b/include/richdem/methods/terrain_attributes.hpp
index 97635a6..516a6be 100644
--- a/include/richdem/methods/terrain_attributes.hpp
+++ b/include/richdem/methods/terrain_attributes.hpp
@@ -233,6 +233,8 @@ static inline double Terrain_Aspect(const Array2D<T> &elevations, const int x, c
   //See p. 18 of Horn (1981)
   double dzdx       = ( (tsv.c+2*tsv.f+tsv.i) - (tsv.a+2*tsv.d+tsv.g) ) / 8 / elevations.getCellLengthX();
   double dzdy       = ( (tsv.g+2*tsv.h+tsv.i) - (tsv.a+2*tsv.b+tsv.c) ) / 8 / elevations.getCellLengthY();
+  if(dzdx==0 && dzdy==0)
+    return -1; //Flat surface: there is no aspect
   double the_aspect = 180.0/M_PI*atan2(dzdy,-dzdx);
   if(the_aspect<0)
     return 90-the_aspect;
-- 
2.43.0


From 0a66702db53de12213c1f2c4d8584ed0559b9448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 20/90] fix: assigning to a ManagedVector that wraps external
 memory no longer frees that memory

---
 include/richdem/common/ManagedVector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/richdem/common/ManagedVector.hpp b/include/richdem/common/ManagedVector.hpp
index 69b9d7c..ef0dc36 100644
--- a/include/richdem/common/ManagedVector.hpp
+++ b/include/richdem/common/ManagedVector.hpp
@@ -2,6 +2,7 @@
 #define _richdem_managed_vector_hpp_
 
 #include <memory>
+#include <stdexcept>
 //#include <iostream>
 
 namespace richdem {
@@ -111,6 +112,10 @@ class ManagedVector {
   template<class U>
   ManagedVector<T>& operator=(ManagedVector<U>&& other) noexcept {
     //std::cerr<<"ManagedVector move assignment of "<<((void*)other._data.get())<<std::endl;
+    if(static_cast<const void*>(this)==static_cast<const void*>(&other))
+      return *this;
+    if(!_owned)
+      _data.release(); //Wrapped memory is not ours to free
     _size        = other.size();
     _data        = std::move(other._data);
     _owned       = other._owned;
-- 
2.43.0


From beb80f364520bedffa7279688c44fa8fb2f7a4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 21/90] fix: flipHorz swaps within the row rather than with the
 next row's first cell

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 46fd58e..907b499 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -724,7 +724,7 @@ class Array2D {
   void flipHorz(){
     for(xy_t y=0;y<view_height;y++){
       T* start = &_data[xyToI(0,y)];
-      T* end   = &_data[xyToI(view_width,y)];
+      T* end   = start+(view_width-1);
       while(start<end){
         std::swap(*start,*end);
         start++;
-- 
2.43.0


From 51651b0e2176261fd29e2e8358c30447bd009080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 22/90] fix: transpose() transposes every raster and updates
 the neighbour offsets

---
 include/richdem/common/Array2D.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 907b499..6933b46 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -738,11 +738,14 @@ class Array2D {
   */
   void transpose(){
     RDLOG_WARN<<"transpose() is an experimental feature.";
-    std::vector<T> new_data(view_width*view_height);
+    std::vector<T> new_data(size());
     for(xy_t y=0;y<view_height;y++)
     for(xy_t x=0;x<view_width;x++)
-      std::swap(_data[(i_t)x*(i_t)view_height+(i_t)y], _data[xyToI(x,y)]);
+      new_data[(i_t)x*(i_t)view_height+(i_t)y] = _data[xyToI(x,y)];
+    for(i_t i=0;i<size();i++)
+      _data[i] = new_data[i];
     std::swap(view_width,view_height);
+    _nshift = {{0,-1,-view_width-1,-view_width,-view_width+1,1,view_width+1,view_width,view_width-1}};
     //TODO: Offsets?
   }
 
-- 
2.43.0


From 9cbee611613e7087c46a5305776d0a1abd20837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 23/90] fix: numDataCells() no longer returns a stale count
 after the raster changed

---
 include/richdem/common/Array2D.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 6933b46..52d80db 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -932,7 +932,8 @@ class Array2D {
     @return Returns the number of cells which are not NoData.
   */
   i_t numDataCells() const {
-    if(num_data_cells==NO_I)
+    //Cells may have changed since the last count, so recount if they are in RAM
+    if(num_data_cells==NO_I || !empty())
       countDataCells();
     return num_data_cells;
   }
-- 
2.43.0


From 8e8e65a1248f3e071dbbc5e70110444b2612f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 24/90] fix: Array3D counts data cells by their flag and has a
 defined NoData value

---
 include/richdem/common/Array3D.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/richdem/common/Array3D.hpp b/include/richdem/common/Array3D.hpp
index e1d3b47..01805d9 100644
--- a/include/richdem/common/Array3D.hpp
+++ b/include/richdem/common/Array3D.hpp
@@ -77,7 +77,7 @@ class Array3D {
   ManagedVector<T> data;            ///< Holds the raster data in a 1D array
                                     ///< this improves caching versus a 2D array
 
-  T   no_data;                       ///< NoData value of the raster
+  T   no_data = -1;                  ///< NoData value of the raster
   mutable i_t num_data_cells = NO_I; ///< Number of cells which are not NoData
 
   xy_t view_width  = 0;              ///< Height of raster in cells
@@ -323,7 +323,7 @@ class Array3D {
   void countDataCells() const {
     num_data_cells = 0;
     for(unsigned int i=0;i<size();i++)
-      if(data[i]!=no_data)
+      if(data[9*(i_t)i]!=no_data)
         num_data_cells++;
   }
 
@@ -333,7 +333,8 @@ class Array3D {
     @return Returns the number of cells which are not NoData.
   */
   i_t numDataCells() const {
-    if(num_data_cells==NO_I)
+    //Cells may have changed since the last count, so recount if they are in RAM
+    if(num_data_cells==NO_I || !empty())
       countDataCells();
     return num_data_cells;
   }
-- 
2.43.0


From c1b4793d0fd49761183ac011092383af1a2c9e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 25/90] fix: metadata and processing history are read from
 files

---
 include/richdem/common/Array2D.hpp | 6 +++---
 include/richdem/common/loaders.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 52d80db..cb8d9ed 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -45,7 +45,7 @@ inline std::map<std::string, std::string> ProcessMetadata(char **metadata){
   if(metadata==NULL)
     return ret;
 
-  for(int metstri=0;metadata[metstri]==NULL;metstri++){
+  for(int metstri=0;metadata[metstri]!=NULL;metstri++){
     std::string metstr = metadata[metstri];
     const auto equals  = metstr.find("=");
     if(equals==std::string::npos){
@@ -1139,8 +1139,8 @@ class Array2D {
       std::time_t the_time = std::time(nullptr);
       char time_str[64];
       std::strftime(time_str, sizeof(time_str), "%Y-%m-%d %H:%M:%S UTC", std::gmtime(&the_time));
-      fout->SetMetadataItem("TIFFTAG_DATETIME",   time_str);
-      fout->SetMetadataItem("TIFFTAG_SOFTWARE",   program_identifier.c_str());
+      metadata["TIFFTAG_DATETIME"] = time_str;
+      metadata["TIFFTAG_SOFTWARE"] = program_identifier;
 
       //TODO: `metadata_str` may need removing
       metadata["PROCESSING_HISTORY"] += "\n" + std::string(time_str) + " | " + program_identifier + " | ";
diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index 0eec83f..b49cf2c 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -142,7 +142,7 @@ void SaveGDAL(const Array2D<T> &arr, const std::string &filename, const std::str
   }
 
   for(const auto &kv: arr.metadata){
-    if(kv.first!="PROCESSING_HISTORY")
+    if(kv.first!="PROCESSING_HISTORY" && kv.first!="TIFFTAG_DATETIME" && kv.first!="TIFFTAG_SOFTWARE")
       fout->SetMetadataItem(kv.first.c_str(), kv.second.c_str());
   }
 
-- 
2.43.0


From ab71792efdd37b6c5a43dc2061ea5a05fa222ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 26/90] fix: an unnamed save is recorded as an unspecified
 operation, as intended

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index cb8d9ed..82f0485 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -1144,7 +1144,7 @@ class Array2D {
 
       //TODO: `metadata_str` may need removing
       metadata["PROCESSING_HISTORY"] += "\n" + std::string(time_str) + " | " + program_identifier + " | ";
-      if(!metadata.empty())
+      if(!metadata_str.empty())
         metadata["PROCESSING_HISTORY"] += metadata_str;
       else
         metadata["PROCESSING_HISTORY"] += "Unspecified Operation";
-- 
2.43.0


From bd98ffeb0e05ab93776f7d21da4e50f5f2c50af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 27/90] fix: the origin of a saved sub-window of a rotated
 raster is placed correctly

---
 include/richdem/common/Array2D.hpp | 4 ++--
 include/richdem/common/loaders.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 82f0485..ce50b0d 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -1169,11 +1169,11 @@ class Array2D {
 
       //We shift the top-left pixel of hte image eastward to the appropriate
       //coordinate
-      out_geotransform[0] += xoffset*geotransform[1];
+      out_geotransform[0] += xoffset*geotransform[1]+yoffset*geotransform[2];
 
       //We shift the top-left pixel of the image southward to the appropriate
       //coordinate
-      out_geotransform[3] += yoffset*geotransform[5];
+      out_geotransform[3] += xoffset*geotransform[4]+yoffset*geotransform[5];
 
       fout->SetGeoTransform(out_geotransform.data());
     }
diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index b49cf2c..eb3c0b5 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -162,11 +162,11 @@ void SaveGDAL(const Array2D<T> &arr, const std::string &filename, const std::str
 
     //We shift the top-left pixel of hte image eastward to the appropriate
     //coordinate
-    out_geotransform[0] += xoffset*arr.geotransform[1];
+    out_geotransform[0] += xoffset*arr.geotransform[1]+yoffset*arr.geotransform[2];
 
     //We shift the top-left pixel of the image southward to the appropriate
     //coordinate
-    out_geotransform[3] += yoffset*arr.geotransform[5];
+    out_geotransform[3] += xoffset*arr.geotransform[4]+yoffset*arr.geotransform[5];
 
     fout->SetGeoTransform(out_geotransform.data());
   }
-- 
2.43.0


From e0e48637f3f682a39158e517a7a6aed4e7ef2199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 28/90] fix: a part given only by its offset extends to the
 file's end

---
 include/richdem/common/Array2D.hpp | 12 +++++-------
 include/richdem/common/loaders.hpp | 16 ++++++----------
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index ce50b0d..0da090f 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -165,17 +165,15 @@ class Array2D {
 
     //TODO: What's going on here?
 
-    if(xOffset+part_width>=total_width)
+    if(part_width==0 || xOffset+part_width>=total_width)
       part_width  = total_width-xOffset;
-    if(yOffset+part_height>=total_height)
+    if(part_height==0 || yOffset+part_height>=total_height)
       part_height = total_height-yOffset;
 
-    if(part_width==0)
-      part_width = total_width;
-    view_width = part_width;
+    if(part_width<=0 || part_height<=0)
+      throw std::runtime_error("The requested part of '"+filename+"' lies outside the file!");
 
-    if(part_height==0)
-      part_height = total_height;
+    view_width  = part_width;
     view_height = part_height;
 
     view_xoff = xOffset;
diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index eb3c0b5..58141d1 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -42,19 +42,15 @@ void LoadGDAL(
   arr.setNoData((T)band->GetNoDataValue());
 
   //Ensure that the block we're grabbing doesn't extend outside the data
-  if(xOffset+part_width>=total_width)
+  if(xOffset>=total_width || yOffset>=total_height)
+    throw std::runtime_error("The requested part of '"+filename+"' lies outside the file!");
+  if(part_width==0 || xOffset+part_width>=total_width)
     part_width  = total_width-xOffset;
-  if(yOffset+part_height>=total_height)
+  if(part_height==0 || yOffset+part_height>=total_height)
     part_height = total_height-yOffset;
 
-  uint64_t view_width, view_height;
-  if(part_width==0)
-    part_width = total_width;
-  view_width = part_width;
-
-  if(part_height==0)
-    part_height = total_height;
-  view_height = part_height;
+  const uint64_t view_width  = part_width;
+  const uint64_t view_height = part_height;
 
   T *buf;
   std::vector<T> tempbuf;
-- 
2.43.0


From 5453ccead24b10b09197eb38625f9551a28aa25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 29/90] fix: a raster without a geotransform can be cached

---
 include/richdem/common/Array2D.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 0da090f..e24bfe9 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -230,7 +230,9 @@ class Array2D {
     out.write(reinterpret_cast<const char*>(&num_data_cells), sizeof(i_t));
     out.write(reinterpret_cast<const char*>(&no_data),        sizeof(T  ));
 
-    out.write(reinterpret_cast<const char*>(geotransform.data()), 6*sizeof(double));
+    const uint8_t geotransform_size = geotransform.size(); //0 or 6
+    out.write(reinterpret_cast<const char*>(&geotransform_size), sizeof(uint8_t));
+    out.write(reinterpret_cast<const char*>(geotransform.data()), geotransform_size*sizeof(double));
     std::string::size_type projection_size = projection.size();
     out.write(reinterpret_cast<const char*>(&projection_size), sizeof(std::string::size_type));
     out.write(reinterpret_cast<const char*>(projection.data()), projection.size()*sizeof(const char));
@@ -264,8 +266,10 @@ class Array2D {
     in.read(reinterpret_cast<char*>(&view_yoff),      sizeof(xy_t));
     in.read(reinterpret_cast<char*>(&num_data_cells), sizeof(i_t));
     in.read(reinterpret_cast<char*>(&no_data),        sizeof(T  ));
-    geotransform.resize(6);
-    in.read(reinterpret_cast<char*>(geotransform.data()), 6*sizeof(double));
+    uint8_t geotransform_size = 0;
+    in.read(reinterpret_cast<char*>(&geotransform_size), sizeof(uint8_t));
+    geotransform.resize(geotransform_size);
+    in.read(reinterpret_cast<char*>(geotransform.data()), geotransform_size*sizeof(double));
 
     std::string::size_type projection_size;
     in.read(reinterpret_cast<char*>(&projection_size), sizeof(std::string::size_type));
-- 
2.43.0


From a03e53cb37b529d69750519509c57f085c06469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 30/90] fix: a failed write of a cache file is reported

---
 include/richdem/common/Array2D.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index e24bfe9..457b283 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -223,6 +223,9 @@ class Array2D {
       auto &out = fout;
     #endif
 
+    if(!empty())
+      countDataCells(); //The stored count must be that of the data saved
+
     out.write(reinterpret_cast<const char*>(&view_height),    sizeof(xy_t));
     out.write(reinterpret_cast<const char*>(&view_width),     sizeof(xy_t));
     out.write(reinterpret_cast<const char*>(&view_xoff),      sizeof(xy_t));
@@ -238,6 +241,13 @@ class Array2D {
     out.write(reinterpret_cast<const char*>(projection.data()), projection.size()*sizeof(const char));
 
     out.write(reinterpret_cast<const char*>(_data.data()), size()*sizeof(T));
+
+    #ifdef WITH_COMPRESSION
+      out.reset(); //Finishes the compressed stream
+    #endif
+    fout.flush();
+    if(!fout.good())
+      throw std::runtime_error("Failed to write cache file '"+filename+"'!");
   }
 
  private:
-- 
2.43.0


From 6b9f61b061bb7837b8b7ffbe356e6f043b42384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 31/90] fix: a damaged cache file is refused rather than read
 as data

---
 include/richdem/common/Array2D.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 457b283..73987b7 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -278,11 +278,27 @@ class Array2D {
     in.read(reinterpret_cast<char*>(&no_data),        sizeof(T  ));
     uint8_t geotransform_size = 0;
     in.read(reinterpret_cast<char*>(&geotransform_size), sizeof(uint8_t));
+    if(!in.good() || view_height<0 || view_width<0 || (geotransform_size!=0 && geotransform_size!=6))
+      throw std::runtime_error("Native file '" + input_filename + "' is damaged!");
     geotransform.resize(geotransform_size);
     in.read(reinterpret_cast<char*>(geotransform.data()), geotransform_size*sizeof(double));
 
-    std::string::size_type projection_size;
+    std::string::size_type projection_size = 0;
     in.read(reinterpret_cast<char*>(&projection_size), sizeof(std::string::size_type));
+    if(!in.good())
+      throw std::runtime_error("Native file '" + input_filename + "' is damaged!");
+
+    #ifndef WITH_COMPRESSION
+      //Ensure that the file holds just what its header promises
+      const uint64_t header_end = fin.tellg();
+      fin.seekg(0, std::ios::end);
+      const uint64_t available  = (uint64_t)fin.tellg()-header_end;
+      fin.seekg(header_end);
+      const uint64_t cells = (uint64_t)view_width*(uint64_t)view_height;
+      if(projection_size>available || cells>available/sizeof(T) || projection_size+cells*sizeof(T)!=available)
+        throw std::runtime_error("Native file '" + input_filename + "' is damaged!");
+    #endif
+
     projection.resize(projection_size,' ');
     in.read(reinterpret_cast<char*>(&projection[0]), projection.size()*sizeof(char));
 
@@ -290,6 +306,9 @@ class Array2D {
       resize(view_width,view_height);
       in.read(reinterpret_cast<char*>(_data.data()), size()*sizeof(T));
     }
+
+    if(!in.good())
+      throw std::runtime_error("Native file '" + input_filename + "' is damaged!");
   }
 
  public:
-- 
2.43.0


From 1378fd6ca53b02d39984d8faad896c4fe4cf22cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 32/90] fix: write errors that GDAL meets on closing a file are
 reported

---
 include/richdem/common/Array2D.hpp | 4 ++++
 include/richdem/common/loaders.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 73987b7..456f3ee 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -1220,7 +1220,11 @@ class Array2D {
     if(temp!=CE_None)
       throw std::runtime_error("Error writing file with saveGDAL()!");
 
+    //Much of the writing happens only now
+    CPLErrorReset();
     GDALClose(fout);
+    if(CPLGetLastErrorType()>=CE_Failure)
+      throw std::runtime_error("Error writing file '"+input_filename+"' with saveGDAL(): "+CPLGetLastErrorMsg());
   }
   #endif
 
diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index 58141d1..0c6bf8c 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -194,7 +194,11 @@ void SaveGDAL(const Array2D<T> &arr, const std::string &filename, const std::str
   if(temp!=CE_None)
     throw std::runtime_error("Error writing file with saveGDAL()!");
 
+  //Much of the writing happens only now
+  CPLErrorReset();
   GDALClose(fout);
+  if(CPLGetLastErrorType()>=CE_Failure)
+    throw std::runtime_error("Error writing file '"+filename+"' with SaveGDAL(): "+CPLGetLastErrorMsg());
 }
 
 #endif
-- 
2.43.0


From 0316e24d2b4fa28218555da185defd0694e679fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 33/90] fix: a raster's cache flag is never left undetermined

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 456f3ee..2959b64 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -126,7 +126,7 @@ class Array2D {
 
   ///If TRUE, loadData() loads data from the cache assuming  the Native format.
   ///Otherwise, it assumes it is loading from a GDAL file.
-  bool from_cache;
+  bool from_cache = false;
 
   #ifdef USEGDAL
   ///TODO
-- 
2.43.0


From 5997a724c8d07b9df53aa25c63a04e8d01b3c0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 34/90] fix: raster sizes beyond 2^31 cells no longer overflow

---
 include/richdem/common/Array2D.hpp | 2 +-
 include/richdem/common/Array3D.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 2959b64..a6ad890 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -521,7 +521,7 @@ class Array2D {
   const T* data() const { return _data.data(); }
 
   ///@brief Number of cells in the DEM
-  i_t size() const { return view_width*view_height; }
+  i_t size() const { return (i_t)view_width*(i_t)view_height; }
 
   ///Width of the raster
   xy_t width() const { return view_width; }
diff --git a/include/richdem/common/Array3D.hpp b/include/richdem/common/Array3D.hpp
index 01805d9..929f73f 100644
--- a/include/richdem/common/Array3D.hpp
+++ b/include/richdem/common/Array3D.hpp
@@ -116,7 +116,7 @@ class Array3D {
     @param[in] height  Height of the data
   */
   Array3D(T *data0, const xy_t width, const xy_t height) : Array3D() {
-    data        = ManagedVector<T>(data0, 9*width*height);
+    data        = ManagedVector<T>(data0, (i_t)9*(i_t)width*(i_t)height);
     view_width  = width;
     view_height = height;
   }
@@ -165,7 +165,7 @@ class Array3D {
   T* getData() { return data.data(); }
 
   ///@brief Number of cells in the DEM
-  i_t size() const { return view_width*view_height; }
+  i_t size() const { return (i_t)view_width*(i_t)view_height; }
 
   ///Width of the raster
   xy_t width() const { return view_width; }
-- 
2.43.0


From 7ae55a96d69fc4f247e2cbf0a72cfb40e34983cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 35/90] fix: SaveGDAL creates a file of the unpadded raster's
 size

---
 include/richdem/common/loaders.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index 0c6bf8c..abca4e2 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -102,7 +102,7 @@ void SaveGDAL(const Array2D<T> &arr, const std::string &filename, const std::str
   GDALDriver *poDriver = GetGDALDriverManager()->GetDriverByName("GTiff");
   if(poDriver==NULL)
     throw std::runtime_error("Could not open GDAL driver!");
-  GDALDataset *fout    = poDriver->Create(filename.c_str(), arr.width(), arr.height(), 1, NativeTypeToGDAL<T>(), papszOptions);
+  GDALDataset *fout    = poDriver->Create(filename.c_str(), arr.width()-2*padx, arr.height()-2*pady, 1, NativeTypeToGDAL<T>(), papszOptions);
   if(fout==NULL)
     throw std::runtime_error("Could not open file '"+filename+"' for GDAL save!");
 
-- 
2.43.0


From 178ee6038faec6991422ebe4029b78d0d0435670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 36/90] fix: a period in a directory's name is not taken for a
 file extension

---
 include/richdem/common/Layoutfile.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/Layoutfile.hpp b/include/richdem/common/Layoutfile.hpp
index 7fe032c..eb18153 100644
--- a/include/richdem/common/Layoutfile.hpp
+++ b/include/richdem/common/Layoutfile.hpp
@@ -55,7 +55,8 @@ static std::string trimStr(std::string const& str){
 static std::string GetBaseName(std::string filename){
   auto last_slash  = filename.find_last_of(RICHDEM_SLASH_CHAR);
   auto last_period = filename.find_last_of(".");
-  if(last_period!=std::string::npos)
+  //A period in the path does not begin an extension
+  if(last_period!=std::string::npos && (last_slash==std::string::npos || last_period>last_slash))
     filename.replace(last_period, std::string::npos, "");
   if(last_slash!=std::string::npos)
     filename.replace(0,last_slash+1,"");
@@ -238,7 +239,7 @@ class LayoutfileWriter {
     std::size_t last_period = layout_filename.find_last_of(".");
     if(last_slash!=std::string::npos)
       path = layout_filename.substr(0,last_slash+1);
-    if(last_period!=std::string::npos)
+    if(last_period!=std::string::npos && (last_slash==std::string::npos || last_period>last_slash))
       layout_filename.replace(last_period+1, std::string::npos, "layout");
 
     flout.open(layout_filename);
-- 
2.43.0


From 0bda4f7694dfc563ac7391caed8a378d9e16d24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 37/90] fix: a layout file's last column is kept even if it is
 blank in every row

---
 include/richdem/common/Layoutfile.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/richdem/common/Layoutfile.hpp b/include/richdem/common/Layoutfile.hpp
index eb18153..b653685 100644
--- a/include/richdem/common/Layoutfile.hpp
+++ b/include/richdem/common/Layoutfile.hpp
@@ -126,6 +126,9 @@ class LayoutfileReader {
         //Add the item to the row, trimming off the whitespace
         fgrid.back().push_back(trimStr(item));
       }
+      //A comma at the end of the line is followed by a blank
+      if(!row.empty() && row.back()==',')
+        fgrid.back().emplace_back();
     }
     //If we break out of the above loop but haven't reached eof(), then
     //something went wrong.
-- 
2.43.0


From d2bc359a40284ae63735c28154e9f9bce3da2533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 38/90] fix: an empty layout file is refused and empty lines
 are blanks

---
 include/richdem/common/Layoutfile.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Layoutfile.hpp b/include/richdem/common/Layoutfile.hpp
index b653685..db48e83 100644
--- a/include/richdem/common/Layoutfile.hpp
+++ b/include/richdem/common/Layoutfile.hpp
@@ -136,7 +136,9 @@ class LayoutfileReader {
       throw std::runtime_error("Failed to read the entire layout file!");
 
     //Let's find the longest row
-    auto max_row_length = fgrid.front().size();
+    if(fgrid.empty())
+      throw std::runtime_error("The layout file '"+layout_filename+"' is empty!");
+    std::size_t max_row_length = 1; //An empty line is a single blank
     for(const auto &row: fgrid)
       max_row_length = std::max(max_row_length,row.size());
 
-- 
2.43.0


From 0844e29ff4545983d463a15c249e33f0173f82ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 39/90] fix: LRU no longer compares with an undetermined or
 already evicted item

---
 include/richdem/tiled/lru.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/richdem/tiled/lru.hpp b/include/richdem/tiled/lru.hpp
index a81faf7..4421f18 100644
--- a/include/richdem/tiled/lru.hpp
+++ b/include/richdem/tiled/lru.hpp
@@ -19,7 +19,6 @@ class LRU {
   typedef std::list<T> cachetype; ///< Container used for storage by the cache
   int len;                        ///< Number of items in the cache
   int maxlen;                     ///< Maximum size the cache is allowed to be
-  T   last;                       ///< Copy of the last inserted item. Speeds up insertion. TODO: This'd be better as a pointer
   std::unordered_map<T, typename std::list<T>::iterator> visited; ///< Used for O(1) access to members
 
  public:
@@ -39,9 +38,8 @@ class LRU {
   ///
   ///@param entry The item to add to the queue.
   void insert(const T &entry){
-    //Used to quickly move on if we've seen this item before (TODO: Should use a
-    //pointer in case T is not a POD.)
-    if(entry==last)
+    //Used to quickly move on if the item is already at the front of the queue
+    if(!cache.empty() && entry==cache.front())
       return;
 
     if(visited.count(entry)){                     //Item is already in the queue
@@ -52,8 +50,6 @@ class LRU {
       visited[entry] = cache.begin();             //Make a note of its location
       len++;                                      //Queue just got bigger
     }
-
-    last = entry;                                 //Make a note of the new item
   }
 
   ///@brief Returns the number of itmes in the LRU cache
-- 
2.43.0


From 413e635c6e053be066cf024a89bfdbb0223de6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 40/90] fix: A2Array2D::saveGDAL does not construct a string
 from null nor leave tiles flipped

---
 include/richdem/tiled/A2Array2D.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 4b4654d..f54c16b 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -517,7 +517,13 @@ class A2Array2D {
         temp.replace(temp.find("%f"),2,tile.basename);
         lfout.addEntry(temp);
 
-        tile.saveGDAL(temp, 0, 0);
+        tile.saveGDAL(temp, "", 0, 0);
+
+        //Saving must not change the raster: undo the reorientation
+        if((tile.geotransform[1]<0) ^ flipH)
+          tile.flipHorz();
+        if((tile.geotransform[5]>0) ^ flipV)
+          tile.flipVert();
       }
     }
 
-- 
2.43.0


From 7b14d280e71b69a631a4eda2f2e26cb4331ee67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 41/90] fix: a tiled raster created from dimensions knows which
 tiles it has

---
 include/richdem/tiled/A2Array2D.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index f54c16b..b4d8604 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -244,6 +244,11 @@ class A2Array2D {
         data.back().back().created  = false;
       }
     }
+
+    not_null_tiles        = width*height;
+    quick_width_in_tiles  = width;
+    quick_height_in_tiles = height;
+    null_tile_quick.resize(quick_width_in_tiles*quick_height_in_tiles, false);
   }
 
   template<class U>
@@ -262,6 +267,7 @@ class A2Array2D {
     quick_width_in_tiles  = other.quick_width_in_tiles;
     quick_height_in_tiles = other.quick_height_in_tiles;
     null_tile_quick       = other.null_tile_quick;
+    not_null_tiles        = other.not_null_tiles;
 
     for(int32_t y=0;y<other.heightInTiles();y++){
       data.emplace_back();
-- 
2.43.0


From 4e98ce5e1485066b5a353d9b28d17a37fc8cb8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 42/90] fix: a tiled raster's NoData value survives the
 eviction of its tiles

---
 include/richdem/tiled/A2Array2D.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index b4d8604..ce6e483 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -128,7 +128,9 @@ class A2Array2D {
     }
 
     if(tile.created){
+      const T tile_no_data = tile.noData(); //May have changed since the tile was evicted
       tile.loadData();
+      tile.setNoData(tile_no_data);
       tile.printStamp(5,"Tile load, before reorientating"); //Print stamp before reorientating since this must match parallel_pf.exe
       if(readonly){
         if((tile.geotransform[1]<0) ^ flipH)
-- 
2.43.0


From 79311aaa4d24091eb0afe1ff81d78a2449b707b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:31 +0000
Subject: [PATCH 43/90] fix: null tiles read as the raster's NoData value

---
 include/richdem/tiled/A2Array2D.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index ce6e483..c913b6b 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -158,6 +158,7 @@ class A2Array2D {
     lru.setCapacity(cachesize);
     readonly = true;
 
+    T raster_no_data = -1;
     LayoutfileReader lf(layoutfile);
     while(lf.next()){
       if(lf.newRow()) //Add a row to the grid of chunks
@@ -190,6 +191,9 @@ class A2Array2D {
       cells_in_not_null_tiles += per_tile_width*per_tile_height;
 
       this_tile.basename = lf.getBasename();
+
+      if(not_null_tiles==1) //Null tiles read as the NoData value of the first tile
+        raster_no_data = this_tile.noData();
     }
 
     quick_width_in_tiles  = widthInTiles();
@@ -200,8 +204,10 @@ class A2Array2D {
     for(int32_t ty=0;ty<heightInTiles();ty++)
     for(int32_t tx=0;tx<widthInTiles();tx++){
       null_tile_quick[ty*quick_width_in_tiles+tx] = data[ty][tx].null_tile;
-      if(data[ty][tx].null_tile)
+      if(data[ty][tx].null_tile){
+        data[ty][tx].setNoData(raster_no_data);
         continue;
+      }
       if(data[ty][tx].width()!=per_tile_width){
         RDLOG_WARN<<data[ty][tx].filename<<" has a non-standard width. Found "<<data[ty][tx].width()<<" expected "<<per_tile_width<<".";
         good = false;
@@ -584,8 +590,7 @@ class A2Array2D {
   void setNoData(const T &ndval){
     for(auto &row: data)
     for(auto &tile: row)
-      if(!tile.null_tile)
-        tile.setNoData(ndval);
+      tile.setNoData(ndval);
   }
 
   int32_t getEvictions() const {
-- 
2.43.0


From 236d8f8475d54c1d4636a81869af7584c894941a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:31 +0000
Subject: [PATCH 44/90] fix: a tiled raster whose first tile is null can be
 saved whole

---
 include/richdem/tiled/A2Array2D.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index c913b6b..402d95f 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -558,13 +558,27 @@ class A2Array2D {
       if(data[ty][tx].noData()!=no_data)
         throw std::runtime_error("Files had differing NoData values :-(");
 
-    auto out_geotransform = data[0][0].geotransform;
+    //The first tile there is positions the raster
+    std::vector<double> out_geotransform;
+    std::string out_projection;
+    for(int32_t ty=0;ty<heightInTiles();ty++)
+    for(int32_t tx=0;tx<widthInTiles();tx++){
+      const auto &tile = data[ty][tx];
+      if(tile.null_tile || !out_geotransform.empty())
+        continue;
+      out_geotransform = tile.geotransform;
+      out_projection   = tile.projection;
+      if(out_geotransform.size()==6){
+        out_geotransform[0] -= tx*stdTileWidth()*out_geotransform[1]+ty*stdTileHeight()*out_geotransform[2];
+        out_geotransform[3] -= tx*stdTileWidth()*out_geotransform[4]+ty*stdTileHeight()*out_geotransform[5];
+      }
+    }
 
     if(out_geotransform.size()!=6)
       throw std::runtime_error("Geotransform of output is not the right size. Found "+std::to_string(out_geotransform.size())+" expected 6.");
 
     fout->SetGeoTransform(out_geotransform.data());
-    fout->SetProjection(data[0][0].projection.c_str());
+    fout->SetProjection(out_projection.c_str());
 
     GDALRasterBand *oband = fout->GetRasterBand(1);
     oband->SetNoDataValue(no_data);
-- 
2.43.0


From 24169a3d6d8b7736e092fe33faab01c4b2ef9e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:30 +0000
Subject: [PATCH 45/90] fix: CommRecv receives the message it probed

---
 include/richdem/common/communication.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/communication.hpp b/include/richdem/common/communication.hpp
index a44aa49..eb57220 100644
--- a/include/richdem/common/communication.hpp
+++ b/include/richdem/common/communication.hpp
@@ -139,7 +139,9 @@ void CommRecv(T* a, U* b, int from){
   char* buf = (char*)malloc(msg_size);
   assert(buf!=NULL);
 
-  MPI_Recv(buf, msg_size, MPI_BYTE, from, MPI_ANY_TAG, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
+  // Receive the very message that was probed: with wildcards, another sender's
+  // message could be received into this buffer
+  MPI_Recv(buf, msg_size, MPI_BYTE, status.MPI_SOURCE, status.MPI_TAG, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
 
   bytes_recv += msg_size;
 
-- 
2.43.0


From ad6802b23e4596eaf19e8f2c4044897d2ccc5d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 46/90] fix: parallel Priority-Flood caches labels in a file of
 their own

---
 programs/parallel_priority_flood/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index fe73795..9b7dfcc 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -244,7 +244,7 @@ class ConsumerSpecifics {
   void SaveToCache(const TileInfo &tile){
     timer_io.start();
     dem.setCacheFilename(tile.retention+"dem.dat");
-    labels.setCacheFilename(tile.retention+"dem.dat");
+    labels.setCacheFilename(tile.retention+"labels.dat");
     dem.dumpData();
     labels.dumpData();
     timer_io.stop();
-- 
2.43.0


From cfb7862c78cb3e8c94d2083aef8bd8c076dfc65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 47/90] fix: consumers receive the message that tells them to
 quit

---
 programs/parallel_d8_accum/main.cpp       | 4 +++-
 programs/parallel_priority_flood/main.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index a3840c6..372fe39 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -935,8 +935,10 @@ void Consumer(){
     int the_job = CommGetTag(0);
 
     //This message indicates that everything is done and the Consumer should shut
-    //down.
+    //down. It must be received, since the Producer may wait for that.
     if(the_job==SYNC_MSG_KILL){
+      int temp;
+      CommRecv(&temp, nullptr, 0);
       return;
 
     //This message indicates that the consumer should prepare to perform the
diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index 9b7dfcc..f42f7ec 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -613,8 +613,10 @@ void Consumer(){
     int the_job = CommGetTag(0);
 
     //This message indicates that everything is done and the Consumer should shut
-    //down.
+    //down. It must be received, since the Producer may wait for that.
     if(the_job==SYNC_MSG_KILL){
+      int temp;
+      CommRecv(&temp, nullptr, 0);
       return;
 
     //This message indicates that the consumer should prepare to perform the
-- 
2.43.0


From 7046d55b7a0642fa6b58af898d90aea81059b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 48/90] fix: every tile beside an absent one is treated as
 having an edge there

---
 programs/parallel_priority_flood/main.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index f42f7ec..e87eb32 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -966,13 +966,13 @@ void Preparer(
     for(int x=0;x<(int)tiles[0].size();x++){
       if(tiles[y][x].nullTile)
         continue;
-      if(y-1>0 && x>0 && tiles[y-1][x].nullTile)
+      if(y>0 && tiles[y-1][x].nullTile)
         tiles[y][x].edge |= GRID_TOP;
-      if(y+1<(int)tiles.size() && x>0 && tiles[y+1][x].nullTile)
+      if(y+1<(int)tiles.size() && tiles[y+1][x].nullTile)
         tiles[y][x].edge |= GRID_BOTTOM;
-      if(y>0 && x-1>0 && tiles[y][x-1].nullTile)
+      if(x>0 && tiles[y][x-1].nullTile)
         tiles[y][x].edge |= GRID_LEFT;
-      if(y>0 && x+1<(int)tiles[0].size() && tiles[y][x+1].nullTile)
+      if(x+1<(int)tiles[0].size() && tiles[y][x+1].nullTile)
         tiles[y][x].edge |= GRID_RIGHT;
     }
 
-- 
2.43.0


From 7319f7d381be22c626a07067a72917c412513111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 49/90] fix: parallel Priority-Flood lists its outputs in the
 layout file in <one> mode

---
 programs/parallel_priority_flood/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index e87eb32..c01c351 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -1006,6 +1006,7 @@ void Preparer(
     //TODO: Avoid creating extremely narrow or small strips
     for(int32_t y=0,gridy=0;y<total_height; y+=bheight, gridy++){
       tiles.emplace_back(std::vector<TileInfo>());
+      lfout.addRow();
       for(int32_t x=0,gridx=0;x<total_width;x+=bwidth,  gridx++){
         if(total_height-y<100){
           std::cerr<<"At least one tile is <100 cells in height. Please change rectangle size to avoid this!"<<std::endl;
@@ -1041,6 +1042,8 @@ void Preparer(
         }
         this_output_name.replace(this_output_name.find("%n"),2,coord_string);
 
+        lfout.addEntry(this_output_name);
+
         tiles.back().emplace_back(
           input_file,
           this_output_name,
-- 
2.43.0


From 600232373cd540ea132adf5f3a7a7047f4cfccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 50/90] fix: tiles that touch an absent tile at a corner drain
 to it

---
 programs/parallel_priority_flood/main.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index c01c351..29e02ae 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -469,6 +469,16 @@ class ProducerSpecifics {
         HandleEdge(c.right_elev, jobs1[y][x+1].left_elev,  c.right_label, jobs1[y][x+1].left_label,  mastergraph, tiles[y][x].label_offset, tiles[y][x+1].label_offset);
 
 
+      //A corner that touches an absent tile drains to it, like the tile's edges
+      //which adjoin absent tiles. (Off-grid corners are covered by the edges.)
+      const auto absent = [&](const int ty, const int tx){
+        return ty>=0 && tx>=0 && ty<gridheight && tx<gridwidth && tiles[ty][tx].nullTile;
+      };
+      if(absent(y-1,x-1)) HandleCorner(c.top_elev.front(), c.top_elev.front(), c.top_label.front(), 1, mastergraph, tiles[y][x].label_offset, 0);
+      if(absent(y+1,x+1)) HandleCorner(c.bot_elev.back(),  c.bot_elev.back(),  c.bot_label.back(),  1, mastergraph, tiles[y][x].label_offset, 0);
+      if(absent(y-1,x+1)) HandleCorner(c.top_elev.back(),  c.top_elev.back(),  c.top_label.back(),  1, mastergraph, tiles[y][x].label_offset, 0);
+      if(absent(y+1,x-1)) HandleCorner(c.bot_elev.front(), c.bot_elev.front(), c.bot_label.front(), 1, mastergraph, tiles[y][x].label_offset, 0);
+
       //I wish I had wrote it all in LISP.
       //Top left
       if(y>0 && x>0                      && !tiles[y-1][x-1].nullTile)
-- 
2.43.0


From aca3feb7731358b4d088993504a05d8974962381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 51/90] fix: parallel D8 accumulation works with tiles that are
 a single cell high or wide

---
 programs/parallel_d8_accum/main.cpp       | 11 +++++------
 programs/parallel_d8_accum/perimeters.hpp | 12 ++++++++----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index 372fe39..65802c8 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -510,9 +510,9 @@ class ConsumerSpecifics {
   }
 
   void FirstRound(const TileInfo &tile, Job1<T> &job1){
-    //-2 removes duplicate cells on vertical edges which would otherwise
-    //overlap horizontal edges
-    links.resize(2*flowdirs.width()+2*(flowdirs.height()-2), FLOW_TERMINATES);
+    //There is one link per perimeter cell
+    GridPerimToArray(flowdirs, job1.flowdirs);
+    links.resize(job1.flowdirs.size(), FLOW_TERMINATES);
 
     //The following considers corner cells more than once. That's okay, though:
     //the repeated effort merely produces the same results in the same places
@@ -546,9 +546,8 @@ class ConsumerSpecifics {
 
     job1.links = std::move(links);
 
-    //Construct output arrays
-    GridPerimToArray(flowdirs, job1.flowdirs);
-    GridPerimToArray(accum,    job1.accum   );
+    //Construct output array
+    GridPerimToArray(accum, job1.accum);
     timer_calc.stop();
   }
 
diff --git a/programs/parallel_d8_accum/perimeters.hpp b/programs/parallel_d8_accum/perimeters.hpp
index e5a21ac..8c783a4 100644
--- a/programs/parallel_d8_accum/perimeters.hpp
+++ b/programs/parallel_d8_accum/perimeters.hpp
@@ -53,9 +53,13 @@ void GridPerimToArray(const richdem::Array2D<U> &grid, std::vector<U> &vec){
   vec2copy = grid.getColData(grid.width()-1);        //Right
   vec.insert(vec.end(),vec2copy.begin()+1,vec2copy.end());
 
-  vec2copy = grid.getRowData(grid.height()-1);       //Bottom
-  vec.insert(vec.end(),vec2copy.begin(),vec2copy.end()-1);
+  if(grid.height()>1){ //Otherwise, the bottom row is the top row
+    vec2copy = grid.getRowData(grid.height()-1);       //Bottom
+    vec.insert(vec.end(),vec2copy.begin(),vec2copy.end()-1);
+  }
 
-  vec2copy = grid.getColData(0);                         //Left
-  vec.insert(vec.end(),vec2copy.begin()+1,vec2copy.end()-1);
+  if(grid.width()>1 && grid.height()>1){ //Otherwise, the left column is covered
+    vec2copy = grid.getColData(0);                       //Left
+    vec.insert(vec.end(),vec2copy.begin()+1,vec2copy.end()-1);
+  }
 }
\ No newline at end of file
-- 
2.43.0


From 0b6d9bdcda3f3a6ae7a9657fcd4d9fa37b4e89e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:42 +0000
Subject: [PATCH 52/90] fix: flow passing diagonally between tiles is kept next
 to absent tiles

---
 programs/parallel_d8_accum/main.cpp | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index 65802c8..ded767f 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -1274,21 +1274,8 @@ void Preparer(
     std::cerr<<"m Total cells to be processed = "<<cell_count<<std::endl;
     std::cerr<<"m Number of tiles which were not null = "<<not_null_tiles<<std::endl;
 
-    //nullTiles imply that the tiles around them have edges, as though they
-    //are on the edge of the raster.
-    for(int y=0;y<(int)tiles.size();y++)
-    for(int x=0;x<(int)tiles[0].size();x++){
-      if(tiles[y][x].nullTile)
-        continue;
-      if(y-1>0 && x>0 && tiles[y-1][x].nullTile)
-        tiles[y][x].edge |= GRID_TOP;
-      if(y+1<(int)tiles.size() && x>0 && tiles[y+1][x].nullTile)
-        tiles[y][x].edge |= GRID_BOTTOM;
-      if(y>0 && x-1>0 && tiles[y][x-1].nullTile)
-        tiles[y][x].edge |= GRID_LEFT;
-      if(y>0 && x+1<(int)tiles[0].size() && tiles[y][x+1].nullTile)
-        tiles[y][x].edge |= GRID_RIGHT;
-    }
+    //Nothing flows in from a null tile, but the sides next to one are not marked
+    //as being edges: their corner cells may exchange flow with diagonal tiles.
 
   } else if(many_or_one=="one") {
     int32_t total_height;
-- 
2.43.0


From 65bb019717f3e508e8c559ad79c1ee95c52ab7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:34 +0000
Subject: [PATCH 53/90] fix: the library compiles with assertions enabled

---
 include/richdem/flowmet/OCallaghan1984.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/flowmet/OCallaghan1984.hpp b/include/richdem/flowmet/OCallaghan1984.hpp
index 9bb8aaf..5d2098e 100644
--- a/include/richdem/flowmet/OCallaghan1984.hpp
+++ b/include/richdem/flowmet/OCallaghan1984.hpp
@@ -71,7 +71,7 @@ void FM_OCallaghan(
 
     props(x,y,0) = HAS_FLOW_GEN;
 
-    assert(elevations(ci)>=elevations(ci+elevations.nshift(steepest_n))); //Ensure flow goes downhill
+    assert(e>=elevations(x+dx[steepest_n],y+dy[steepest_n])); //Ensure flow goes downhill
 
     props(x,y,(topo==Topology::D4) ? d4_to_d8[steepest_n] : steepest_n) = 1;
   }
-- 
2.43.0


From ca5b20bed2fc591ef30aa55699caf0fca3a631ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 54/90] fix: merging disjoint sets by any of their members
 keeps the sets whole

---
 include/richdem/common/disjoint_dense_int_set.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/richdem/common/disjoint_dense_int_set.hpp b/include/richdem/common/disjoint_dense_int_set.hpp
index 632c091..42dc634 100644
--- a/include/richdem/common/disjoint_dense_int_set.hpp
+++ b/include/richdem/common/disjoint_dense_int_set.hpp
@@ -130,6 +130,11 @@ class DisjointDenseIntSet {
   void mergeAintoB(unsigned int a, unsigned int b){
     checkSize(a);
     checkSize(b);
+    //The whole of A's set is merged into the whole of B's
+    a = findSet(a);
+    b = findSet(b);
+    if(a==b)
+      return;
     parent[a] = b;
     if(rank[a]==rank[b]){
       rank[b]++;
-- 
2.43.0


From 0ee32ff50eab508dab1001372ad8bce7638beef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 55/90] fix: radix_heap::min() does not return keys that were
 popped

---
 include/richdem/common/radix_heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/richdem/common/radix_heap.hpp b/include/richdem/common/radix_heap.hpp
index 774f41f..43ab395 100644
--- a/include/richdem/common/radix_heap.hpp
+++ b/include/richdem/common/radix_heap.hpp
@@ -229,6 +229,7 @@ class radix_heap {
   void pull() {
     assert(size_ > 0);
     if (!buckets_[0].empty()) return;
+    buckets_min_[0] = std::numeric_limits<unsigned_key_type>::max();
 
     const size_t i = bucket_flags_.find_first_non_empty();
     last_ = buckets_min_[i];
-- 
2.43.0


From b2fe668baee6983aca34b5e13011376d77cd7c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 56/90] fix: equally high cells keep their order after 2^31
 insertions

---
 include/richdem/common/grid_cell.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/richdem/common/grid_cell.hpp b/include/richdem/common/grid_cell.hpp
index 6a8dfaf..07b8052 100644
--- a/include/richdem/common/grid_cell.hpp
+++ b/include/richdem/common/grid_cell.hpp
@@ -10,6 +10,7 @@
 #include <vector>
 #include <queue>
 #include <cmath>
+#include <cstdint>
 #include <functional>
 
 namespace richdem {
@@ -73,8 +74,8 @@ struct GridCellZ<float>: public GridCell {
 ///@brief Stores the (x,y,z) coordinates of a grid cell and a priority indicator k; used by \ref GridCellZk_pq to return cells in order of elevation from lowest to highest. If elevations are equal then the cell added first is popped from the priority queue.
 template<class elev_t>
 struct GridCellZk_low : public GridCellZ<elev_t> {
-    int k;           ///< Used to store an integer to make sorting stable
-    GridCellZk_low(int x0, int y0, elev_t z0, int k0): GridCellZ<elev_t>(x0,y0,z0), k(k0) {}
+    uint64_t k;      ///< Used to store an integer to make sorting stable
+    GridCellZk_low(int x0, int y0, elev_t z0, uint64_t k0): GridCellZ<elev_t>(x0,y0,z0), k(k0) {}
     GridCellZk_low() = default;
     //TODO: Is it possible to do this relying on inheriting the std::isnan checks from the GridCellZ specialization?
     bool operator> (const GridCellZk_low<elev_t>& a) const { return GridCellZk_low<elev_t>::z> a.z || (!GridCellZk_low<elev_t>::isnan() &&  a.isnan()) || (GridCellZk_low<elev_t>::z==a.z && k>a.k) || (GridCellZk_low<elev_t>::isnan() && a.isnan() && k>a.k); }
@@ -83,8 +84,8 @@ struct GridCellZk_low : public GridCellZ<elev_t> {
 ///@brief Stores the (x,y,z) coordinates of a grid cell and a priority indicator k; used by \ref GridCellZk_pq to return cells in order of elevation from lowest to highest. If elevations are equal then the cell added last is popped from the priority queue.
 template<class elev_t>
 struct GridCellZk_high : public GridCellZ<elev_t> {
-    int k;           ///< Used to store an integer to make sorting stable
-    GridCellZk_high(int x0, int y0, elev_t z0, int k0): GridCellZ<elev_t>(x0,y0,z0), k(k0) {}
+    uint64_t k;      ///< Used to store an integer to make sorting stable
+    GridCellZk_high(int x0, int y0, elev_t z0, uint64_t k0): GridCellZ<elev_t>(x0,y0,z0), k(k0) {}
     GridCellZk_high(){}
     //TODO: Is it possible to do this relying on inheriting the std::isnan checks from the GridCellZ specialization?
     bool operator> (const GridCellZk_high<elev_t>& a) const { return GridCellZk_high<elev_t>::z> a.z || (!GridCellZk_high<elev_t>::isnan() &&  a.isnan()) || (GridCellZk_high<elev_t>::z==a.z && k<a.k) || (GridCellZk_high<elev_t>::isnan() && a.isnan() && k<a.k); }
-- 
2.43.0


From 62aa0c78f6bef131cb10c77719d120c1166bfa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 57/90] fix: seeding the random engines depends on the whole
 seed in every thread

---
 src/random.cpp | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/random.cpp b/src/random.cpp
index 74c0f8c..df0cbcb 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -9,6 +9,7 @@
 #include <limits>
 #include <random>
 #include <sstream>
+#include <vector>
 
 namespace richdem {
 
@@ -20,27 +21,35 @@ static int rd_get_thread_num(){
   #endif
 }
 
-our_random_engine& rand_engine(){
+static std::array<our_random_engine, PRNG_THREAD_MAX>& rand_engines(){
   static std::array<our_random_engine, PRNG_THREAD_MAX> e;
-  return e[rd_get_thread_num()];
+  return e;
+}
+
+our_random_engine& rand_engine(){
+  return rand_engines()[rd_get_thread_num()];
 }
 
 
 //Be sure to read: http://www.pcg-random.org/posts/cpp-seeding-surprises.html
 //and http://www.pcg-random.org/posts/cpps-random_device.html
 void seed_rand(uint64_t seed){
-  #pragma omp parallel default(none) shared(seed) //All threads must come here
-  {
-    #pragma omp critical    //But only one at a time
-    if(seed==0){
-      std::array<std::uint_least32_t, std::mt19937::state_size> seed_data;
-      std::random_device r;
-      std::generate_n(seed_data.data(), std::mt19937::state_size, std::ref(r));
-      std::seed_seq q(std::begin(seed_data), std::end(seed_data));
-      rand_engine().seed(q);
-    } else {
-      rand_engine().seed( seed*rd_get_thread_num() );
-    }
+  //Words shared by all the engines, followed by the number of the engine's thread
+  std::vector<std::uint_least32_t> seed_data;
+  if(seed==0){
+    std::random_device r;
+    seed_data.resize(std::mt19937::state_size);
+    std::generate_n(seed_data.data(), std::mt19937::state_size, std::ref(r));
+  } else {
+    seed_data = {(std::uint_least32_t)(seed & 0xFFFFFFFF), (std::uint_least32_t)(seed >> 32)};
+  }
+  seed_data.push_back(0);
+
+  //Every engine is seeded, including those of threads which do not exist yet
+  for(std::uint_least32_t t=0;t<PRNG_THREAD_MAX;t++){
+    seed_data.back() = t;
+    std::seed_seq q(std::begin(seed_data), std::end(seed_data));
+    rand_engines()[t].seed(q);
   }
 }
 
-- 
2.43.0


From 8cb327e56a8deec60714906be67daebe63673e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 58/90] fix: normal_rand() holds no number back across seeding
 or restoring the engine

---
 src/random.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/random.cpp b/src/random.cpp
index df0cbcb..3ea8143 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -69,9 +69,10 @@ double uniform_rand_real(double from, double thru){
 
 
 double normal_rand(double mean, double stddev){
-  static std::array<std::normal_distribution<double>, PRNG_THREAD_MAX> d;
-  using parm_t = std::normal_distribution<double>::param_type;
-  return d[rd_get_thread_num()]( rand_engine(), parm_t{mean, stddev} );
+  //A distribution that outlives the call would hand out a number drawn before
+  //the engine was seeded or its state restored
+  std::normal_distribution<double> d(mean, stddev);
+  return d( rand_engine() );
 }
 
 RandomEngineState SaveRandomState(){
-- 
2.43.0


From dbda0e807455ced70a4d23e1193768528cf108b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 59/90] fix: uniform_rand_real() never returns the excluded end
 of its interval

---
 src/random.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/random.cpp b/src/random.cpp
index 3ea8143..0ae1b5c 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <array>
 #include <cassert>
+#include <cmath>
 #include <cstdint>
 #include <functional>
 #include <iostream>
@@ -64,7 +65,9 @@ int uniform_rand_int(int from, int thru){
 double uniform_rand_real(double from, double thru){
   static std::array<std::uniform_real_distribution<>, PRNG_THREAD_MAX> d;
   using parm_t = std::uniform_real_distribution<>::param_type;
-  return d[rd_get_thread_num()]( rand_engine(), parm_t{from, thru} );
+  const double val = d[rd_get_thread_num()]( rand_engine(), parm_t{from, thru} );
+  //Rounding may have brought the value to the excluded end of the interval
+  return (val<thru || thru<=from) ? val : std::nextafter(thru, from);
 }
 
 
-- 
2.43.0


From 8b106dc6d407f453f2e453702c4fa710bcb5ee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 60/90] fix: drawing random numbers works with more than 32
 threads

---
 include/richdem/common/random.hpp | 2 +-
 src/random.cpp                    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/richdem/common/random.hpp b/include/richdem/common/random.hpp
index 5da13a8..ab39e22 100644
--- a/include/richdem/common/random.hpp
+++ b/include/richdem/common/random.hpp
@@ -14,7 +14,7 @@
 namespace richdem {
 
 ///Maximum number of threads this class should deal with
-#define PRNG_THREAD_MAX 32
+#define PRNG_THREAD_MAX 256
 
 typedef std::string RandomEngineState;
 
diff --git a/src/random.cpp b/src/random.cpp
index 0ae1b5c..39d96b0 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -28,7 +28,7 @@ static std::array<our_random_engine, PRNG_THREAD_MAX>& rand_engines(){
 }
 
 our_random_engine& rand_engine(){
-  return rand_engines()[rd_get_thread_num()];
+  return rand_engines().at(rd_get_thread_num());
 }
 
 
@@ -58,14 +58,14 @@ void seed_rand(uint64_t seed){
 int uniform_rand_int(int from, int thru){
   static std::array<std::uniform_int_distribution<>, PRNG_THREAD_MAX> d;
   using parm_t = std::uniform_int_distribution<>::param_type;
-  return d[rd_get_thread_num()]( rand_engine(), parm_t{from, thru} );
+  return d.at(rd_get_thread_num())( rand_engine(), parm_t{from, thru} );
 }
 
 
 double uniform_rand_real(double from, double thru){
   static std::array<std::uniform_real_distribution<>, PRNG_THREAD_MAX> d;
   using parm_t = std::uniform_real_distribution<>::param_type;
-  const double val = d[rd_get_thread_num()]( rand_engine(), parm_t{from, thru} );
+  const double val = d.at(rd_get_thread_num())( rand_engine(), parm_t{from, thru} );
   //Rounding may have brought the value to the excluded end of the interval
   return (val<thru || thru<=from) ? val : std::nextafter(thru, from);
 }
-- 
2.43.0


From c9520b0de4ca12637e5f4f97635a3605fe1123bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:05 +0000
Subject: [PATCH 61/90] fix: rd_compare does not read outside rasters of
 different sizes or confuse signed and unsigned values

---
 apps/rd_compare.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/rd_compare.cpp b/apps/rd_compare.cpp
index 73a6b0a..0343366 100644
--- a/apps/rd_compare.cpp
+++ b/apps/rd_compare.cpp
@@ -19,9 +19,12 @@ int PerformAlgorithm(Array2D<T> a, Array2D<U> b){
   if(a.height()!=b.height())
     std::cout<<"Heights differ."<<std::endl;
 
+  if(a.width()!=b.width() || a.height()!=b.height())
+    return 0; //There is no cell-by-cell correspondence between the rasters
+
   uint64_t differs = 0;
   for(uint64_t i=0;i<a.size();i++)
-    if(a(i)!=b(i))
+    if((double)a(i)!=(double)b(i)) //Every value fits in a double; comparing differing types directly would convert some
       differs++;
 
   std::cout<<"Number of values which differ = "<<differs<<std::endl;
-- 
2.43.0


From 8d34c59f7ec156d6097eeca6858f086032b2cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:05 +0000
Subject: [PATCH 62/90] fix: rd_loop_check reports the loops there are, and
 nothing else

---
 apps/rd_loop_check.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/apps/rd_loop_check.cpp b/apps/rd_loop_check.cpp
index 9f590b9..4595b3a 100644
--- a/apps/rd_loop_check.cpp
+++ b/apps/rd_loop_check.cpp
@@ -14,18 +14,13 @@ void FollowPath(
   int x = x0;
   int y = y0;
 
-  size_t path_len        = 0;
-  size_t max_path_length = flowdirs.size(); //TODO: Should this have +1?
-  max_path_length        = flowdirs.width();
+  size_t path_len              = 0;
+  const size_t max_path_length = flowdirs.size(); //A longer path must visit a cell twice
 
-  //Follow the flow path until it terminates
-  while(path_len++<max_path_length){ //Follow the flow path until we reach its end
+  //Follow the flow path until it terminates or returns to the initial cell
+  while(path_len++<max_path_length){
     const int n = flowdirs(x,y);     //Neighbour the current cell flows towards
 
-    //Show the final part of the loop path (TODO)
-    if(path_len>max_path_length-10)
-      std::cout<<x<<","<<y<<" with flowdir "<<n<<"\n";
-
     if(flowdirs.isNoData(x,y) || n==NO_FLOW)
       return;
 
@@ -35,12 +30,28 @@ void FollowPath(
     if(!flowdirs.inGrid(nx,ny))
       return;
 
+    //Each loop is shown once: starting from the first of its cells
+    if(ny<y0 || (ny==y0 && nx<x0))
+      return;
+
     x = nx;
     y = ny;
+
+    if(x==x0 && y==y0)
+      break;
   }
 
-  if(path_len>max_path_length-10)
-    std::cout<<"\n\n";
+  if(x!=x0 || y!=y0)
+    return; //The path enters a loop which the initial cell is not part of
+
+  do {
+    const int n = flowdirs(x,y);
+    std::cout<<x<<","<<y<<" with flowdir "<<n<<"\n";
+    x += d8x[n];
+    y += d8y[n];
+  } while(x!=x0 || y!=y0);
+
+  std::cout<<"\n\n";
 }
 
 
-- 
2.43.0


From 22e7f5a8c681995fef84eaf3dfa9a7837220b8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:05 +0000
Subject: [PATCH 63/90] fix: rd_no_data gets and sets all NoData values

---
 apps/rd_no_data.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/apps/rd_no_data.cpp b/apps/rd_no_data.cpp
index 56d8f5a..db0ecb9 100644
--- a/apps/rd_no_data.cpp
+++ b/apps/rd_no_data.cpp
@@ -1,14 +1,25 @@
 #include <iostream>
 #include <string>
+#include <cmath>
 #include <cstdlib>
+#include <iomanip>
+#include <limits>
+#include <stdexcept>
 #include <richdem/common/version.hpp>
 #include <richdem/common/Array2D.hpp>
 using namespace richdem;
 
 template<class T>
 int PerformAlgorithm(std::string outname, char *nodata, std::string analysis, Array2D<T> inp){
+  const double val = std::stod(nodata);
+
+  //Converting a value which is out of range would give some other value. NaN and
+  //the infinities can be represented by the floating-point types.
+  if(std::numeric_limits<T>::is_integer && !(std::numeric_limits<T>::lowest()<=val && val<=std::numeric_limits<T>::max() && val==std::floor(val)))
+    throw std::runtime_error("The raster's data type cannot represent the NoData value '"+std::string(nodata)+"'!");
+
   inp.loadData();
-  inp.setNoData((T)std::stoi(nodata)); //TODO
+  inp.setNoData((T)val);
   inp.saveGDAL(outname,analysis);
   return 0;
 }
@@ -28,10 +39,10 @@ int main(int argc, char **argv){
   }
 
   if(argc==2){
-    Array2D<int8_t> temp(argv[1],false,0,0,0,0,false,false); //Data type doesn't matter since we're not loading it
-    std::cerr<<temp.noData()<<std::endl;
+    Array2D<double> temp(argv[1],false,0,0,0,0,false,false); //A double can hold the NoData value of all the data types
+    std::cerr<<std::setprecision(std::numeric_limits<double>::max_digits10)<<temp.noData()<<std::endl;
   } else {
-    PerformAlgorithm(std::string(argv[1]),argv[2],argv[3],analysis);
+    return PerformAlgorithm(std::string(argv[1]),argv[2],argv[3],analysis);
   }
 
   return 0;
-- 
2.43.0


From 5b8097e2b223582ca6dba180d33ef2f2f0ee443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:05 +0000
Subject: [PATCH 64/90] fix: rd_hist shows values of 8-bit rasters as numbers
 and all of the NoData value

---
 apps/rd_hist.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/apps/rd_hist.cpp b/apps/rd_hist.cpp
index 253f332..740c498 100644
--- a/apps/rd_hist.cpp
+++ b/apps/rd_hist.cpp
@@ -14,10 +14,10 @@ int PerformAlgorithm(Array2D<T> rast){
   for(unsigned int i=0;i<rast.size();i++)
     counts[rast(i)]++;
 
-  std::cout<<"Nodata: "<<(int)rast.noData()<<std::endl;
+  std::cout<<"Nodata: "<<+rast.noData()<<std::endl;
 
   for(const auto &x: counts)
-    std::cout<<std::setw(20)<<x.first<<" "<<std::setw(20)<<x.second<<"\n";
+    std::cout<<std::setw(20)<<+x.first<<" "<<std::setw(20)<<x.second<<"\n";
 
   return 0;
 }
@@ -34,7 +34,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(std::string(argv[1]));
-
-  return 0;
+  return PerformAlgorithm(std::string(argv[1]));
 }
\ No newline at end of file
-- 
2.43.0


From af86f67894ca392f9bc98dff66840d3e1e343d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:05 +0000
Subject: [PATCH 65/90] fix: rd_flow_accumulation writes no raster if there is
 no such algorithm

---
 apps/rd_flow_accumulation.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/apps/rd_flow_accumulation.cpp b/apps/rd_flow_accumulation.cpp
index c8ee79d..ad0fe75 100644
--- a/apps/rd_flow_accumulation.cpp
+++ b/apps/rd_flow_accumulation.cpp
@@ -26,14 +26,17 @@ int PerformAlgorithm(std::string output, int algorithm, float param, std::string
     case 6: //D∞     - Tarboton (1997)
       FA_Tarboton(dem,accum);                           break;
     case 7: //MD∞    - Seibert & McGlynn (2007)
-      std::cerr<<"This FA is temporarily disabled."; break;
+      std::cerr<<"This FA is temporarily disabled."<<std::endl; return -1;
       //FA_SeibertMcGlynn(dem,accum,param);               break;
     case 8: //D8-LTD - Orlandini et al. (2003)
-      std::cerr<<"This FA is temporarily disabled."; break;
+      std::cerr<<"This FA is temporarily disabled."<<std::endl; return -1;
       //FA_Orlandini(dem,accum,OrlandiniMode::LTD,param); break;
     case 9: //D8-LAD - Orlandini et al. (2003)
-      std::cerr<<"This FA is temporarily disabled."; break;
+      std::cerr<<"This FA is temporarily disabled."<<std::endl; return -1;
       //FA_Orlandini(dem,accum,OrlandiniMode::LAD,param); break;
+    default:
+      std::cerr<<"Unrecognised algorithm number!"<<std::endl;
+      return -1;
   }
 
   accum.scale(accum.getCellArea());
-- 
2.43.0


From 449163ddee921032fb80aba11a58eed462f5b2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:05 +0000
Subject: [PATCH 66/90] fix: rd_terrain_property writes no raster if there is
 no such algorithm

---
 apps/rd_terrain_property.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/rd_terrain_property.cpp b/apps/rd_terrain_property.cpp
index 6c49cb6..8974371 100644
--- a/apps/rd_terrain_property.cpp
+++ b/apps/rd_terrain_property.cpp
@@ -29,6 +29,9 @@ int PerformAlgorithm(std::string output, int algorithm, float z_scale, std::stri
       TA_planform_curvature(dem,result,z_scale); break;
     case 8: 
       TA_profile_curvature (dem,result,z_scale); break;
+    default:
+      std::cerr<<"Unrecognised algorithm number!"<<std::endl;
+      return -1;
   }
 
   result.saveGDAL(output,analysis);
-- 
2.43.0


From 6970143972fe0f6a7fa269e45ec13afb3722dc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:05 +0000
Subject: [PATCH 67/90] fix: apps exit with a failure status when they refuse
 their input

---
 apps/rd_compare.cpp            | 4 +---
 apps/rd_d8_flowdirs.cpp        | 4 +---
 apps/rd_expand_dimensions.cpp  | 4 +---
 apps/rd_flood_for_flowdirs.cpp | 4 +---
 apps/rd_geotransform.cpp       | 4 +---
 apps/rd_projection.cpp         | 4 +---
 apps/rd_raster_display.cpp     | 4 +---
 7 files changed, 7 insertions(+), 21 deletions(-)

diff --git a/apps/rd_compare.cpp b/apps/rd_compare.cpp
index 0343366..c630936 100644
--- a/apps/rd_compare.cpp
+++ b/apps/rd_compare.cpp
@@ -43,7 +43,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2]);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2]);
 }
\ No newline at end of file
diff --git a/apps/rd_d8_flowdirs.cpp b/apps/rd_d8_flowdirs.cpp
index dcfb251..2fb956e 100644
--- a/apps/rd_d8_flowdirs.cpp
+++ b/apps/rd_d8_flowdirs.cpp
@@ -34,7 +34,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2],analysis);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2],analysis);
 }
\ No newline at end of file
diff --git a/apps/rd_expand_dimensions.cpp b/apps/rd_expand_dimensions.cpp
index 4e713a2..1f2459a 100644
--- a/apps/rd_expand_dimensions.cpp
+++ b/apps/rd_expand_dimensions.cpp
@@ -40,7 +40,5 @@ int main(int argc, char **argv){
   int new_width  = std::stoi(argv[3]);
   int new_height = std::stoi(argv[4]);
 
-  PerformAlgorithm(argv[1],argv[2],new_width,new_height,analysis);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2],new_width,new_height,analysis);
 }
\ No newline at end of file
diff --git a/apps/rd_flood_for_flowdirs.cpp b/apps/rd_flood_for_flowdirs.cpp
index e53818e..0beb3d0 100644
--- a/apps/rd_flood_for_flowdirs.cpp
+++ b/apps/rd_flood_for_flowdirs.cpp
@@ -69,7 +69,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2],analysis);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2],analysis);
 }
\ No newline at end of file
diff --git a/apps/rd_geotransform.cpp b/apps/rd_geotransform.cpp
index 3d3a08b..eeab245 100644
--- a/apps/rd_geotransform.cpp
+++ b/apps/rd_geotransform.cpp
@@ -55,7 +55,7 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(
+  return PerformAlgorithm(
     std::string(argv[1]),
     std::string(argv[2]),
     std::string(argv[3]),
@@ -66,6 +66,4 @@ int main(int argc, char **argv){
     std::string(argv[8]),
     analysis
   );
-
-  return 0;
 }
\ No newline at end of file
diff --git a/apps/rd_projection.cpp b/apps/rd_projection.cpp
index 582130b..a8ce70c 100644
--- a/apps/rd_projection.cpp
+++ b/apps/rd_projection.cpp
@@ -36,7 +36,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(std::string(argv[1]),std::string(argv[2]),std::string(argv[3]),analysis);
-
-  return 0;
+  return PerformAlgorithm(std::string(argv[1]),std::string(argv[2]),std::string(argv[3]),analysis);
 }
diff --git a/apps/rd_raster_display.cpp b/apps/rd_raster_display.cpp
index 993376c..0b702a0 100644
--- a/apps/rd_raster_display.cpp
+++ b/apps/rd_raster_display.cpp
@@ -57,7 +57,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2]);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2]);
 }
-- 
2.43.0


From d1a1e7e7b8fd05567a019e7abeb837532d97c907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:05 +0000
Subject: [PATCH 68/90] fix: rd_raster_inspect does not read outside the raster

---
 apps/rd_raster_inspect.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/rd_raster_inspect.cpp b/apps/rd_raster_inspect.cpp
index d990a17..d106224 100644
--- a/apps/rd_raster_inspect.cpp
+++ b/apps/rd_raster_inspect.cpp
@@ -33,6 +33,12 @@ int PerformAlgorithm(int minx, int maxx, int miny, int maxy, bool flipV, bool fl
     maxy       = std::min(cy+radius,inp.height()-1);
   }
 
+  if(maxx>=inp.width())
+    throw std::runtime_error("MaxX must be smaller than the raster's width!");
+
+  if(maxy>=inp.height())
+    throw std::runtime_error("MaxY must be smaller than the raster's height!");
+
   if(minx>maxx)
     throw std::runtime_error("MinX must be smaller than MaxX!");
 
-- 
2.43.0


From 1006dc85aeb9934081af9833e1f947d1015341bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:05 +0000
Subject: [PATCH 69/90] fix: rd_depression_hierarchy georeferences its output
 like its input

---
 apps/rd_depression_hierarchy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/rd_depression_hierarchy.cpp b/apps/rd_depression_hierarchy.cpp
index 4e1d17c..60a3e9c 100644
--- a/apps/rd_depression_hierarchy.cpp
+++ b/apps/rd_depression_hierarchy.cpp
@@ -61,7 +61,8 @@ int main(int argc, char **argv){
     }
   }
 
-  label.projection = topo.projection;
+  label.projection   = topo.projection;
+  label.geotransform = topo.geotransform;
   label.saveGDAL(out_name+"-label.tif");
 
   timer_io.stop();
-- 
2.43.0


From 4349d1077243e78dad487a8d3bef776dd780c787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:05 +0000
Subject: [PATCH 70/90] fix: rd_fill_spill_merge georeferences its output like
 its input

---
 apps/rd_fill_spill_merge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/rd_fill_spill_merge.cpp b/apps/rd_fill_spill_merge.cpp
index de67af6..12a45ba 100644
--- a/apps/rd_fill_spill_merge.cpp
+++ b/apps/rd_fill_spill_merge.cpp
@@ -49,7 +49,7 @@ int main(int argc, char **argv){
   rd::Array2D<double> wtd;
   if(surface_water_filename.empty()){
     //All cells have the same amount of water
-    wtd.resize(topo.width(), topo.height(), surface_water_level);
+    wtd.resize(topo, surface_water_level);
   } else {
     wtd = rd::Array2D<double>(surface_water_filename);
   }
-- 
2.43.0


From 2e19aa09723102501eea53e71173f4f2f1412e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:05 +0000
Subject: [PATCH 71/90] fix: rd_surface_area compiles

---
 apps/rd_surface_area.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/rd_surface_area.cpp b/apps/rd_surface_area.cpp
index cdeac27..fecd9d4 100644
--- a/apps/rd_surface_area.cpp
+++ b/apps/rd_surface_area.cpp
@@ -3,9 +3,9 @@
 #include <cstdlib>
 #include <iomanip>
 #include <richdem/common/version.hpp>
-#include <richdem/common/router.hpp>
 #include <richdem/misc/misc_methods.hpp>
 #include <richdem/common/Array2D.hpp>
+using namespace richdem;
 
 template<class T>
 int PerformAlgorithm(const double zscale, std::string analysis, Array2D<T> elevation){
@@ -46,6 +46,8 @@ int PerformAlgorithm(const double zscale, std::string analysis, Array2D<T> eleva
   return 0;
 }
 
+#include "router.hpp"
+
 int main(int argc, char **argv){
   std::string analysis = PrintRichdemHeader(argc,argv);
   
-- 
2.43.0


From 8430e7338ea574e5cff06244228958e2b5aa52b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:51 +0000
Subject: [PATCH 72/90] fix: the surface area of very steep cells is not lost
 to rounding

---
 include/richdem/misc/misc_methods.hpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/include/richdem/misc/misc_methods.hpp b/include/richdem/misc/misc_methods.hpp
index 5366cb4..d08f680 100644
--- a/include/richdem/misc/misc_methods.hpp
+++ b/include/richdem/misc/misc_methods.hpp
@@ -46,7 +46,6 @@ double dem_surface_area(
   std::cerr<<"\nA DEM Surface Elevation"<<std::endl;
   std::cerr<<"C Jenness, J.S., 2004. Calculating landscape surface area from digital elevation models. Wildlife Society Bulletin 32, 829--839. doi:10.2193/0091-7648(2004)032[0829:CLSAFD]2.0.CO;2"<<std::endl;
 
-  const auto euc_dist = [](const double a, const double b){ return std::sqrt(std::pow((double)a,2.0)+std::pow((double)b,2.0)); };
 
   //If calculate cell area is lower than actual area, but greater than "AA minus
   //fudge_factor", we clamp the calculated area to the actual area without
@@ -72,7 +71,6 @@ double dem_surface_area(
 
   const double xdist            = elevations.getCellLengthX();
   const double ydist            = elevations.getCellLengthY();
-  const double planar_diag_dist = euc_dist(xdist,ydist);
 
   //TODO: This algorithm would benefit from GPU integration
   progress.start(elevations.size());
@@ -124,25 +122,22 @@ double dem_surface_area(
         else
           ndn_elev = my_elev;
 
-        const double planar_dist_dn   = planar_diag_dist;             //Distance focal cell to diagonal neighbour
         const double planar_dist_ndn  = (d8y[ndn] == 0)?xdist:ydist;  //Distance focal cell to non-diagonal neighbour
         const double planar_dist_bn   = (d8y[ndn] == 0)?ydist:xdist;  //Distance between the neighbour cells
 
-        const double elev_diff_dn     = dn_elev -my_elev; //Elevation drop between focal and diagonal
         const double elev_diff_ndn    = ndn_elev-my_elev; //Elevation drop between focal and non-diagonal
         const double elev_diff_bn     = ndn_elev-dn_elev; //Elevation drop between neighbours
 
-        //Divide these distances by two to form a similar triangle constrained
-        //by the boundary of the focal cell
-        const double surf_dist_dn     = euc_dist(planar_dist_dn,elev_diff_dn)/2;   //3-space distance between center of focal and diagonal neighbour
-        const double surf_dist_ndn    = euc_dist(planar_dist_ndn,elev_diff_ndn)/2; //3-space distance between center of focal and non-diagonal neighbour
-        const double surf_dist_bn     = euc_dist(planar_dist_bn,elev_diff_bn)/2;   //3-space distance between neighbours
-
-        //Used to get area of triangle
-        const double s = (surf_dist_dn+surf_dist_ndn+surf_dist_bn)/2;
-
-        //Accumulate area of triangle to
-        const double tri_area = std::sqrt(s*(s-surf_dist_dn)*(s-surf_dist_ndn)*(s-surf_dist_bn));
+        //Accumulate area of triangle. The planar legs are at right angles, so
+        //the cross product of the triangle's edges has the components below.
+        //(Heron's formula loses all its digits if the triangle is very steep.)
+        //The edges are divided by two to form a similar triangle constrained by
+        //the boundary of the focal cell.
+        const double tri_area = std::hypot(
+          elev_diff_ndn*planar_dist_bn,
+          elev_diff_bn*planar_dist_ndn,
+          planar_dist_ndn*planar_dist_bn
+        )/8;
 
         cell_area += tri_area;
       }
-- 
2.43.0


From c648c6feca27cf433e1277aab357695a471b8bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:51 +0000
Subject: [PATCH 73/90] fix: rd_depressions_breach accepts depths greater than
 any elevation

---
 apps/rd_depressions_breach.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/rd_depressions_breach.cpp b/apps/rd_depressions_breach.cpp
index 6fa8e59..ac60ee7 100644
--- a/apps/rd_depressions_breach.cpp
+++ b/apps/rd_depressions_breach.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <limits>
 #include <string>
 #include <cstdlib>
 #include <richdem/common/version.hpp>
@@ -20,7 +21,7 @@ int PerformAlgorithm(
 ){
   elevation.loadData();
 
-  Lindsay2016(elevation, mode, eps_gradients, fill_depressions, max_path_len, (T)max_depth);
+  Lindsay2016(elevation, mode, eps_gradients, fill_depressions, max_path_len, max_depth<std::numeric_limits<T>::max() ? (T)max_depth : std::numeric_limits<T>::max());
 
   elevation.saveGDAL(outputname,analysis);
 
-- 
2.43.0


From 79810a6779aae03a5f8f22a97e51ef764c2e09d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:43 +0000
Subject: [PATCH 74/90] fix: Python operations work on arrays which are not
 contiguous

---
 wrappers/pyrichdem/richdem/__init__.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index fca3ddd..1702a5e 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -199,7 +199,10 @@ class rdarray(np.ndarray):
         if dtype not in richdem_arrs:
             raise Exception(f"No equivalent RichDEM datatype to '{dtype}'.")
 
-        rda = richdem_arrs[dtype](self)
+        # The wrapped object points into the memory of `data`, so it is kept alive
+        data = np.require(self, requirements=["C", "A", "W"])
+        rda = richdem_arrs[dtype](data)
+        rda.data = data
 
         if self.no_data is None:
             print("Warning! no_data was None. Setting it to -9999!")
@@ -217,7 +220,13 @@ class rdarray(np.ndarray):
 
         return rda
 
+    def copyDataFromWrapped(self, wrapped):
+        # wrap() works on a copy if this array's memory layout is not suitable
+        if not np.shares_memory(self, wrapped.data):
+            self[...] = wrapped.data
+
     def copyFromWrapped(self, wrapped):
+        self.copyDataFromWrapped(wrapped)
         self.no_data = wrapped.noData()
         # print("IS IT IN",("PROCESSING_HISTORY" in wrapped.metadata))
         # self.metadata += "\n"+wrapped.metadata["PROCESSING_HISTORY"].replace("\n","\t\n")
@@ -255,7 +264,10 @@ class rd3array(np.ndarray):
         if dtype not in richdem_arrs:
             raise Exception("No equivalent RichDEM datatype.")
 
-        rda = richdem_arrs[dtype](self)
+        # The wrapped object points into the memory of `data`, so it is kept alive
+        data = np.require(self, requirements=["C", "A", "W"])
+        rda = richdem_arrs[dtype](data)
+        rda.data = data
 
         if self.no_data is None:
             print("Warning! no_data was None. Setting it to -9999!")
@@ -273,7 +285,13 @@ class rd3array(np.ndarray):
 
         return rda
 
+    def copyDataFromWrapped(self, wrapped):
+        # wrap() works on a copy if this array's memory layout is not suitable
+        if not np.shares_memory(self, wrapped.data):
+            self[...] = wrapped.data
+
     def copyFromWrapped(self, wrapped):
+        self.copyDataFromWrapped(wrapped)
         self.no_data = wrapped.noData()
         # print("IS IT IN",("PROCESSING_HISTORY" in wrapped.metadata))
         # self.metadata += "\n"+wrapped.metadata["PROCESSING_HISTORY"].replace("\n","\t\n")
-- 
2.43.0


From 942c87a1fefaa76bb723b34db0f0a8fda551419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:43 +0000
Subject: [PATCH 75/90] fix: Python flow accumulation does not modify its
 weights and keeps the georeferencing

---
 wrappers/pyrichdem/richdem/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 1702a5e..7a65426 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -570,9 +570,9 @@ def FlowAccumulation(dem: rdarray, method: Optional[str] = None, exponent: Optio
     }
 
     if weights is not None and in_place:
-        accum = rdarray(weights, no_data=-1)
+        accum = rdarray(weights, meta_obj=dem, no_data=-1)
     elif weights is not None and not in_place:
-        accum = rdarray(weights, copy=True, meta_obj=dem, no_data=-1)
+        accum = rdarray(np.array(weights), meta_obj=dem, no_data=-1)
     elif weights is None:
         accum = rdarray(
             np.ones(shape=dem.shape, dtype="float64"), meta_obj=dem, no_data=-1
@@ -636,9 +636,9 @@ def FlowAccumFromProps(props: rdarray, weights: Optional[rdarray] = None, in_pla
         raise Exception("A richdem.rd3array or numpy.ndarray is required!")
 
     if weights is not None and in_place:
-        accum = rdarray(weights, no_data=-1)
+        accum = rdarray(weights, meta_obj=props, no_data=-1)
     elif weights is not None and not in_place:
-        accum = rdarray(weights, copy=True, meta_obj=props, no_data=-1)
+        accum = rdarray(np.array(weights), meta_obj=props, no_data=-1)
     elif weights is None:
         accum = rdarray(
             np.ones(shape=props.shape[0:2], dtype="float64"), meta_obj=props, no_data=-1
-- 
2.43.0


From 34ded9d89f8e6bec4d4c486b695f9d2970bbf91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:43 +0000
Subject: [PATCH 76/90] fix: rd3array accepts numpy geotransforms

---
 wrappers/pyrichdem/richdem/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 7a65426..d8d9626 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -275,7 +275,7 @@ class rd3array(np.ndarray):
         else:
             rda.setNoData(self.no_data)
 
-        if self.geotransform:
+        if self.geotransform is not None:
             rda.geotransform = np.array(self.geotransform, dtype="float64")
         else:
             print(
-- 
2.43.0


From 406beeaa5ccf4b2d6b0636a86b613e4f3e7ae8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:43 +0000
Subject: [PATCH 77/90] fix: Python no-data values of double rasters are not
 rounded to single precision

---
 wrappers/pyrichdem/src/pywrapper.cpp | 1 -
 wrappers/pyrichdem/src/pywrapper.hpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/wrappers/pyrichdem/src/pywrapper.cpp b/wrappers/pyrichdem/src/pywrapper.cpp
index 07793b7..e29c846 100644
--- a/wrappers/pyrichdem/src/pywrapper.cpp
+++ b/wrappers/pyrichdem/src/pywrapper.cpp
@@ -90,7 +90,6 @@ PYBIND11_MODULE(_richdem, m) {
       .def("noData",    &Array3D<float>::noData)
 
       //TODO: Simplify by casting to double in Python
-      .def("setNoData", [](Array3D<float> &a, const float    ndval){ a.setNoData((float)ndval); })
       .def("setNoData", [](Array3D<float> &a, const double   ndval){ a.setNoData((float)ndval); })
       .def("setNoData", [](Array3D<float> &a, const int8_t   ndval){ a.setNoData((float)ndval); })
       .def("setNoData", [](Array3D<float> &a, const int16_t  ndval){ a.setNoData((float)ndval); })
diff --git a/wrappers/pyrichdem/src/pywrapper.hpp b/wrappers/pyrichdem/src/pywrapper.hpp
index c6419ef..9478436 100644
--- a/wrappers/pyrichdem/src/pywrapper.hpp
+++ b/wrappers/pyrichdem/src/pywrapper.hpp
@@ -131,7 +131,6 @@ void TemplatedArrayWrapper(pybind11::module &m, std::string tname){
       .def("max",       &Array2D<T>::max)
 
       //TODO: Simplify by casting to double in Python
-      .def("setNoData", [](Array2D<T> &a, const float    ndval){ a.setNoData((T)ndval); })
       .def("setNoData", [](Array2D<T> &a, const double   ndval){ a.setNoData((T)ndval); })
       .def("setNoData", [](Array2D<T> &a, const int8_t   ndval){ a.setNoData((T)ndval); })
       .def("setNoData", [](Array2D<T> &a, const int16_t  ndval){ a.setNoData((T)ndval); })
-- 
2.43.0


From 8f01a94ae543670cd1e7ad53836f967800777bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:43 +0000
Subject: [PATCH 78/90] fix: rdarray takes the no-data value from meta_obj and
 geotransform overrides meta_obj

---
 wrappers/pyrichdem/richdem/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index d8d9626..166fa0d 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -163,13 +163,14 @@ class rdarray(np.ndarray):
             obj.no_data = copy.deepcopy(getattr(meta_obj, "no_data", None))
             obj.projection = copy.deepcopy(getattr(meta_obj, "projection", ""))
             obj.geotransform = copy.deepcopy(getattr(meta_obj, "geotransform", None))
-        elif geotransform is not None:
+
+        if geotransform is not None:
             obj.geotransform = geotransform
 
         if no_data is not None:
             obj.no_data = no_data
 
-        if no_data is None:
+        if obj.no_data is None:
             raise Exception("A no_data value must be specified!")
 
         return obj
@@ -245,7 +246,7 @@ class rd3array(np.ndarray):
         if no_data is not None:
             obj.no_data = no_data
 
-        if no_data is None:
+        if obj.no_data is None:
             raise Exception("A no_data value must be specified!")
 
         return obj
-- 
2.43.0


From 6bc46a2880f6640b047e182fde1e79ad8428c3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 79/90] fix: SaveGDAL keeps the data type and saves arrays
 without a geotransform

---
 wrappers/pyrichdem/richdem/__init__.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 166fa0d..340466d 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -14,7 +14,7 @@ except ImportError as e:
 from _richdem import depression_hierarchy
 
 try:
-    from osgeo import gdal
+    from osgeo import gdal, gdal_array
 
     gdal.UseExceptions()
     GDAL_AVAILABLE = True
@@ -326,6 +326,10 @@ def LoadGDAL(filename: str, no_data: Optional[float] = None) -> rdarray:
         gdal.GDT_Float32,
         gdal.GDT_Float64,
     }
+    # Types known to newer GDALs only
+    for t in ("GDT_Int8", "GDT_Int64", "GDT_UInt64"):
+        if hasattr(gdal, t):
+            allowed_types.add(getattr(gdal, t))
 
     # Read in data
     src_ds = gdal.Open(filename)
@@ -384,16 +388,19 @@ def SaveGDAL(filename: str, rda: rdarray) -> None:
         raise Exception("richdem.SaveGDAL() requires GDAL.")
 
     driver = gdal.GetDriverByName("GTiff")
-    data_type = gdal.GDT_Float32  # TODO
+    data_type = gdal_array.NumericTypeCodeToGDALTypeCode(rda.dtype.type)
+    if data_type is None:
+        raise Exception(f"No equivalent GDAL datatype to '{rda.dtype}'.")
     data_set = driver.Create(
         filename, xsize=rda.shape[1], ysize=rda.shape[0], bands=1, eType=data_type
     )
-    data_set.SetGeoTransform(rda.geotransform)
+    if rda.geotransform is not None:
+        data_set.SetGeoTransform([float(x) for x in rda.geotransform])
     data_set.SetProjection(rda.projection)
     band = data_set.GetRasterBand(1)
     band.SetNoDataValue(rda.no_data)
     band.WriteArray(np.array(rda))
-    for k, v in rda.metadata.items():
+    for k, v in (rda.metadata or dict()).items():
         data_set.SetMetadataItem(str(k), str(v))
 
 
-- 
2.43.0


From b91b89e0f4f3d99cd11d087b3f6a5a5e011c112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 80/90] fix: the Python breaching program saves the breached
 elevations

---
 wrappers/pyrichdem/richdem/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/richdem/cli.py b/wrappers/pyrichdem/richdem/cli.py
index ab5fd38..b96acad 100644
--- a/wrappers/pyrichdem/richdem/cli.py
+++ b/wrappers/pyrichdem/richdem/cli.py
@@ -46,7 +46,7 @@ def BreachDepressions() -> None:
 
     dem = rd.LoadGDAL(args.dem)
     rd._AddAnalysis(dem, " ".join(sys.argv))
-    rd.BreachDepressions(dem)
+    rd.BreachDepressions(dem, in_place=True)
     rd.SaveGDAL(args.outname, dem)
 
 
-- 
2.43.0


From 19a31fd43f88048551cbda65ca56c7b47370b8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 81/90] fix: the Python comparison program compares integer
 rasters

---
 wrappers/pyrichdem/richdem/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/richdem/cli.py b/wrappers/pyrichdem/richdem/cli.py
index b96acad..31f711d 100644
--- a/wrappers/pyrichdem/richdem/cli.py
+++ b/wrappers/pyrichdem/richdem/cli.py
@@ -221,7 +221,7 @@ rda      -- A dataset
     if np.any(np.isnan(ds2)):
         print("NaN in '{0}'".format(args.rda2))
 
-    diff = np.array(ds1 - ds2)
+    diff = np.array(ds1, dtype="float64") - np.array(ds2, dtype="float64")
 
     print("Absolute Max difference: {0:10.6}".format(np.nanmax(np.abs(diff))))
     print("Absolute Min difference: {0:10.6}".format(np.nanmin(np.abs(diff))))
-- 
2.43.0


From 8fe0856fd255a666e70f2a560c8736f847ddc7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 82/90] fix: the Python flow accumulation program lists methods
 which exist

---
 wrappers/pyrichdem/richdem/cli.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wrappers/pyrichdem/richdem/cli.py b/wrappers/pyrichdem/richdem/cli.py
index 31f711d..0c61200 100644
--- a/wrappers/pyrichdem/richdem/cli.py
+++ b/wrappers/pyrichdem/richdem/cli.py
@@ -63,10 +63,14 @@ Dinf              Alias for Tarboton.
 Quinn             Holmgren with exponent=1.
 Holmgren(E)       Generalization of Quinn.
 Freeman(E)        TODO
-FairfieldLeymarie Alias for Rho8.
-Rho8              Alias for FairfieldLeymarie.
-OCallaghan        Alias for D8.                  10.1016/S0734-189X(84)80011-0
-D8                Alias for OCallaghan.          10.1016/S0734-189X(84)80011-0
+FairfieldLeymarieD8 Alias for Rho8.
+FairfieldLeymarieD4 Alias for Rho4.
+Rho8              Alias for FairfieldLeymarieD8.
+Rho4              Alias for FairfieldLeymarieD4.
+OCallaghanD8      Alias for D8.                  10.1016/S0734-189X(84)80011-0
+OCallaghanD4      Alias for D4.                  10.1016/S0734-189X(84)80011-0
+D8                Alias for OCallaghanD8.        10.1016/S0734-189X(84)80011-0
+D4                Alias for OCallaghanD4.        10.1016/S0734-189X(84)80011-0
 
 Methods marked (E) require the exponent argument.
 """,
-- 
2.43.0


From 1313d28d5a87325035d9c15bcb6b5cffb6eaacb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 83/90] fix: the Python depression hierarchy keeps the
 georeferencing and works with any memory layout

---
 wrappers/pyrichdem/richdem/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 340466d..49b89fc 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -862,11 +862,14 @@ def get_depression_hierarchy(dem: rdarray, labels: rdarray) -> Tuple[List[depres
     demw = dem.wrap()
     labelsw = labels.wrap()
 
-    flowdirs = rdarray(_richdem.NO_FLOW * np.ones(dem.shape, dtype=np.int8), no_data=-9999, geotransform=STANDARD_GEOTRANSFORM)
+    flowdirs = rdarray(_richdem.NO_FLOW * np.ones(dem.shape, dtype=np.int8), meta_obj=dem, no_data=-1)
+    _AddAnalysis(flowdirs, "get_depression_hierarchy(dem, labels)")
     flowdirsw = flowdirs.wrap()
 
     dhret = depression_hierarchy.get_depression_hierarchy(demw, labelsw, flowdirsw)
 
+    labels.copyDataFromWrapped(labelsw)
+
     return dhret, flowdirs
 
 def get_new_depression_hierarchy_labels(shape: Tuple[int, int], no_data: float = -9999, geotransform: Optional[np.ndarray] = None) -> rdarray:
@@ -925,4 +928,6 @@ def fill_spill_merge(dem: rdarray, labels: rdarray, flowdirs: rdarray, deps: Lis
     flowdirsw = flowdirs.wrap()
     wtdw = wtd.wrap()
 
-    dhret = depression_hierarchy.fill_spill_merge(demw, labelsw, flowdirsw, deps, wtdw)
+    depression_hierarchy.fill_spill_merge(demw, labelsw, flowdirsw, deps, wtdw)
+
+    wtd.copyDataFromWrapped(wtdw)
-- 
2.43.0


From 8d431859ff64131167460b34e835691c67d9a12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 84/90] fix: fill_spill_merge updates the depression hierarchy
 passed from Python

---
 wrappers/pyrichdem/src/pywrapper.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/src/pywrapper.cpp b/wrappers/pyrichdem/src/pywrapper.cpp
index e29c846..421f381 100644
--- a/wrappers/pyrichdem/src/pywrapper.cpp
+++ b/wrappers/pyrichdem/src/pywrapper.cpp
@@ -166,7 +166,19 @@ PYBIND11_MODULE(_richdem, m) {
   dephier_module.def("get_depression_hierarchy", &dephier::GetDepressionHierarchy<double, Topology::D8>, "Calculate the hierarchy of depressions. Takes as input a digital elevation model and a set of labels. The labels should have `OCEAN` for cells");
   dephier_module.def(
     "fill_spill_merge",
-    &dephier::FillSpillMerge<double, double>,
+    [](
+      const Array2D<double> &topo,
+      const Array2D<dephier::dh_label_t> &labels,
+      const Array2D<flowdir_t> &flowdirs,
+      const py::list &deps,
+      Array2D<double> &wtd
+    ){
+      auto cdeps = deps.cast<dephier::DepressionHierarchy<double>>();
+      dephier::FillSpillMerge<double, double>(topo, labels, flowdirs, cdeps, wtd);
+      // The list's objects were copied, so the results are handed back
+      for(size_t i=0;i<cdeps.size();i++)
+        deps[i].cast<dephier::Depression<double>&>() = cdeps[i];
+    },
     "Perform Fill-Spill-Merge on a given landscape and its associated depression hierarchy and water table depths",
     py::arg("topo"),
     py::arg("labels"),
-- 
2.43.0


From a55710a35a63ad0245b47bd448c64b67c68897d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 85/90] fix: rd3arrays without nine values per cell are refused

---
 wrappers/pyrichdem/src/pywrapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wrappers/pyrichdem/src/pywrapper.cpp b/wrappers/pyrichdem/src/pywrapper.cpp
index 421f381..463b1bc 100644
--- a/wrappers/pyrichdem/src/pywrapper.cpp
+++ b/wrappers/pyrichdem/src/pywrapper.cpp
@@ -78,6 +78,8 @@ PYBIND11_MODULE(_richdem, m) {
         auto dims = buf.ndim();
         if (dims != 3 )
           throw std::runtime_error("Array must have three dimensions!");
+        if (buf.shape()[2] != 9)
+          throw std::runtime_error("Array must have nine values per cell!");
 
         //Array comes to us in (y,x,z) form
         return new Array3D<float>((float*)buf.data(), buf.shape()[1], buf.shape()[0]);
-- 
2.43.0


From ea3f3cc3a66bdc4b9c5dff286dfaeb205584cbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:41 +0000
Subject: [PATCH 86/90] fix: the depression hierarchy refuses arrays of
 different dimensions

---
 include/richdem/depressions/depression_hierarchy.hpp | 4 ++++
 include/richdem/depressions/fill_spill_merge.hpp     | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/include/richdem/depressions/depression_hierarchy.hpp b/include/richdem/depressions/depression_hierarchy.hpp
index 101fc9d..9426bbf 100644
--- a/include/richdem/depressions/depression_hierarchy.hpp
+++ b/include/richdem/depressions/depression_hierarchy.hpp
@@ -250,6 +250,10 @@ GetDepressionHierarchy(const Array2D<elev_t>& dem, Array2D<dh_label_t>& label, A
   timer_dephier.start();
   RDLOG_ALG_NAME << "DepressionHierarchy";
 
+  if (label.width() != dem.width() || label.height() != dem.height() ||
+      flowdirs.width() != dem.width() || flowdirs.height() != dem.height())
+    throw std::runtime_error("Labels and flow directions must have the same dimensions as the DEM!");
+
   // A D4 or D8 topology can be used.
   static_assert(topo == Topology::D8 || topo == Topology::D4);
   constexpr auto dx         = get_dx_for_topology<topo>();
diff --git a/include/richdem/depressions/fill_spill_merge.hpp b/include/richdem/depressions/fill_spill_merge.hpp
index ac8add7..5d687e4 100644
--- a/include/richdem/depressions/fill_spill_merge.hpp
+++ b/include/richdem/depressions/fill_spill_merge.hpp
@@ -152,6 +152,11 @@ void FillSpillMerge(
 
   RDLOG_ALG_NAME<<"FillSpillMerge";
 
+  if(label.width()!=topo.width() || label.height()!=topo.height() ||
+     flowdirs.width()!=topo.width() || flowdirs.height()!=topo.height() ||
+     wtd.width()!=topo.width() || wtd.height()!=topo.height())
+    throw std::runtime_error("Labels, flow directions, and water table depths must have the same dimensions as the topography!");
+
   //If we're using the DH more than once we need to reset its water variables
   //between uses.
   ResetDH(deps);
-- 
2.43.0


From 2e237c00009f493d3b5f9432088b4da7be98b83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:11 +0000
Subject: [PATCH 87/90] fix: Lindsay2016 fills the whole of the depressions it
 did not breach

---
 include/richdem/depressions/Lindsay2016.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/richdem/depressions/Lindsay2016.hpp b/include/richdem/depressions/Lindsay2016.hpp
index d16c015..b38e94a 100644
--- a/include/richdem/depressions/Lindsay2016.hpp
+++ b/include/richdem/depressions/Lindsay2016.hpp
@@ -375,7 +375,8 @@ void Lindsay2016(
       }
 
       --total_pits;
-      if(total_pits==0)
+      //If depressions are to be filled, then every cell has to be visited
+      if(total_pits==0 && (mode==COMPLETE_BREACHING || !fill_depressions))
         break;
     }
 
-- 
2.43.0


From 4f4995f518d9765ca3b4bba9a1709e0408f4b9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:11 +0000
Subject: [PATCH 88/90] fix: constrained breaching keeps to the permitted
 length and depth

---
 include/richdem/depressions/Lindsay2016.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/richdem/depressions/Lindsay2016.hpp b/include/richdem/depressions/Lindsay2016.hpp
index b38e94a..27d2be3 100644
--- a/include/richdem/depressions/Lindsay2016.hpp
+++ b/include/richdem/depressions/Lindsay2016.hpp
@@ -361,15 +361,15 @@ void Lindsay2016(
               target_height = std::nextafter(target_height,std::numeric_limits<elev_t>::lowest()); //Decrease target depth slightly for each cell on path to ensure drainage
           }
         } else if(mode==CONSTRAINED_BREACHING){ //TODO: Refine this with regards to the paper
-          elev_t current_height = dem(cc);
-          while(cc!=NO_BACK_LINK && dem(cc)>=target_height){
-            if(pathdepth<=maxdepth)
-              dem(cc) = current_height;
+          //Drill as long and as deep as permitted
+          for(uint32_t drilled=0;drilled<maxpathlen && cc!=NO_BACK_LINK && dem(cc)>=target_height;drilled++){
+            if((elev_t)(dem(cc)-target_height)<=maxdepth)
+              dem(cc) = target_height;
             else
-              dem(cc) -= pathdepth;
+              dem(cc) -= maxdepth;
+            cc = backlinks(cc);                                                               //Follow path back
             if(eps_gradients)
-              current_height = std::nextafter(current_height,std::numeric_limits<elev_t>::lowest());
-            cc             = backlinks(cc);
+              target_height = std::nextafter(target_height,std::numeric_limits<elev_t>::lowest());
           }
         }
       }
-- 
2.43.0


From fcbe48acb834a0d81cce4e345dd394a538661f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:46 +0000
Subject: [PATCH 89/90] fix: the progress bar shows the true percentage of
 large totals and reports without OpenMP

---
 include/richdem/common/ProgressBar.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/richdem/common/ProgressBar.hpp b/include/richdem/common/ProgressBar.hpp
index 37250e5..4e6d4f0 100644
--- a/include/richdem/common/ProgressBar.hpp
+++ b/include/richdem/common/ProgressBar.hpp
@@ -62,7 +62,7 @@ class ProgressBar{
       #ifdef _OPENMP
         return omp_get_thread_num();
       #else
-        return 1;
+        return 0;
       #endif      
     }
 
@@ -102,9 +102,8 @@ class ProgressBar{
 
       next_update += call_diff;
 
-      uint16_t percent = (uint8_t)(work_done*num_threads()*100/total_work_);
-      if(percent>100)
-        percent=100;
+      const uint64_t share   = (uint64_t)work_done*num_threads()*100/total_work_;
+      const uint16_t percent = share>100?100:share;
       if(percent==old_percent)
         return;
       old_percent=percent;
-- 
2.43.0


From 7ed6a3647cbd8a3566f4f720d3001ccab5b191fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:56 +0000
Subject: [PATCH 90/90] fix: the layout square finder considers the last row
 and column

---
 apps/rd_layout_find_square.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/apps/rd_layout_find_square.py b/apps/rd_layout_find_square.py
index 4941977..ae7e3da 100755
--- a/apps/rd_layout_find_square.py
+++ b/apps/rd_layout_find_square.py
@@ -7,10 +7,11 @@ def LargestSquareOfOnes(mat):
   mat     = mat.copy()
   bestval = -1
   bestloc = None
-  for y in range(data.shape[0]-2,-1,-1):
-    for x in range(data.shape[1]-2,-1,-1):
+  for y in range(data.shape[0]-1,-1,-1):
+    for x in range(data.shape[1]-1,-1,-1):
       if mat[y,x]>0:
-        mat[y,x] = min(mat[y+1,x],mat[y,x+1],mat[y+1,x+1])+1
+        if y+1<mat.shape[0] and x+1<mat.shape[1]: #Otherwise the square is this cell alone
+          mat[y,x] = min(mat[y+1,x],mat[y,x+1],mat[y+1,x+1])+1
         if mat[y,x]>bestval:
           bestval = mat[y,x]
           bestloc = (y,x)
-- 
2.43.0

