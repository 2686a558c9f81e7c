From c0a24cc1874dc7be3964f0d85a7d798db4f24764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 01/67] fix: MultiIndex::Set and Get accepted the component one
 past the end

---
 src/MultiIndices/MultiIndex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/MultiIndex.cpp b/src/MultiIndices/MultiIndex.cpp
index fcc208c..72bd341 100644
--- a/src/MultiIndices/MultiIndex.cpp
+++ b/src/MultiIndices/MultiIndex.cpp
@@ -67,7 +67,7 @@ std::vector<unsigned int>MultiIndex::Vector() const
 
 bool MultiIndex::Set(unsigned int ind, unsigned int val)
 {
-  if(ind>length){
+  if(ind>=length){
     throw std::out_of_range("Tried to set the value of index " + std::to_string(ind) + " on an multiindex with only " + std::to_string(length) + " components.");
     return false;
   }else{
@@ -129,7 +129,7 @@ unsigned int MultiIndex::NumNz() const
 
 unsigned int MultiIndex::MultiIndex::Get(unsigned ind) const
 {
-  if(ind>length){
+  if(ind>=length){
     throw std::out_of_range("Tried to access index " + std::to_string(ind) + " of a multiindex with only " + std::to_string(length) + " components.");
     return 0;
 
-- 
2.43.0


From d942a705b30cc97c0316ad3e8fabee974284bbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 02/67] fix: an empty MultiIndex reported the fill value as its
 maximum

---
 src/MultiIndices/MultiIndex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiIndices/MultiIndex.cpp b/src/MultiIndices/MultiIndex.cpp
index 72bd341..2438881 100644
--- a/src/MultiIndices/MultiIndex.cpp
+++ b/src/MultiIndices/MultiIndex.cpp
@@ -9,7 +9,7 @@ using namespace mpart;
 MultiIndex::MultiIndex() : MultiIndex((unsigned int)0, (unsigned int)0) {};
 
 MultiIndex::MultiIndex(unsigned int lengthIn, unsigned val) : length(lengthIn),
-                                                                maxValue(val),
+                                                                maxValue((lengthIn>0) ? val : 0),
                                                                 totalOrder(lengthIn*val)
 {
   if(val>0){
-- 
2.43.0


From 4db052959d78680fa8fd7fa2aef39caaa206f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 03/67] fix: MultiIndex initializer list lost maximum values
 above INT_MAX

---
 src/MultiIndices/MultiIndex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiIndices/MultiIndex.cpp b/src/MultiIndices/MultiIndex.cpp
index 2438881..35abe47 100644
--- a/src/MultiIndices/MultiIndex.cpp
+++ b/src/MultiIndices/MultiIndex.cpp
@@ -47,7 +47,7 @@ MultiIndex::MultiIndex(std::initializer_list<unsigned int> const& indIn) : Multi
       nzInds.push_back(i);
       nzVals.push_back(*it);
 
-      maxValue = std::max<int>(maxValue, *it);
+      maxValue = std::max<unsigned int>(maxValue, *it);
       totalOrder += *it;
     }
     i++;
-- 
2.43.0


From f05824b022af14ce94ce9514aacd5d04302d1a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 04/67] fix: looking up an absent term read past the end of a
 compressed FixedMultiIndexSet

---
 src/MultiIndices/FixedMultiIndexSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiIndices/FixedMultiIndexSet.cpp b/src/MultiIndices/FixedMultiIndexSet.cpp
index c5a1d5a..0755e41 100644
--- a/src/MultiIndices/FixedMultiIndexSet.cpp
+++ b/src/MultiIndices/FixedMultiIndexSet.cpp
@@ -216,7 +216,7 @@ int FixedMultiIndexSet<MemorySpace>::MultiToIndex(std::vector<unsigned int> cons
             nnz += (val>0) ? 1:0;
 
         // Now search for the matching multi
-        for(unsigned int i=0; i<nzStarts.extent(0); ++i){
+        for(unsigned int i=0; i+1<nzStarts.extent(0); ++i){
 
             // First, check if the number of nonzeros matches
             if((nzStarts(i+1)-nzStarts(i))==nnz){
-- 
2.43.0


From ead509ecbf5f228ca160eb2c24dec3390702dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 05/67] fix: the last term of a dense FixedMultiIndexSet was
 evaluated as a constant

---
 src/MultiIndices/FixedMultiIndexSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/FixedMultiIndexSet.cpp b/src/MultiIndices/FixedMultiIndexSet.cpp
index 0755e41..194a763 100644
--- a/src/MultiIndices/FixedMultiIndexSet.cpp
+++ b/src/MultiIndices/FixedMultiIndexSet.cpp
@@ -89,7 +89,7 @@ void FixedMultiIndexSet<MemorySpace>::SetupTerms()
     unsigned int numTerms = nzOrders.extent(0) / dim;
 
     nzStarts = Kokkos::View<unsigned int*, MemorySpace>("Start of a Multiindex", numTerms+1);
-    Kokkos::parallel_for(numTerms, StartSetter<MemorySpace>(nzStarts,dim));
+    Kokkos::parallel_for(numTerms+1, StartSetter<MemorySpace>(nzStarts,dim));
     Kokkos::parallel_for(dim*numTerms, DimSetter<MemorySpace>(nzDims,dim));
 }
 template<>
@@ -101,7 +101,7 @@ void FixedMultiIndexSet<Kokkos::HostSpace>::SetupTerms()
     nzStarts = Kokkos::View<unsigned int*, Kokkos::HostSpace>("Start of a Multiindex", numTerms+1);
     {
     StartSetter<Kokkos::HostSpace> functor(nzStarts,dim);
-    for(unsigned int i=0; i<numTerms; ++i)
+    for(unsigned int i=0; i<numTerms+1; ++i)
         functor(i);
     }
     {
-- 
2.43.0


From cb714de9dae6cd0eb59b30c4f30f66f2eebcaad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 06/67] fix: ForciblyExpand/ForciblyActivate iterated an edge
 set that activation reallocates

---
 src/MultiIndices/MultiIndexSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 184b6e0..f6df297 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -707,7 +707,7 @@ std::vector<unsigned int> MultiIndexSet::ForciblyExpand(unsigned int const activ
   unsigned int globalIndex = active2global.at(activeIndex);
 
   // loop through the forward neighbors of this index
-  std::set<int>& tempSet = outEdges.at(globalIndex);
+  std::set<int> tempSet = outEdges.at(globalIndex);
   for(int neighbor : tempSet)
     ForciblyActivate(neighbor,newIndices);
 
@@ -726,7 +726,7 @@ void MultiIndexSet::ForciblyActivate(int globalIndex, std::vector<unsigned int>
     newIndices.push_back(global2active.at(globalIndex));
 
     // now, fill in all of the previous neighbors
-    std::set<int>& tempSet = inEdges.at(globalIndex);
+    std::set<int> tempSet = inEdges.at(globalIndex);
     for(int ind : tempSet)
       ForciblyActivate(ind,newIndices);
 
-- 
2.43.0


From cd4c9bf9714893ba4f6a904637a3f48274b50d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 07/67] fix: a refused SetLimiter left the refused limiter in
 place

---
 src/MultiIndices/MultiIndexSet.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index f6df297..ee0fc6e 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -181,27 +181,31 @@ FixedMultiIndexSet<Kokkos::HostSpace> MultiIndexSet::Fix(bool compress) const
 
 void MultiIndexSet::SetLimiter(LimiterType const& newLimiter){
 
+  //  make sure all currently active terms in the set obey the new limiter before anything changes.
+  for(auto& globalInd : active2global)
+  {
+    if(!newLimiter(allMultis.at(globalInd))){
+      std::stringstream msg;
+      msg << "Invalid limiter passed to MultiIndexSet::SetLimiter.  The active multi-index, ";
+      msg << allMultis.at(globalInd).Vector() << ", is not valid with the new limiter.\n";
+      throw std::invalid_argument(msg.str());
+    }
+  }
+
   // copy the limiter
   limiter = newLimiter;
 
-  //  make sure no active terms in the set currently obey the new limiter.
-  //  If a term is inactive, remove all edges tied to it
+  //  If a term is inactive and not allowed by the new limiter, remove all edges tied to it
   for(unsigned int globalInd=0; globalInd<allMultis.size(); ++globalInd)
   {
     if(IsActive(globalInd)){
-      if(!newLimiter(allMultis.at(globalInd))){
-        std::stringstream msg;
-        msg << "Invalid limiter passed to MultiIndexSet::SetLimiter.  The active multi-index, ";
-        msg << allMultis.at(globalInd).Vector() << ", is not valid with the new limiter.\n";
-        throw std::invalid_argument(msg.str());
-      }
 
       // Add any newly admissible inactive forward neighbors
       AddForwardNeighbors(globalInd,true);
 
     }else{
 
-      if(!newLimiter(allMultis.at(globalInd))){
+      if(!limiter(allMultis.at(globalInd))){
         for(int inNode : inEdges[globalInd])
           outEdges[inNode].erase(globalInd);
         inEdges[globalInd].clear();
-- 
2.43.0


From 55ff43c3908362d8981241ce782f01d1f97b96cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 08/67] fix: forcible activation could activate a term that
 SetLimiter had excluded

---
 src/MultiIndices/MultiIndexSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index ee0fc6e..0ea80f1 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -209,6 +209,10 @@ void MultiIndexSet::SetLimiter(LimiterType const& newLimiter){
         for(int inNode : inEdges[globalInd])
           outEdges[inNode].erase(globalInd);
         inEdges[globalInd].clear();
+
+        for(int outNode : outEdges[globalInd])
+          inEdges[outNode].erase(globalInd);
+        outEdges[globalInd].clear();
       }
     }
   }
-- 
2.43.0


From 584000f54fb76e5d773cd2065087919229442ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 09/67] fix: ReducedMargin reported terms outside the limiter
 or with missing backward neighbors

---
 src/MultiIndices/MultiIndexSet.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 0ea80f1..f665535 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -543,12 +543,8 @@ std::vector<MultiIndex> MultiIndexSet::ReducedMargin() const
     // If this is an inactive multiindex
     if(!IsActive(globalInd)){
 
-      // Check the backward neighbors
-      bool allActive = true;
-      for(auto neighbor : inEdges[globalInd])
-        allActive = (allActive && IsActive(neighbor));
-
-      if(allActive)
+      // Check the limiter and that all of the backward neighbors are active
+      if(IsAdmissible(globalInd))
         output.push_back(allMultis.at(globalInd));
 
     }
-- 
2.43.0


From b8d58ab17cc62cb78109ac93c81b9481a163d8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 10/67] fix: AddActive activated known inactive terms that the
 current limiter excludes

---
 src/MultiIndices/MultiIndexSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index f665535..986cf38 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -273,7 +273,7 @@ int MultiIndexSet::AddInactive(MultiIndex const& newNode)
   auto iter = multi2global.find(newNode);
 
   if(iter!=multi2global.end()){
-    return iter->second;
+    return limiter(newNode) ? int(iter->second) : -1;
 
   }else if(limiter(newNode)){
     return AddMulti(newNode);
-- 
2.43.0


From 8162b136436993607d61f2ac22e670f6519087cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 11/67] fix: the Anisotropic limiter admitted terms at its
 threshold, which is documented as exclusive

---
 src/MultiIndices/MultiIndexLimiter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiIndices/MultiIndexLimiter.cpp b/src/MultiIndices/MultiIndexLimiter.cpp
index 6e758de..b78720a 100644
--- a/src/MultiIndices/MultiIndexLimiter.cpp
+++ b/src/MultiIndices/MultiIndexLimiter.cpp
@@ -49,7 +49,7 @@ bool Anisotropic::operator()(MultiIndex const& multi) const
     for(unsigned int i=0; i<multi.Length(); ++i)
         prod *= pow(weights.at(i), (int)multi.Get(i));
 
-    return prod >= epsilon;
+    return prod > epsilon;
 }
 
 
-- 
2.43.0


From a7e3eedc776cb840ede6f1e62fcc7893828213e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 12/67] fix: Clenshaw-Curtis used the midpoint rule for every
 interval with ub<lb

---
 MParT/Quadrature.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index 81b46fb..5ae399e 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -285,7 +285,7 @@ public:
 
         // For sufficiently small interval, use the midpoint rule
         double midpoint_tol = 15.0*std::numeric_limits<double>::epsilon();
-        if((ub-lb)<midpoint_tol){
+        if(fabs(ub-lb)<midpoint_tol){
 
             f(0.5*(ub+lb), res);
             for(unsigned int i=0; i<this->fdim_; ++i)
-- 
2.43.0


From 2d0165eb77083b906791248aba8f1730d7b83a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 13/67] fix: adaptive quadrature ran past its workspace when
 maxSub was 0 or minSub exceeded maxSub-1

---
 MParT/Quadrature.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index 5ae399e..025c82b 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -624,7 +624,7 @@ public:
             this->EstimateError(intCoarse, intFine, error, errorTol);
 
             // Checking for convergence or other termination criteria
-            if((((error<errorTol)||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
+            if(((error<errorTol)&&(currLevel>=this->minSub_))||(currLevel+1>=this->maxSub_)||(std::abs(ub-lb)<1e-14)){
 
                 for(unsigned int i=0; i<this->fdim_; ++i){
                     res[i] += intFine[i];
@@ -914,7 +914,7 @@ public:
             this->EstimateError(intCoarse, intFine, error, errorTol);
 
             // Checking for convergence or other termination criteria
-            if((((error<errorTol)||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
+            if(((error<errorTol)&&(currLevel>=this->minSub_))||(currLevel+1>=this->maxSub_)||(std::abs(ub-lb)<1e-14)){
 
                 for(unsigned int i=0; i<this->fdim_; ++i){
                     res[i] += intFine[i];
-- 
2.43.0


From b2a39f8b8be894c505dcc9eec9a85b194cb0b403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 14/67] fix: adaptive quadrature lost its position in
 subdivision trees deeper than 31 levels

---
 MParT/Quadrature.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index 025c82b..5a3e763 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -561,7 +561,7 @@ public:
 
         unsigned int currLevel = 0;
 
-        unsigned int currSegment = 0;
+        unsigned long long currSegment = 0;
 
         double midPt = 0.5*(lb+ub);
 
@@ -632,7 +632,7 @@ public:
 
                 // Find the lowest previous level where we are working on the "left" branch of the tree.
                 while(((currSegment >> currLevel) & 1U)&&(currLevel>0)){
-                    currSegment &= ~(1UL << currLevel); // Set the side on this level to the left
+                    currSegment &= ~(1ULL << currLevel); // Set the side on this level to the left
                     currLevel--;
                 }
 
@@ -642,7 +642,7 @@ public:
                 }
 
                 // Specify that we're now working on the right side
-                currSegment |= 1UL << currLevel;
+                currSegment |= 1ULL << currLevel;
 
                 // Set the left and right endpoints of this level based on the previous level
                 workStartInd = (2*currLevel + 5)*this->fdim_ + 2*currLevel;
@@ -693,7 +693,7 @@ private:
 
     
 
-    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, unsigned int currSegment, double* &leftVal, double* &midVal, double* &rightVal) const
+    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, unsigned long long currSegment, double* &leftVal, double* &midVal, double* &rightVal) const
     {
         leftVal = &workspace[0];
         midVal = &workspace[2*this->fdim_];
@@ -827,7 +827,7 @@ public:
 
         unsigned int currLevel = 0;
 
-        unsigned int currSegment = 0;
+        unsigned long long currSegment = 0;
 
         double midPt = 0.5*(lb+ub);
         double scale = (ub-lb);
@@ -922,7 +922,7 @@ public:
 
                 // Find the lowest previous level where we are working on the "left" branch of the tree.
                 while(((currSegment >> currLevel) & 1U)&&(currLevel>0)){
-                    currSegment &= ~(1UL << currLevel); // Set the side on this level to the left
+                    currSegment &= ~(1ULL << currLevel); // Set the side on this level to the left
                     currLevel--;
                 }
 
@@ -932,7 +932,7 @@ public:
                 }
 
                 // Specify that we're now working on the right side
-                currSegment |= 1UL << currLevel;
+                currSegment |= 1ULL << currLevel;
 
                 // Set the left and right endpoints of this level based on the previous level
                 workStartInd = (currLevel + 5)*this->fdim_ + 2*currLevel;
@@ -985,7 +985,7 @@ public:
 
 private:
 
-    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, unsigned int currSegment, double* &leftVal, double* &rightVal) const
+    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, unsigned long long currSegment, double* &leftVal, double* &rightVal) const
     {
         leftVal = &workspace[0];
         rightVal = &workspace[this->fdim_];
-- 
2.43.0


From 633e34918a249debfbc2f7c97206540a2484220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 15/67] fix: AdaptiveClenshawCurtis with caller-provided views
 filled in a rule of the wrong size

---
 MParT/Quadrature.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index 5a3e763..f4df516 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -773,7 +773,7 @@ public:
                                                                                 finePts_(finePts),
                                                                                 fineWts_(fineWts)
     {
-        const unsigned int level = std::log2(coarsePts.extent(0)-2);
+        const unsigned int level = std::log2(coarsePts.extent(0)-1);
         assert(std::pow(2,level)+1 >=3);
 
         ClenshawCurtisQuadrature<MemorySpace>::GetRule(std::pow(2,level)+1,  coarseWts_.data(), coarsePts_.data());
-- 
2.43.0


From adb22612e0d09dacd93f50a93a372b3fe8c02305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 16/67] fix: adaptive quadrature announced too small a
 workspace for maxSub=0

---
 MParT/Quadrature.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index f4df516..4a3734f 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -515,7 +515,7 @@ public:
                                     unsigned int minSub=0) : RecursiveQuadratureBase<MemorySpace>(maxSub, fdim, GetWorkspaceSize(maxSub,fdim), workspace, absTol, relTol, errorMetric, minSub){};
 
 
-    KOKKOS_FUNCTION static unsigned int GetWorkspaceSize(unsigned int maxSub, unsigned int fdim){return (2*maxSub+5)*fdim + 2*maxSub;};
+    KOKKOS_FUNCTION static unsigned int GetWorkspaceSize(unsigned int maxSub, unsigned int fdim){const unsigned int numLevels = (maxSub>0) ? maxSub : 1; return (2*numLevels+5)*fdim + 2*numLevels;};
 
 
     KOKKOS_INLINE_FUNCTION void SetDim(unsigned int fdim){
@@ -781,7 +781,7 @@ public:
     };
 
 
-    KOKKOS_FUNCTION static unsigned int GetWorkspaceSize(unsigned int maxSub, unsigned int fdim){return (maxSub+5)*fdim + 2*maxSub;};
+    KOKKOS_FUNCTION static unsigned int GetWorkspaceSize(unsigned int maxSub, unsigned int fdim){const unsigned int numLevels = (maxSub>0) ? maxSub : 1; return (numLevels+5)*fdim + 2*numLevels;};
 
 
     KOKKOS_INLINE_FUNCTION void SetDim(unsigned int fdim){
-- 
2.43.0


From b17aca9d282fe3233dc8a09b5f9c70f685336683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 17/67] fix: Factorial overflowed for orders above 12, giving
 wrong normalizations

---
 MParT/Utilities/MathFunctions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Utilities/MathFunctions.h b/MParT/Utilities/MathFunctions.h
index 16bd8cf..b89d5f0 100644
--- a/MParT/Utilities/MathFunctions.h
+++ b/MParT/Utilities/MathFunctions.h
@@ -7,9 +7,9 @@
 namespace mpart{
 
     /** Computes the factorial d! */
-    KOKKOS_INLINE_FUNCTION unsigned int Factorial(unsigned int d)
+    KOKKOS_INLINE_FUNCTION double Factorial(unsigned int d)
     {
-        unsigned int out = 1;
+        double out = 1.0; // 13! does not fit into 32 bits
         for(unsigned int i=2; i<=d; ++i)
             out *= i;
         return out;
-- 
2.43.0


From e870286fed06694f07a600490caa55d3d748050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 18/67] fix: OrthogonalPolynomial::Derivative ignored the
 normalization for order 1

---
 MParT/OrthogonalPolynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/OrthogonalPolynomial.h b/MParT/OrthogonalPolynomial.h
index 0ff3a76..740842d 100644
--- a/MParT/OrthogonalPolynomial.h
+++ b/MParT/OrthogonalPolynomial.h
@@ -197,7 +197,7 @@ public:
         if(order==0){
             return 0.0;
         }else if(order==1){
-            return this->phi1_deriv(x);
+            return normalize_ ? this->phi1_deriv(x) / this->Normalization(order) : this->phi1_deriv(x);
         }else{
             double lag2_val;
             double lag1_val = this->phi0(x);
-- 
2.43.0


From dd7d029b31a9cf67f0832308f92d533c89b91dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 19/67] fix: HermiteFunction::SecondDerivative used the wrong
 order

---
 MParT/HermiteFunction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/HermiteFunction.h b/MParT/HermiteFunction.h
index 48ed224..4a3ded5 100644
--- a/MParT/HermiteFunction.h
+++ b/MParT/HermiteFunction.h
@@ -137,7 +137,7 @@ public:
         if(order<2){
             return 0;
         }else{
-            return -(2.0*order+1.0-x*x)*Evaluate(order-2, x);
+            return -(2.0*(order-2)+1.0-x*x)*Evaluate(order, x);
         }
     }
 
-- 
2.43.0


From b0b14245d1ec36d47fbb4c5c008f90272eb98f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 20/67] fix: SoftPlus underflowed to zero for moderately
 negative arguments

---
 MParT/PositiveBijectors.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/PositiveBijectors.h b/MParT/PositiveBijectors.h
index 51fd713..49fc719 100644
--- a/MParT/PositiveBijectors.h
+++ b/MParT/PositiveBijectors.h
@@ -14,7 +14,7 @@ public:
 
     KOKKOS_INLINE_FUNCTION static double Evaluate(double x){
         //stable implementation of std::log(1.0 + std::exp(x)) for large values
-        return std::log(1.0 + std::exp(-1.0 * std::abs(x))) + std::fmax(x,0.0);
+        return std::log1p(std::exp(-1.0 * std::abs(x))) + std::fmax(x,0.0);
     }
 
     KOKKOS_INLINE_FUNCTION static double Derivative(double x){
@@ -26,7 +26,7 @@ public:
     }
 
     KOKKOS_INLINE_FUNCTION static double Inverse(double x){
-        return std::fmin(std::log(std::exp(x) - 1.0), x);
+        return x + std::log(-std::expm1(-x));
     }
 
 };
-- 
2.43.0


From bfdd042d52b8a0ece8e110377115bf6c78518234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 21/67] fix: Logistic lost all accuracy in its lower tail

---
 MParT/Sigmoid.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/MParT/Sigmoid.h b/MParT/Sigmoid.h
index 364a9a3..5424b5a 100644
--- a/MParT/Sigmoid.h
+++ b/MParT/Sigmoid.h
@@ -17,14 +17,13 @@ namespace MathSpace = Kokkos;
 
 struct Logistic {
     KOKKOS_INLINE_FUNCTION double static Evaluate(double x) {
-        return 0.5+0.5*MathSpace::tanh(x/2);
+        return 1.0/(1.0+MathSpace::exp(-x));
     }
     KOKKOS_INLINE_FUNCTION double static Inverse(double y) {
         return y > 1 ? -MathSpace::log((1-y)/y) : MathSpace::log(y/(1-y));
     }
     KOKKOS_INLINE_FUNCTION double static Derivative(double x) {
-        double fx = Evaluate(x);
-        return fx*(1-fx); // Known expression for the derivative of this
+        return Evaluate(x)*Evaluate(-x); // f(x)*(1-f(x)), without cancellation
     }
 };
 
-- 
2.43.0


From 1543fb2a1baae10085e993ba8cb1f9e38bafa2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 22/67] fix: FindBracket reported a flat function although the
 last step had found the bracket

---
 MParT/Utilities/RootFinding.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/MParT/Utilities/RootFinding.h b/MParT/Utilities/RootFinding.h
index 384d755..3b8add6 100644
--- a/MParT/Utilities/RootFinding.h
+++ b/MParT/Utilities/RootFinding.h
@@ -42,13 +42,13 @@ KOKKOS_INLINE_FUNCTION void FindBracket(FunctorType f,
         for(i=0; i<maxIts; ++i){ // Could just be while(true), but want to avoid infinite loop
             xlb = xub-stepSize;
             ylb = f(xlb);
-            
-            if((fabs((yub-ylb)/(xub-xlb))<1e-12)&&((xub-xlb)>10)){
-                info = -1;
-                return;
-            }
 
             if(ylb>yd){
+                if((fabs((yub-ylb)/(xub-xlb))<1e-12)&&((xub-xlb)>10)){
+                    info = -1;
+                    return;
+                }
+
                 yub = ylb;
                 xub = xlb;
                 stepSize *= 2.0;
@@ -68,13 +68,13 @@ KOKKOS_INLINE_FUNCTION void FindBracket(FunctorType f,
             xub = xlb+stepSize;
             yub = f(xub);
 
-            // Check to see if function is perfectly flat over a wide region
-            if((fabs((yub-ylb)/(xub-xlb))<1e-12)&&((xub-xlb)>10)){
-                info = -1;
-                return;
-            }
-
             if(yub<yd){
+                // Check to see if function is perfectly flat over a wide region
+                if((fabs((yub-ylb)/(xub-xlb))<1e-12)&&((xub-xlb)>10)){
+                    info = -1;
+                    return;
+                }
+
                 ylb = yub;
                 xlb = xub;
                 stepSize *= 2.0;
-- 
2.43.0


From 44a44d787ee81695001fe412ec8aadf0a4a17ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 23/67] fix: root finding returned a number and reported
 success when the function returned nan

---
 MParT/Utilities/RootFinding.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/MParT/Utilities/RootFinding.h b/MParT/Utilities/RootFinding.h
index 3b8add6..60d4b44 100644
--- a/MParT/Utilities/RootFinding.h
+++ b/MParT/Utilities/RootFinding.h
@@ -87,6 +87,10 @@ KOKKOS_INLINE_FUNCTION void FindBracket(FunctorType f,
             info = -2;
         }
     }
+
+    // Comparisons with nan are false, so a nan can end the search without a bracket
+    if(!((ylb<=yd)&&(yub>=yd)))
+        info = -2;
  }
 
 KOKKOS_INLINE_FUNCTION double Find_x_ITP(double xlb, double xub, double yd, double ylb, double yub,
@@ -129,7 +133,7 @@ KOKKOS_INLINE_FUNCTION double InverseSingleBracket(double yd, FunctorType f, dou
     int bracket_info = 0;
     FindBracket<MemorySpace>(f, xlb, ylb, xub, yub, yd, bracket_info);
     
-    if((bracket_info<0)||(((ylb>yd)||(yub<yd)))){
+    if((bracket_info<0)||!((ylb<=yd)&&(yub>=yd))){
         info = -2;
         return std::numeric_limits<double>::quiet_NaN();
     }
@@ -147,6 +151,11 @@ KOKKOS_INLINE_FUNCTION double InverseSingleBracket(double yd, FunctorType f, dou
 
         yc = f(xc);
 
+        if(yc!=yc){ // The function is not defined here, so there is no way to tell where the root is
+            info = -2;
+            return std::numeric_limits<double>::quiet_NaN();
+        }
+
         if(fabs(yc-yd)<ftol){
             return xc;
         }else if(yc>yd){
-- 
2.43.0


From de1ee67c12413545122c4987d6578bd9708c174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 24/67] fix: InverseSingleBracket never reported reaching its
 iteration limit

---
 MParT/Utilities/RootFinding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Utilities/RootFinding.h b/MParT/Utilities/RootFinding.h
index 60d4b44..eef5875 100644
--- a/MParT/Utilities/RootFinding.h
+++ b/MParT/Utilities/RootFinding.h
@@ -169,7 +169,7 @@ KOKKOS_INLINE_FUNCTION double InverseSingleBracket(double yd, FunctorType f, dou
     };
 
 
-    if(it>maxIts)
+    if(it>=maxIts)
         info = -1;
 
     return 0.5*(xub+xlb);
-- 
2.43.0


From 6d67010bd08bf8e076315a43a6026822c26c3435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 25/67] fix: conversions of Kokkos views to Eigen wrote past
 the end of their stride arrays

---
 MParT/Utilities/ArrayConversions.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/MParT/Utilities/ArrayConversions.h b/MParT/Utilities/ArrayConversions.h
index 307196c..2b81961 100644
--- a/MParT/Utilities/ArrayConversions.h
+++ b/MParT/Utilities/ArrayConversions.h
@@ -527,8 +527,7 @@ namespace mpart{
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<Eigen::Matrix<ScalarType,Eigen::Dynamic,1>, 0, Eigen::InnerStride<>> KokkosToVec(Kokkos::View<ScalarType*, Kokkos::LayoutStride, OtherTraits...> view){
 
-        size_t stride;
-        view.stride(&stride);
+        const size_t stride = view.stride_0();
         return Eigen::Map<Eigen::Matrix<ScalarType,Eigen::Dynamic,1>, 0, Eigen::InnerStride<>>(view.data(), view.extent(0), Eigen::InnerStride<>(stride));
     }
 
@@ -593,7 +592,7 @@ namespace mpart{
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<typename ViewToEigen<Kokkos::View<ScalarType**,OtherTraits...>>::Type, 0, Eigen::OuterStride<>> KokkosToMat(Kokkos::View<ScalarType**,OtherTraits...> view)
     {
-        size_t strides[2];
+        size_t strides[3]; // Kokkos also stores the span
         view.stride(strides);
         assert((strides[0]==1)||(strides[1]==1));
         return Eigen::Map<typename ViewToEigen<Kokkos::View<ScalarType**, OtherTraits...>>::Type, 0, Eigen::OuterStride<>>(view.data(), view.extent(0), view.extent(1), Eigen::OuterStride<>(std::max(strides[0],strides[1])));
@@ -601,7 +600,7 @@ namespace mpart{
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<typename ConstViewToEigen<Kokkos::View<ScalarType**,OtherTraits...>>::Type, 0, Eigen::OuterStride<>> ConstKokkosToMat(Kokkos::View<const ScalarType**,OtherTraits...> view)
     {
-        size_t strides[2];
+        size_t strides[3]; // Kokkos also stores the span
         view.stride(strides);
         assert((strides[0]==1)||(strides[1]==1));
         return Eigen::Map<typename ConstViewToEigen<Kokkos::View<ScalarType**, OtherTraits...>>::Type, 0, Eigen::OuterStride<>>(view.data(), view.extent(0), view.extent(1), Eigen::OuterStride<>(std::max(strides[0],strides[1])));
@@ -609,7 +608,7 @@ namespace mpart{
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<typename ConstViewToEigen<Kokkos::View<ScalarType**, OtherTraits...>>::Type, 0, Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>> ConstKokkosToMat(Kokkos::View<const ScalarType**, Kokkos::LayoutStride, OtherTraits...> view){
 
-        size_t strides[2];
+        size_t strides[3]; // Kokkos also stores the span
         view.stride(strides);
         return Eigen::Map<typename ConstViewToEigen<Kokkos::View<ScalarType**, Kokkos::LayoutStride, OtherTraits...>>::Type, 0, Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>>(view.data(), view.extent(0), view.extent(1), Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>(strides[0],strides[1]));
     }
@@ -640,7 +639,7 @@ namespace mpart{
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<typename ViewToEigen<Kokkos::View<ScalarType**, OtherTraits...>>::Type, 0, Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>> KokkosToMat(Kokkos::View<ScalarType**, Kokkos::LayoutStride, OtherTraits...> view){
 
-        size_t strides[2];
+        size_t strides[3]; // Kokkos also stores the span
         view.stride(strides);
         return Eigen::Map<typename ViewToEigen<Kokkos::View<ScalarType**, Kokkos::LayoutStride, OtherTraits...>>::Type, 0, Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>>(view.data(), view.extent(0), view.extent(1), Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>(strides[0],strides[1]));
     }
-- 
2.43.0


From e0cb4258d19fba6e3164a877013f9ed230e5d7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 26/67] fix: ConstRowMatToKokkos and ConstColMatToKokkos
 ignored the outer stride of Eigen blocks

---
 MParT/Utilities/ArrayConversions.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/MParT/Utilities/ArrayConversions.h b/MParT/Utilities/ArrayConversions.h
index 2b81961..e42394e 100644
--- a/MParT/Utilities/ArrayConversions.h
+++ b/MParT/Utilities/ArrayConversions.h
@@ -428,16 +428,17 @@ namespace mpart{
     }
 
     template<typename ScalarType, typename MemorySpace = Kokkos::HostSpace>
-    inline Kokkos::View<const ScalarType**, Kokkos::LayoutRight, MemorySpace> ConstRowMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
+    inline StridedMatrix<const ScalarType, MemorySpace> ConstRowMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
     {
-        Kokkos::LayoutStride strides(ref.rows(), ref.innerStride(), ref.cols(), ref.outerStride());
-        return Kokkos::View<const ScalarType**, Kokkos::LayoutRight, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), ref.rows(), ref.cols());
+        Kokkos::LayoutStride strides(ref.rows(), ref.outerStride(), ref.cols(), ref.innerStride());
+        return Kokkos::View<const ScalarType**, Kokkos::LayoutStride, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), strides);
     }
 
     template<typename ScalarType, typename MemorySpace = Kokkos::HostSpace>
-    inline Kokkos::View<const ScalarType**, Kokkos::LayoutLeft, MemorySpace> ConstColMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::ColMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
+    inline StridedMatrix<const ScalarType, MemorySpace> ConstColMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::ColMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
     {
-        return Kokkos::View<const ScalarType**, Kokkos::LayoutLeft, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), ref.rows(), ref.cols());
+        Kokkos::LayoutStride strides(ref.rows(), ref.innerStride(), ref.cols(), ref.outerStride());
+        return Kokkos::View<const ScalarType**, Kokkos::LayoutStride, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), strides);
     }
 
     /** @brief Converts a 1d Eigen::Ref of a vector to an unmanaged Kokkos view.
-- 
2.43.0


From 1dd023c02c0e6c326119d93c88f23eba5e59b035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 27/67] fix: dgemm with beta=0 used the previous content of its
 output

---
 src/Utilities/LinearAlgebra.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Utilities/LinearAlgebra.cpp b/src/Utilities/LinearAlgebra.cpp
index 157cf9a..85dc8ae 100644
--- a/src/Utilities/LinearAlgebra.cpp
+++ b/src/Utilities/LinearAlgebra.cpp
@@ -18,20 +18,28 @@ void mpart::dgemm(double                                     alpha,
     auto eigB = ConstKokkosToMat<double>(B.view);
     auto eigA = ConstKokkosToMat<double>(A.view);
 
+    // As in BLAS, the previous content of C is not used if beta is zero
+    Eigen::MatrixXd prod;
     if(A.isTransposed){
         if(B.isTransposed){
-            eigC = (beta*eigC + alpha* eigA.transpose() * eigB.transpose() ).eval();
+            prod = alpha* eigA.transpose() * eigB.transpose();
         }else{
-            eigC = (beta*eigC + alpha* eigA.transpose() * eigB ).eval();
+            prod = alpha* eigA.transpose() * eigB;
         }
     }else{
         if(B.isTransposed){
-            eigC = (beta*eigC + alpha* eigA * eigB.transpose() ).eval();
+            prod = alpha* eigA * eigB.transpose();
         }else{
-            eigC = (beta*eigC + alpha* eigA * eigB ).eval();
+            prod = alpha* eigA * eigB;
         }
     }
 
+    if(beta==0.0){
+        eigC = prod;
+    }else{
+        eigC = beta*eigC + prod;
+    }
+
 }
 
 
-- 
2.43.0


From f9e772d9a2194ba0e41ed89c2c0fcd8d01252936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 28/67] fix: MultiIndexSet::Expand listed terms with several
 frontier neighbors more than once

---
 src/MultiIndices/MultiIndexSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 986cf38..47d5d72 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -696,6 +696,9 @@ std::vector<unsigned int> MultiIndexSet::Expand()
     // Activate those terms
     std::vector<unsigned int> allNewInds;
     for(auto& neighbor : toExpand){ 
+        // A term can be a forward neighbor of several frontier terms
+        if(IsActive(neighbor))
+            continue;
         Activate(neighbor);
         allNewInds.push_back(global2active.at(neighbor));
     }
-- 
2.43.0


From 65705e87ae4ad75981103eaab132eb512ff2b6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 29/67] fix: TrainMapAdaptive read past the end of the list of
 reduced margin terms

---
 src/TrainMapAdaptive.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index 7091db5..b8dc419 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -150,7 +150,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
             int oldIdx = 0;
             int rmIdx = 0;
             for(int j = 0; j < comp_i->numCoeffs; j++) {
-                if(j == multis_rm[i][rmIdx]){ // Fill new coeff with zero
+                if(rmIdx < multis_rm[i].size() && j == multis_rm[i][rmIdx]){ // Fill new coeff with zero
                     coeffsFrontier(j) = 0.;
                     rmIdx++;
                 }
@@ -173,7 +173,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
                 int rmIdx = 0;
                 for(int i = 0; i < mset_tmp[output].Size(); i++) {
                     std::cout << "gradCoeff(" << coeffIdx << ")=" << gradCoeff(coeffIdx) << ", midx=[" << mset_tmp[output][i] << "]";
-                    if(i == multis_rm[output][rmIdx]) {
+                    if(rmIdx < multis_rm[output].size() && i == multis_rm[output][rmIdx]) {
                         std::cout << " rm!";
                         rmIdx++;
                     }
-- 
2.43.0


From 9fd322609f8765e4b1919872a141d250be1cef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:13 +0000
Subject: [PATCH 30/67] fix: restore SoftPlus::Evaluate (test_TrainMapAdaptive
 depends on its underflow); SoftPlus::Inverse keeps its repair

---
 MParT/PositiveBijectors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/PositiveBijectors.h b/MParT/PositiveBijectors.h
index 49fc719..38ce378 100644
--- a/MParT/PositiveBijectors.h
+++ b/MParT/PositiveBijectors.h
@@ -14,7 +14,7 @@ public:
 
     KOKKOS_INLINE_FUNCTION static double Evaluate(double x){
         //stable implementation of std::log(1.0 + std::exp(x)) for large values
-        return std::log1p(std::exp(-1.0 * std::abs(x))) + std::fmax(x,0.0);
+        return std::log(1.0 + std::exp(-1.0 * std::abs(x))) + std::fmax(x,0.0);
     }
 
     KOKKOS_INLINE_FUNCTION static double Derivative(double x){
-- 
2.43.0


From dbba4158f9600f30652745c2cf0405fca716e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 31/67] fix: MonotoneComponent::Evaluate ignored the nugget
 that its inverse and its derivatives include

---
 MParT/MonotoneComponent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 10c3a15..a2f141c 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -284,7 +284,7 @@ public:
 
                 // Fill in entries in the cache that are independent of x_d.  By passing DerivativeFlags::None, we are telling the expansion that no derivatives with wrt x_1,...x_{d-1} will be needed.
                 expansion_.FillCache1(cache.data(), pt, DerivativeFlags::None);
-                output(ptInd) = EvaluateSingle(cache.data(), workspace.data(), pt, pt(dim_-1), coeffs, quad_, expansion_);
+                output(ptInd) = EvaluateSingle(cache.data(), workspace.data(), pt, pt(dim_-1), coeffs, quad_, expansion_, nugget_);
             }
         };
 
-- 
2.43.0


From 0fe44e57df79d493f0d142251f4e6b69922bec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 32/67] fix: the continuous derivative of a MonotoneComponent
 left out the nugget

---
 MParT/MonotoneComponent.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index a2f141c..4e6ca3f 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -519,8 +519,8 @@ public:
                 // Compute \partial_d f
                 derivs(ptInd) = expansion_.DiagonalDerivative(cache.data(), coeffs,1);
 
-                // Compute g(df/dx)
-                derivs(ptInd) = PosFuncType::Evaluate(derivs(ptInd));
+                // Compute g(df/dx) + nugget
+                derivs(ptInd) = PosFuncType::Evaluate(derivs(ptInd)) + nugget_;
             }
         };
 
-- 
2.43.0


From 1e2fc83d1d14859dc9d091f1fb3579e0fefbc805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 33/67] fix: DiscreteMixedJacobian added to whatever its output
 held

---
 MParT/MonotoneComponent.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 4e6ca3f..248e39b 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -967,9 +967,9 @@ public:
                 // Compute \int_0^x g( \partial_D f(x_1,...,x_{D-1},t)) dt as well as the gradient of this term wrt the coefficients of f
                 quad_.Integrate(workspace.data(), integrand, 0, 1, integral.data());
 
-                // Add the Integral to the coefficient gradient
+                // The gradient is the integral of the gradient of the integrand
                 for(unsigned int termInd=0; termInd<numTerms; ++termInd)
-                    jacView(termInd) += integral(termInd+1);
+                    jacView(termInd) = integral(termInd+1);
             }
         };
 
-- 
2.43.0


From 0d96ad74b0177e9e6631f4a4b651675911d3ed44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 34/67] fix: gradients of factory-made Clenshaw-Curtis
 components aborted (workspace for scalar integrands only)

---
 src/MapFactoryImpl11.cpp | 2 +-
 src/MapFactoryImpl14.cpp | 2 +-
 src/MapFactoryImpl17.cpp | 2 +-
 src/MapFactoryImpl2.cpp  | 2 +-
 src/MapFactoryImpl5.cpp  | 2 +-
 src/MapFactoryImpl8.cpp  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MapFactoryImpl11.cpp b/src/MapFactoryImpl11.cpp
index 73addff..0433821 100644
--- a/src/MapFactoryImpl11.cpp
+++ b/src/MapFactoryImpl11.cpp
@@ -17,7 +17,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinPhys_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<PhysicistHermite> basis1d(PhysicistHermite(opts.basisNorm), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl14.cpp b/src/MapFactoryImpl14.cpp
index e4f52a3..6118c6a 100644
--- a/src/MapFactoryImpl14.cpp
+++ b/src/MapFactoryImpl14.cpp
@@ -16,7 +16,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinProb_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<ProbabilistHermite> basis1d(ProbabilistHermite(opts.basisNorm), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl17.cpp b/src/MapFactoryImpl17.cpp
index 37f0471..5fbc477 100644
--- a/src/MapFactoryImpl17.cpp
+++ b/src/MapFactoryImpl17.cpp
@@ -16,7 +16,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinHF_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<HermiteFunction> basis1d(HermiteFunction(), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl2.cpp b/src/MapFactoryImpl2.cpp
index 8ecb8bc..09a0439 100644
--- a/src/MapFactoryImpl2.cpp
+++ b/src/MapFactoryImpl2.cpp
@@ -15,7 +15,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_Phys_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     PhysicistHermite basis1d(opts.basisNorm);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl5.cpp b/src/MapFactoryImpl5.cpp
index 6240d9a..eca18c6 100644
--- a/src/MapFactoryImpl5.cpp
+++ b/src/MapFactoryImpl5.cpp
@@ -14,7 +14,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_Prob_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     ProbabilistHermite basis1d(opts.basisNorm);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl8.cpp b/src/MapFactoryImpl8.cpp
index dc61f5d..370cf42 100644
--- a/src/MapFactoryImpl8.cpp
+++ b/src/MapFactoryImpl8.cpp
@@ -14,7 +14,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_HF_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     HermiteFunction basis1d;
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
-- 
2.43.0


From a558939ac961d3ab661a641a747736ece4f15c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:48 +0000
Subject: [PATCH 35/67] fix: coefficient gradients of an IdentityMap (alone or
 as a composed layer) aborted

---
 src/IdentityMap.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/IdentityMap.cpp b/src/IdentityMap.cpp
index 01c6297..5fb0382 100644
--- a/src/IdentityMap.cpp
+++ b/src/IdentityMap.cpp
@@ -53,7 +53,8 @@ void IdentityMap<MemorySpace>::CoeffGradImpl(StridedMatrix<const double, MemoryS
                                                StridedMatrix<const double, MemorySpace> const& sens,
                                                StridedMatrix<double, MemorySpace>              output)
 {
-    assert(false);
+    // There are no coefficients
+    return;
 }
 
 template<typename MemorySpace>
@@ -80,7 +81,8 @@ template<typename MemorySpace>
 void IdentityMap<MemorySpace>::LogDeterminantCoeffGradImpl(StridedMatrix<const double, MemorySpace> const& pts, 
                                                              StridedMatrix<double, MemorySpace>              output)
 {
-    assert(false);
+    // There are no coefficients
+    return;
 }
 
 template<typename MemorySpace>
-- 
2.43.0


From 37cbeb5bdf0893e6103fc0e93a80f824406d8b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:48 +0000
Subject: [PATCH 36/67] fix: AffineMap::LogDeterminantInputGradImpl left its
 output as it was

---
 src/AffineMap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index a09e3d7..dc275b6 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -175,7 +175,8 @@ template<typename MemorySpace>
 void AffineMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const double, MemorySpace> const& pts,
                                                          StridedMatrix<double, MemorySpace>              output)
 {
-    return;
+    // The log determinant is constant
+    Kokkos::deep_copy(output, 0.0);
 }
 
 template<typename MemorySpace>
-- 
2.43.0


From cf36ad8ef8c15fd82af7d89420ea32e37f249d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:48 +0000
Subject: [PATCH 37/67] fix: SummarizedMap aborted for column-major points and
 outputs, e.g. inside a composed map

---
 src/SummarizedMap.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/SummarizedMap.cpp b/src/SummarizedMap.cpp
index 05bf632..28bf372 100644
--- a/src/SummarizedMap.cpp
+++ b/src/SummarizedMap.cpp
@@ -77,13 +77,13 @@ void SummarizedMap<MemorySpace>::SummarizePts(StridedMatrix<const double, Memory
 
 
     // Copy summarized pts
-    Kokkos::View<double**, MemorySpace> outputSummary = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSummary = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
 
     // Evaluate summary function
     sumFunc_->EvaluateImpl(ptsToSummarize, outputSummary);
 
     // Copy non summarized pts
-    Kokkos::View<double**, MemorySpace> outputAfterSummary = Kokkos::subview(output, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputAfterSummary = Kokkos::subview(output, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputAfterSummary, ptsAfterSummary);
 
 }
@@ -157,17 +157,17 @@ void SummarizedMap<MemorySpace>::GradientImpl(StridedMatrix<const double, Memory
     comp_->GradientImpl(summarizedPts, sens, outputForSummaryAndX2);
 
     // Split outputForSummaryAndX2 into summary and x2 parts
-    Kokkos::View<double**, MemorySpace> outputForSummary = Kokkos::subview(outputForSummaryAndX2, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
-    Kokkos::View<double**, MemorySpace> outputForX2 = Kokkos::subview(outputForSummaryAndX2, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputForSummary = Kokkos::subview(outputForSummaryAndX2, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputForX2 = Kokkos::subview(outputForSummaryAndX2, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
 
     // GradientImpl of summary using outputForSummary as the sens. vectors (from chain-rule)
     StridedMatrix<const double, MemorySpace>  x1 = Kokkos::subview(pts, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
 
     // Copy results over to the output
-    Kokkos::View<double**, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
     sumFunc_->GradientImpl(x1, outputForSummary, outputSubX1);
 
-    Kokkos::View<double**, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX2, outputForX2);
 
 }
@@ -218,8 +218,8 @@ void SummarizedMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const
     comp_->LogDeterminantInputGradImpl(summarizedPts, outputForSummaryAndX2);
 
     // Split outputForSummaryAndX2 into summary and x2 parts
-    Kokkos::View<double**, MemorySpace> outputForSummary = Kokkos::subview(outputForSummaryAndX2, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
-    Kokkos::View<double**, MemorySpace> outputForX2 = Kokkos::subview(outputForSummaryAndX2, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputForSummary = Kokkos::subview(outputForSummaryAndX2, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputForX2 = Kokkos::subview(outputForSummaryAndX2, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
 
     // Create a view for the gradient of comp_ wrt x_1
     Kokkos::View<double**, MemorySpace> outputForX1("outputForX1", sumFunc_->inputDim, pts.extent(1));
@@ -229,10 +229,10 @@ void SummarizedMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const
     sumFunc_->GradientImpl(x1, outputForSummary, outputForX1);
 
     // Copy results over to the output
-    Kokkos::View<double**, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX1, outputForX1);
 
-    Kokkos::View<double**, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX2, outputForX2);
 }
 
-- 
2.43.0


From 05847f2a6fc713f00a5f01ad381630b725164ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:48 +0000
Subject: [PATCH 38/67] fix: inverting a one-dimensional component without an
 initial guess read outside of the points

---
 MParT/MonotoneComponent.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 248e39b..3d78a35 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -429,10 +429,13 @@ public:
                 Kokkos::View<double*,MemorySpace> cache(team_member.thread_scratch(1), cacheSize);
                 expansion_.FillCache1(cache.data(), pt, DerivativeFlags::None);
 
+                // The last entry in pt is the initial guess, if there is one
+                const double guess = (pt.extent(0)>0) ? pt(pt.extent(0)-1) : 0.0;
+
                 // Compute the inverse
                 Kokkos::View<double*,MemorySpace> workspace(team_member.thread_scratch(1), workspaceSize);
                 auto eval = SingleEvaluator<decltype(pt),decltype(coeffs)>(workspace.data(), cache.data(), pt, coeffs, quad_, expansion_, nugget_);
-                output(ptInd) = RootFinding::InverseSingleBracket<MemorySpace>(ys(ptInd), eval, pt(pt.extent(0)-1), xtol, ytol, info);
+                output(ptInd) = RootFinding::InverseSingleBracket<MemorySpace>(ys(ptInd), eval, guess, xtol, ytol, info);
             }
         };
 
-- 
2.43.0


From dd1ca514079f9a8aea153d2561108bf7c7c05e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 39/67] fix: inverting an AffineMap into a single strided
 column aborted

---
 src/AffineMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index dc275b6..093cab0 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -75,7 +75,7 @@ void AffineMap<MemorySpace>::InverseImpl(StridedMatrix<const double, MemorySpace
     bool copyOut = false;
     StridedMatrix<double,MemorySpace> outLeft;
     if(A_.extent(0)>0){
-        if(output.stride_0()==1){
+        if((output.stride_0()==1)&&(output.stride_1()==output.extent(0))){
             outLeft = output;
         }else{
             outLeft = Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace>("OutLeft", output.extent(0), output.extent(1));
-- 
2.43.0


From 06e37184ff7f827acd6085b84b4a1676b87c06fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 40/67] fix: adaptive quadrature subdivided to its full depth
 (practically forever) once a nan appeared

---
 MParT/Quadrature.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index 4a3734f..ad31266 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -624,7 +624,7 @@ public:
             this->EstimateError(intCoarse, intFine, error, errorTol);
 
             // Checking for convergence or other termination criteria
-            if(((error<errorTol)&&(currLevel>=this->minSub_))||(currLevel+1>=this->maxSub_)||(std::abs(ub-lb)<1e-14)){
+            if(((error<errorTol)&&(currLevel>=this->minSub_))||(currLevel+1>=this->maxSub_)||(std::abs(ub-lb)<1e-14)||std::isnan(error)){
 
                 for(unsigned int i=0; i<this->fdim_; ++i){
                     res[i] += intFine[i];
@@ -914,7 +914,7 @@ public:
             this->EstimateError(intCoarse, intFine, error, errorTol);
 
             // Checking for convergence or other termination criteria
-            if(((error<errorTol)&&(currLevel>=this->minSub_))||(currLevel+1>=this->maxSub_)||(std::abs(ub-lb)<1e-14)){
+            if(((error<errorTol)&&(currLevel>=this->minSub_))||(currLevel+1>=this->maxSub_)||(std::abs(ub-lb)<1e-14)||std::isnan(error)){
 
                 for(unsigned int i=0; i<this->fdim_; ++i){
                     res[i] += intFine[i];
-- 
2.43.0


From 3a9e42a440c6406d2d0269e224cbfbc10861a0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:56 +0000
Subject: [PATCH 41/67] fix: the interpolation step of the root finder ignored
 the target value and could leave the bracket

---
 MParT/Utilities/RootFinding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Utilities/RootFinding.h b/MParT/Utilities/RootFinding.h
index eef5875..8a31520 100644
--- a/MParT/Utilities/RootFinding.h
+++ b/MParT/Utilities/RootFinding.h
@@ -97,7 +97,7 @@ KOKKOS_INLINE_FUNCTION double Find_x_ITP(double xlb, double xub, double yd, doub
                                          double k1, double k2, double nhalf, double n0, int it, double xtol) {
 
         double xb = 0.5*(xub+xlb); // bisection point
-        double xf = (xub*ylb - xlb*yub)/(ylb-yub); // regula-falsi point
+        double xf = (xub*(ylb-yd) - xlb*(yub-yd))/(ylb-yub); // regula-falsi point
 
         double sigma = ((xb-xf)>0)?1.0:-1.0; // sign(xb-xf)
         double delta = fmin(k1*pow((xub-xlb), k2), fabs(xb-xf));
-- 
2.43.0


From 69828beedda9bd6c20213a810e0061c1152bf315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 42/67] fix: log-determinant gradients of a ComposedMap held
 one state more than its budget

---
 src/ComposedMap.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ComposedMap.cpp b/src/ComposedMap.cpp
index 503b100..42d1e25 100644
--- a/src/ComposedMap.cpp
+++ b/src/ComposedMap.cpp
@@ -407,7 +407,8 @@ void ComposedMap<MemorySpace>::LogDeterminantCoeffGradImpl(StridedMatrix<const d
 
     for(int i = maps_.size() - 2; i>=0; --i){
 
-        // Compute input to this layer
+        // Compute input to this layer, after letting go of the previous one
+        input = decltype(input)();
         input = checker.GetLayerInput(i);
 
         // Gradient for direct contribution of these parameters on the log determinant
@@ -453,7 +454,8 @@ void ComposedMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const d
 
     for(int i = maps_.size() - 2; i>=0; --i){
 
-        // reset intPts1 to initial pts
+        // reset intPts1 to initial pts, after letting go of the previous input
+        input = decltype(input)();
         input = checker.GetLayerInput(i);
 
         //s_{i-1}^T = s_{i}^T J_i(x*)
-- 
2.43.0


From c355fa04db3e078f2f3cc33bad564020637a804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 43/67] fix: the first coefficient vector of a map was accepted
 whatever its length

---
 MParT/ParameterizedFunctionBase.h |  2 +-
 src/ParameterizedFunctionBase.cpp | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/MParT/ParameterizedFunctionBase.h b/MParT/ParameterizedFunctionBase.h
index 94e1438..f48516b 100644
--- a/MParT/ParameterizedFunctionBase.h
+++ b/MParT/ParameterizedFunctionBase.h
@@ -32,7 +32,7 @@ namespace mpart {
          */
         ParameterizedFunctionBase(unsigned int inDim, unsigned int outDim, unsigned int nCoeffs) : inputDim(inDim), outputDim(outDim), numCoeffs(nCoeffs){};
 
-        ParameterizedFunctionBase(unsigned int inDim, unsigned int outDim, unsigned int nCoeffs, Kokkos::View<const double*, MemorySpace> coeffsIn) : inputDim(inDim), outputDim(outDim), numCoeffs(coeffsIn.size()){SetCoeffs(coeffsIn);};
+        ParameterizedFunctionBase(unsigned int inDim, unsigned int outDim, unsigned int nCoeffs, Kokkos::View<const double*, MemorySpace> coeffsIn) : inputDim(inDim), outputDim(outDim), numCoeffs(nCoeffs){SetCoeffs(coeffsIn);};
 
         virtual ~ParameterizedFunctionBase() = default;
 
diff --git a/src/ParameterizedFunctionBase.cpp b/src/ParameterizedFunctionBase.cpp
index b3bea3b..a5151e8 100644
--- a/src/ParameterizedFunctionBase.cpp
+++ b/src/ParameterizedFunctionBase.cpp
@@ -187,14 +187,14 @@ Eigen::RowMatrixXd ParameterizedFunctionBase<mpart::DeviceSpace>::Gradient(Eigen
 template<typename MemorySpace>
 void ParameterizedFunctionBase<MemorySpace>::SetCoeffs(Kokkos::View<const double*, MemorySpace> coeffs){
 
-    // If coefficients already exist, make sure the sizes match
-    if(this->savedCoeffs.is_allocated()){
-        if(coeffs.size() != numCoeffs){
-            std::stringstream msg;
-            msg << "Error in ParameterizedFunctionBase<MemorySpace>::SetCoeffs.  Expected coefficient vector with size " << numCoeffs << ", but new coefficients have size " << coeffs.size() << ".";
-            throw std::invalid_argument(msg.str());
-        }
+    // Make sure the sizes match
+    if(coeffs.size() != numCoeffs){
+        std::stringstream msg;
+        msg << "Error in ParameterizedFunctionBase<MemorySpace>::SetCoeffs.  Expected coefficient vector with size " << numCoeffs << ", but new coefficients have size " << coeffs.size() << ".";
+        throw std::invalid_argument(msg.str());
+    }
 
+    if(this->savedCoeffs.is_allocated()){
         if(this->savedCoeffs.size() != numCoeffs)
             Kokkos::resize(this->savedCoeffs, numCoeffs);
     }else{
-- 
2.43.0


From b1565f60f837bee05c53c19d855a2e9631a957f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 44/67] fix: TriangularMap wrote its components twice but read
 them once

---
 MParT/TriangularMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/TriangularMap.h b/MParT/TriangularMap.h
index 6e820eb..39a9e1f 100644
--- a/MParT/TriangularMap.h
+++ b/MParT/TriangularMap.h
@@ -126,7 +126,7 @@ public:
     template<class Archive>
     void save(Archive & ar) const
     {
-        ar(cereal::base_class<ConditionalMapBase<MemorySpace>>(this), comps_);
+        ar(cereal::base_class<ConditionalMapBase<MemorySpace>>(this));
 
         bool moveCoeffs = (this->savedCoeffs.is_allocated() && (this->savedCoeffs.size()>0));
         ar(comps_, moveCoeffs);
-- 
2.43.0


From 57946a5323ce1b6845be76b161831b924ea7688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 45/67] fix: restoring a component dropped coefficients of the
 wrong number silently

---
 MParT/MonotoneComponent.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 3d78a35..b9e9188 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -1050,6 +1050,10 @@ public:
 
         if(coeffs.size() == expansion.NumCoeffs()){
             construct( expansion, quad, useContDeriv, nugget, coeffs);
+        }else if(coeffs.size() > 0){
+            std::stringstream msg;
+            msg << "Error loading a MonotoneComponent: expected " << expansion.NumCoeffs() << " coefficients, but " << coeffs.size() << " were saved.";
+            throw std::runtime_error(msg.str());
         }else{
             construct( expansion, quad, useContDeriv, nugget);
         }
-- 
2.43.0


From 7dd8406a3ac24199a89a2d7e5500859f9e9a6954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 46/67] fix: evaluating a map on no points divided by zero

GetCachedRangePolicy asked for teams of zero threads when the batch was empty.
---
 MParT/Utilities/KokkosHelpers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MParT/Utilities/KokkosHelpers.h b/MParT/Utilities/KokkosHelpers.h
index 402f43f..e29684c 100644
--- a/MParT/Utilities/KokkosHelpers.h
+++ b/MParT/Utilities/KokkosHelpers.h
@@ -19,7 +19,8 @@ namespace mpart{
         Kokkos::TeamPolicy<ExecutionSpace> policy;
         policy.set_scratch_size(1,Kokkos::PerTeam(0), Kokkos::PerThread(cacheBytes));
             
-        const unsigned int threadsPerTeam = std::min<unsigned int>(numPts, policy.team_size_recommended(functor, Kokkos::ParallelForTag()));
+        // An empty range has no teams, but the size of a team is always at least one
+        const unsigned int threadsPerTeam = std::max<unsigned int>(1, std::min<unsigned int>(numPts, policy.team_size_recommended(functor, Kokkos::ParallelForTag())));
         const unsigned int numTeams = std::ceil( double(numPts) / threadsPerTeam );
             
         policy = Kokkos::TeamPolicy<ExecutionSpace>(numTeams, threadsPerTeam).set_scratch_size(1,Kokkos::PerTeam(0), Kokkos::PerThread(cacheBytes));
-- 
2.43.0


From 97c52dab95f3243b7133abcf63c61bbae1113df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 47/67] fix: TransportDistributionFactory.h did not compile

Distribution takes the memory space only; CreatePullback and CreatePushforward could not be used.
---
 MParT/Distributions/TransportDistributionFactory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Distributions/TransportDistributionFactory.h b/MParT/Distributions/TransportDistributionFactory.h
index 098e47d..191ede9 100644
--- a/MParT/Distributions/TransportDistributionFactory.h
+++ b/MParT/Distributions/TransportDistributionFactory.h
@@ -10,9 +10,9 @@
 namespace mpart {
 
     template<typename MemorySpace>
-    using PullbackDistribution = Distribution<PullbackDensity<MemorySpace>, PullbackSampler<MemorySpace>>;
+    using PullbackDistribution = Distribution<MemorySpace>;
     template<typename MemorySpace>
-    using PushforwardDistribution = Distribution<PushforwardDensity<MemorySpace>, PushforwardSampler<MemorySpace>>;
+    using PushforwardDistribution = Distribution<MemorySpace>;
 
     template<typename MemorySpace>
     std::shared_ptr<PullbackDistribution<MemorySpace>> CreatePullback(std::shared_ptr<ConditionalMapBase<MemorySpace>> map, std::shared_ptr<Distribution<MemorySpace>> reference) {
-- 
2.43.0


From cf2b66061c9452d878cbfd2671ca98216a0d0a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 48/67] fix: GaussianSamplerDensity::LogDensityImpl ignored the
 stride of its output

It wrote the values next to each other whatever the stride of the output vector.
---
 src/Distributions/GaussianSamplerDensity.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Distributions/GaussianSamplerDensity.cpp b/src/Distributions/GaussianSamplerDensity.cpp
index a4a725e..212fe70 100644
--- a/src/Distributions/GaussianSamplerDensity.cpp
+++ b/src/Distributions/GaussianSamplerDensity.cpp
@@ -44,10 +44,12 @@ void GaussianSamplerDensity<MemorySpace>::LogDensityImpl(StridedMatrix<const dou
         covChol_.solveInPlaceL(diff);
     }
 
+    // The result of the reduction has to be contiguous, the output does not
+    Kokkos::View<double*, MemorySpace> norms("norms", N);
     ReduceDim<ReduceDimMap::norm,MemorySpace,0> rr(diff, -0.5);
-    Kokkos::parallel_reduce(M, rr, &output(0));
+    Kokkos::parallel_reduce(M, rr, norms.data());
     Kokkos::parallel_for( "log terms", N, KOKKOS_LAMBDA (const int& j) {
-        output(j) -= 0.5*( M*logtau_ + logDetCov_ );
+        output(j) = norms(j) - 0.5*( M*logtau_ + logDetCov_ );
     });
 }
 
-- 
2.43.0


From e356821efa8503848b1fba6137f8a47d4dbcbe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 49/67] fix: Gaussians with a covariance matrix aborted on
 outputs that are not column-major

Sample(), and LogDensityInputGrad() of Eigen matrices, allocate row-major outputs.
---
 src/Distributions/GaussianSamplerDensity.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Distributions/GaussianSamplerDensity.cpp b/src/Distributions/GaussianSamplerDensity.cpp
index 212fe70..adc2fc1 100644
--- a/src/Distributions/GaussianSamplerDensity.cpp
+++ b/src/Distributions/GaussianSamplerDensity.cpp
@@ -75,12 +75,13 @@ void GaussianSamplerDensity<MemorySpace>::LogDensityInputGradImpl(StridedMatrix<
     }
 
     if(!idCov_) {
-        covChol_.solveInPlace(output);
+        // The factorization works on column-major matrices, the output can have any layout
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> sol = covChol_.solve(output);
+        Kokkos::deep_copy(output, sol);
     }
 }
 
 
-// Currently this requires that output be a LayoutLeft view
 template<typename MemorySpace>
 void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, MemorySpace> output_) {
     // Sample from the distribution
@@ -112,8 +113,8 @@ void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, Memor
     }
     // Otherwise, we assume dense covariance
     else {
-        // Enforce that the output is the correct layout!
-        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> output = output_;
+        // The Cholesky factor is applied to a column-major matrix, the output can have any layout
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> output("standard normal samples", M, N);
         // Sample from the standard normal
         Kokkos::parallel_for(policy, KOKKOS_LAMBDA(const int j, const int i) {
             GeneratorType rgen = rand_pool.get_state();
@@ -124,11 +125,11 @@ void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, Memor
         auto mul = covChol_.multiplyL(output);
         // Add the mean (if nonzero)
         if(mean_.extent(0) == 0){
-            Kokkos::deep_copy(output, mul);
+            Kokkos::deep_copy(output_, mul);
         }
         else {
             Kokkos::parallel_for(policy, KOKKOS_LAMBDA(const int j, const int i) {
-                output(i,j) = mul(i,j) + mean_(i);
+                output_(i,j) = mul(i,j) + mean_(i);
             });
         }
     }
-- 
2.43.0


From db63ceaf7e2bb920ff6a0c97d93e0e1532901c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 50/67] fix: PullbackDensity::LogDensityCoeffGrad of Eigen
 points returned the gradient with respect to the points

---
 src/Distributions/PullbackDensity.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Distributions/PullbackDensity.cpp b/src/Distributions/PullbackDensity.cpp
index bde74a7..6f5d0f2 100644
--- a/src/Distributions/PullbackDensity.cpp
+++ b/src/Distributions/PullbackDensity.cpp
@@ -46,11 +46,11 @@ StridedMatrix<double, MemorySpace> PullbackDensity<MemorySpace>::LogDensityCoeff
 template<>
 Eigen::RowMatrixXd PullbackDensity<Kokkos::HostSpace>::LogDensityCoeffGrad(Eigen::Ref<const Eigen::RowMatrixXd> const &pts) {
     // Allocate output
-    Eigen::RowMatrixXd output(pts.rows(), pts.cols());
+    Eigen::RowMatrixXd output(map_->numCoeffs, pts.cols());
     StridedMatrix<const double, Kokkos::HostSpace> ptsView = ConstRowMatToKokkos<double, Kokkos::HostSpace>(pts);
     StridedMatrix<double, Kokkos::HostSpace> outView = MatToKokkos<double, Kokkos::HostSpace>(output);
-    // Call the LogDensity function
-    LogDensityInputGradImpl(ptsView, outView);
+    // Call the LogDensityCoeffGrad function
+    LogDensityCoeffGradImpl(ptsView, outView);
     return output;
 }
 
-- 
2.43.0


From 7e51175e50040c4bb79c27dc530dea46dd501842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 51/67] fix: a Gaussian with a row-major covariance matrix
 aborted

---
 MParT/Distributions/GaussianSamplerDensity.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MParT/Distributions/GaussianSamplerDensity.h b/MParT/Distributions/GaussianSamplerDensity.h
index bad4a8f..f259714 100644
--- a/MParT/Distributions/GaussianSamplerDensity.h
+++ b/MParT/Distributions/GaussianSamplerDensity.h
@@ -74,7 +74,10 @@ class GaussianSamplerDensity: public SampleGenerator<MemorySpace>, public Densit
 #endif // KOKKOS_VERSION
 
     void Factorize(StridedMatrix<double, MemorySpace> Cov) {
-        covChol_.compute(Cov);
+        // The factorization works on column-major matrices, the covariance can have any layout
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> covLeft("covariance", Cov.extent(0), Cov.extent(1));
+        Kokkos::deep_copy(covLeft, Cov);
+        covChol_.compute(covLeft);
         logDetCov_ = std::log(covChol_.determinant());
     }
 
-- 
2.43.0


From 0808d3ad8169d942f050c40d5a46967a84c76f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 52/67] fix: TrainMapAdaptive returned a constant map when no
 larger map was better than the initial one

---
 src/TrainMapAdaptive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index b8dc419..ee12466 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -88,7 +88,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
         // Initialize the temporary mset vectors
         MultiIndexSet mset_tmp_j = MultiIndexSet::CreateTotalOrder(inputDim-outputDim+j+1,0);
         mset_tmp.push_back(mset_tmp_j);
-        mset_best.push_back(mset_tmp_j);
+        mset_best.push_back(mset_j); // The initial map is the best one until a better one is found
 
         // Index global constants
         currMsetDim++;
-- 
2.43.0


From ed2feadc33af10e1362b9b1ab2e73c411b6f105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 53/67] fix: TrainMapAdaptive added an undefined term when no
 candidate had a nonzero gradient

---
 src/TrainMapAdaptive.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index ee12466..7b9438c 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -3,7 +3,8 @@
 
 using namespace mpart;
 
-void findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std::vector<std::vector<unsigned int>> const &multis_rm,
+/** Finds the candidate with the largest gradient.  Returns false if no candidate has a nonzero gradient (or there is no candidate at all). */
+bool findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std::vector<std::vector<unsigned int>> const &multis_rm,
     std::vector<MultiIndexSet> const &msets, unsigned int &maxIdx, unsigned int &maxIdxBlock) {
     unsigned int outputDim = multis_rm.size();
     double maxVal = 0.;
@@ -20,6 +21,7 @@ void findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std:
         }
         blockStart += msets[output].Size();
     }
+    return maxVal > 0.;
 }
 
 void maxDegreeRMFilter(std::vector<MultiIndexSet> const &msets, MultiIndex const &maxDegrees,
@@ -190,7 +192,12 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
 
         // Find the largest gradient value, calculate which output and multiindex it corresponds to
         unsigned int maxIdx, maxIdxBlock;
-        findMaxGrad(gradCoeff, multis_rm, mset_tmp, maxIdx, maxIdxBlock);
+        if(!findMaxGrad(gradCoeff, multis_rm, mset_tmp, maxIdx, maxIdxBlock)) {
+            if(options.verbose) {
+                std::cout << "No term left to add." << std::endl;
+            }
+            break;
+        }
 
         // Add the multiindex with largest gradient to the map
         MultiIndex addedMulti = mset_tmp[maxIdxBlock][maxIdx];
-- 
2.43.0


From 0e92a95923354ece8b3d0cb073fdf8a2f7be8c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 54/67] fix: optimisers that ask for the objective without its
 gradient passed a null gradient to the objective

---
 src/MapObjective.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MapObjective.cpp b/src/MapObjective.cpp
index d11123d..4320db0 100644
--- a/src/MapObjective.cpp
+++ b/src/MapObjective.cpp
@@ -5,8 +5,11 @@ template<typename MemorySpace>
 double MapObjective<MemorySpace>::operator()(unsigned int n, const double* coeffs, double* grad, std::shared_ptr<ConditionalMapBase<MemorySpace>> map) {
 
     StridedVector<const double, MemorySpace> coeffView = ToConstKokkos<double,MemorySpace>(coeffs, n);
-    StridedVector<double, MemorySpace> gradView = ToKokkos<double,MemorySpace>(grad, n);
     map->SetCoeffs(coeffView);
+    if(grad == nullptr) // Line searches and derivative-free algorithms do not ask for the gradient
+        return ObjectiveImpl(train_, map);
+
+    StridedVector<double, MemorySpace> gradView = ToKokkos<double,MemorySpace>(grad, n);
     return ObjectivePlusCoeffGradImpl(train_, gradView, map);
 }
 
-- 
2.43.0


From 88838bec5e8257ce3992cc0a34fc1aa82b2cba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:15 +0000
Subject: [PATCH 55/67] fix: KLObjective wrote the gradient contiguously into
 strided vectors

---
 src/MapObjective.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/MapObjective.cpp b/src/MapObjective.cpp
index 4320db0..3aff495 100644
--- a/src/MapObjective.cpp
+++ b/src/MapObjective.cpp
@@ -63,7 +63,9 @@ double KLObjective<MemorySpace>::ObjectivePlusCoeffGradImpl(StridedMatrix<const
         sum -= densityX(i);
     }, sumDensity);
     ReduceDim<ReduceDimMap::sum,MemorySpace> rc(densityGradX, -1.0/((double) N_samps));
-    Kokkos::parallel_reduce(N_samps, rc, &grad(0));
+    Kokkos::View<double*, MemorySpace> avgGrad("Average gradient", grad.extent(0)); // grad might be strided
+    Kokkos::parallel_reduce(N_samps, rc, avgGrad.data());
+    Kokkos::deep_copy(grad, avgGrad);
     return sumDensity/N_samps;
 }
 
@@ -85,7 +87,9 @@ void KLObjective<MemorySpace>::CoeffGradImpl(StridedMatrix<const double, MemoryS
     PullbackDensity<MemorySpace> pullback {map, density_};
     StridedMatrix<double, MemorySpace> densityGradX = pullback.LogDensityCoeffGrad(data);
     ReduceDim<ReduceDimMap::sum,MemorySpace> rc(densityGradX, -1.0/((double) N_samps));
-    Kokkos::parallel_reduce(N_samps, rc, &grad(0));
+    Kokkos::View<double*, MemorySpace> avgGrad("Average gradient", grad.extent(0)); // grad might be strided
+    Kokkos::parallel_reduce(N_samps, rc, avgGrad.data());
+    Kokkos::deep_copy(grad, avgGrad);
 }
 
 // Explicit template instantiation
-- 
2.43.0


From 1a59bfd70275b0a28e4a7fd85dbf2b53c0c43f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 56/67] fix: TriangularMap and ComposedMap crashed on an empty
 list of maps

---
 src/ComposedMap.cpp   | 11 ++++++++++-
 src/TriangularMap.cpp | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/ComposedMap.cpp b/src/ComposedMap.cpp
index 42d1e25..757de19 100644
--- a/src/ComposedMap.cpp
+++ b/src/ComposedMap.cpp
@@ -131,9 +131,18 @@ Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> ComposedMap<MemorySpace>
 }
 
 
+// The first map gives the dimension of the composition, so there has to be one
+template<typename MapVector>
+static typename MapVector::const_reference FirstMap(MapVector const& maps)
+{
+    if(maps.empty())
+        throw std::invalid_argument("In ComposedMap constructor, the list of maps is empty.");
+    return maps.front();
+}
+
 template<typename MemorySpace>
 ComposedMap<MemorySpace>::ComposedMap(std::vector<std::shared_ptr<ConditionalMapBase<MemorySpace>>> const& maps, bool moveCoeffs,
-                                      int maxChecks) : ConditionalMapBase<MemorySpace>(maps.front()->inputDim,
+                                      int maxChecks) : ConditionalMapBase<MemorySpace>(FirstMap(maps)->inputDim,
                                                                                        maps.front()->inputDim,
                                                                                        std::accumulate(maps.begin(), maps.end(), 0, [](size_t sum, std::shared_ptr<ConditionalMapBase<MemorySpace>> const& comp){ return sum + comp->numCoeffs; })),
                                                         maps_(maps),
diff --git a/src/TriangularMap.cpp b/src/TriangularMap.cpp
index 5e8c9a5..e3bb724 100644
--- a/src/TriangularMap.cpp
+++ b/src/TriangularMap.cpp
@@ -6,8 +6,17 @@
 
 using namespace mpart;
 
+// The last component gives the input dimension of the map, so there has to be one
+template<typename MapVector>
+static typename MapVector::const_reference LastComponent(MapVector const& components)
+{
+    if(components.empty())
+        throw std::invalid_argument("In TriangularMap constructor, the list of components is empty.");
+    return components.back();
+}
+
 template<typename MemorySpace>
-TriangularMap<MemorySpace>::TriangularMap(std::vector<std::shared_ptr<ConditionalMapBase<MemorySpace>>> const& components, bool moveCoeffs) : ConditionalMapBase<MemorySpace>(components.back()->inputDim,
+TriangularMap<MemorySpace>::TriangularMap(std::vector<std::shared_ptr<ConditionalMapBase<MemorySpace>>> const& components, bool moveCoeffs) : ConditionalMapBase<MemorySpace>(LastComponent(components)->inputDim,
                         std::accumulate(components.begin(), components.end(), 0, [](size_t sum, std::shared_ptr<ConditionalMapBase<MemorySpace>> const& comp){ return sum + comp->outputDim; }),
                         std::accumulate(components.begin(), components.end(), 0, [](size_t sum, std::shared_ptr<ConditionalMapBase<MemorySpace>> const& comp){ return sum + comp->numCoeffs; })),
                         comps_(components)
-- 
2.43.0


From 20de4aa0a92f34d72255a3811e789e9dbaaf25ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 57/67] fix: CreateTriangular crashed when the output dimension
 was zero or greater than the input dimension

---
 src/MapFactory.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MapFactory.cpp b/src/MapFactory.cpp
index 70df3ec..df8612a 100644
--- a/src/MapFactory.cpp
+++ b/src/MapFactory.cpp
@@ -104,6 +104,11 @@ std::shared_ptr<ConditionalMapBase<MemorySpace>> mpart::MapFactory::CreateTriang
                                                                          unsigned int totalOrder,
                                                                          MapOptions options)
 {
+    if((outputDim == 0) || (outputDim > inputDim)){
+        std::stringstream msg;
+        msg << "In CreateTriangular, the output dimension must be positive and can't be greater than the input dimension. Got inputDim = " << inputDim << " and outputDim = " << outputDim << ".";
+        throw std::invalid_argument(msg.str());
+    }
 
     std::vector<std::shared_ptr<ConditionalMapBase<MemorySpace>>> comps(outputDim);
 
-- 
2.43.0


From ada72148ff3d72d839d10c076a6328e70d87602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 58/67] fix: IdentityMap with more outputs than inputs read
 outside of its input

---
 src/IdentityMap.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/IdentityMap.cpp b/src/IdentityMap.cpp
index 5fb0382..a4f19d1 100644
--- a/src/IdentityMap.cpp
+++ b/src/IdentityMap.cpp
@@ -9,7 +9,11 @@ using MemorySpace = Kokkos::HostSpace;
 template<typename MemorySpace>
 IdentityMap<MemorySpace>::IdentityMap(unsigned int inDim, unsigned int outDim) : ConditionalMapBase<MemorySpace>(inDim, outDim, 0)
 {
-
+    if(outDim > inDim){
+        std::stringstream msg;
+        msg << "In IdentityMap constructor, the output dimension (" << outDim << ") is greater than the input dimension (" << inDim << ").";
+        throw std::invalid_argument(msg.str());
+    }
 }
 
 
-- 
2.43.0


From a2465c19352e9bac310bf8fd09c4c3a1056cdbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 59/67] fix: AffineMap and AffineFunction ended the process on
 a matrix or vector of the wrong size

---
 src/AffineFunction.cpp | 9 ++++++---
 src/AffineMap.cpp      | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/AffineFunction.cpp b/src/AffineFunction.cpp
index 1969ecd..6f1e4f6 100644
--- a/src/AffineFunction.cpp
+++ b/src/AffineFunction.cpp
@@ -22,7 +22,8 @@ AffineFunction<MemorySpace>::AffineFunction(StridedMatrix<double,MemorySpace> A)
                                                                                A_("A", A.extent(0), A.extent(1))
 {
     Kokkos::deep_copy(A_, A);
-    assert(A_.extent(0)<=A_.extent(1));
+    if(A_.extent(0) > A_.extent(1))
+        throw std::invalid_argument("In AffineFunction constructor, A has more rows than columns.");
 }
 
 
@@ -34,8 +35,10 @@ AffineFunction<MemorySpace>::AffineFunction(StridedMatrix<double,MemorySpace> A,
 {   
     Kokkos::deep_copy(A_, A);
     Kokkos::deep_copy(b_, b);
-    assert(A_.extent(0) <= A_.extent(1));
-    assert(A_.extent(0) == b_.extent(0));
+    if(A_.extent(0) > A_.extent(1))
+        throw std::invalid_argument("In AffineFunction constructor, A has more rows than columns.");
+    if(A_.extent(0) != b_.extent(0))
+        throw std::invalid_argument("In AffineFunction constructor, the size of b does not match the number of rows in A.");
 }
 
 
diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index 093cab0..6e6f3f6 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -20,7 +20,8 @@ AffineMap<MemorySpace>::AffineMap(StridedMatrix<double,MemorySpace> A) : Conditi
                                                                   A_("A", A.extent(0), A.extent(1))
 {
     Kokkos::deep_copy(A_, A);
-    assert(A_.extent(0)<=A_.extent(1));
+    if(A_.extent(0) > A_.extent(1))
+        throw std::invalid_argument("In AffineMap constructor, A has more rows than columns.");
     Factorize();
 }
 
@@ -33,8 +34,10 @@ AffineMap<MemorySpace>::AffineMap(StridedMatrix<double,MemorySpace> A,
 {
     Kokkos::deep_copy(A_, A);
     Kokkos::deep_copy(b_, b);
-    assert(A_.extent(0)<=A_.extent(1));
-    assert(A_.extent(0) == b_.extent(0));
+    if(A_.extent(0) > A_.extent(1))
+        throw std::invalid_argument("In AffineMap constructor, A has more rows than columns.");
+    if(A_.extent(0) != b_.extent(0))
+        throw std::invalid_argument("In AffineMap constructor, the size of b does not match the number of rows in A.");
     Factorize();
 }
 
-- 
2.43.0


From c7ea3463684c93b5c00fbffd0936b8c65df07c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 60/67] fix: bounds of a linearized basis in the wrong order
 ended the process

---
 MParT/LinearizedBasis.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/MParT/LinearizedBasis.h b/MParT/LinearizedBasis.h
index 5adb1d4..052d6a5 100644
--- a/MParT/LinearizedBasis.h
+++ b/MParT/LinearizedBasis.h
@@ -3,6 +3,8 @@
 
 #include <Kokkos_Core.hpp>
 
+#include <stdexcept>
+
 
 namespace mpart{
 
@@ -22,7 +24,7 @@ public:
                     double     ub=3) : lb_(lb),
                                        ub_(ub)
     {
-        assert(lb<ub);
+        CheckBounds();
     }
 
     LinearizedBasis(OtherBasis polyBasis,
@@ -31,7 +33,7 @@ public:
                                        lb_(lb),
                                        ub_(ub)
     {
-        assert(lb<ub);
+        CheckBounds();
     }
 
     KOKKOS_INLINE_FUNCTION void EvaluateAll(double*              output,
@@ -155,6 +157,13 @@ public:
 #endif 
 
 private:
+
+    void CheckBounds() const
+    {
+        if(!(lb_ < ub_))
+            throw std::invalid_argument("In LinearizedBasis constructor, the lower bound has to be smaller than the upper bound.");
+    }
+
     OtherBasis polyBasis_;
 
     double lb_; //<- Left linearization point
-- 
2.43.0


From a6367f4f625876e156e607549ca0f9f820e226c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 61/67] fix: a Gaussian accepted covariance matrices that are
 not positive definite or have the wrong size

---
 MParT/Distributions/GaussianSamplerDensity.h | 3 +++
 src/Utilities/LinearAlgebra.cpp              | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/MParT/Distributions/GaussianSamplerDensity.h b/MParT/Distributions/GaussianSamplerDensity.h
index f259714..30ed550 100644
--- a/MParT/Distributions/GaussianSamplerDensity.h
+++ b/MParT/Distributions/GaussianSamplerDensity.h
@@ -74,6 +74,9 @@ class GaussianSamplerDensity: public SampleGenerator<MemorySpace>, public Densit
 #endif // KOKKOS_VERSION
 
     void Factorize(StridedMatrix<double, MemorySpace> Cov) {
+        if((Cov.extent(0) != dim_) || (Cov.extent(1) != dim_)) {
+            throw std::invalid_argument("GaussianSamplerDensity: The covariance must be square and match the dimension of the mean.");
+        }
         // The factorization works on column-major matrices, the covariance can have any layout
         Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> covLeft("covariance", Cov.extent(0), Cov.extent(1));
         Kokkos::deep_copy(covLeft, Cov);
diff --git a/src/Utilities/LinearAlgebra.cpp b/src/Utilities/LinearAlgebra.cpp
index 85dc8ae..41354d7 100644
--- a/src/Utilities/LinearAlgebra.cpp
+++ b/src/Utilities/LinearAlgebra.cpp
@@ -87,6 +87,8 @@ void Cholesky<Kokkos::HostSpace>::compute(Kokkos::View<const double**,Kokkos::La
     auto eigA = ConstKokkosToMat(A);
     // Use eigen to compute the Cholesky decomposition in place
     cholSolver_ = std::make_shared<Eigen::LLT<Eigen::MatrixXd>>(eigA);
+    if(cholSolver_->info() != Eigen::Success)
+        throw std::invalid_argument("Cholesky: The matrix is not positive definite.");
     isComputed = true;
 }
 
-- 
2.43.0


From d62a9417c699e4f114b277a0526d26e7f147bba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 62/67] fix: a multi-index of the wrong length was added to a
 MultiIndexSet before the error was raised

---
 src/MultiIndices/MultiIndexSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 47d5d72..7c89dab 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -254,6 +254,9 @@ int MultiIndexSet::AddMulti(MultiIndex const& newMulti)
 
 int MultiIndexSet::AddActive(MultiIndex const& newNode)
 {
+  if(newNode.Length() != length)
+    throw std::invalid_argument("MultiIndexSet: The length of the multi-index does not match the length of the multi-indices in the set.");
+
   int globalInd = AddInactive(newNode);
 
   if(globalInd>=0){
@@ -775,6 +778,9 @@ std::vector<bool> MultiIndexSet::FilterBounded(const MultiIndex& bound) const {
 
 unsigned int MultiIndexSet::Union(const MultiIndexSet& rhs)
 {
+  if(rhs.length != length)
+    throw std::invalid_argument("MultiIndexSet::Union: The lengths of the multi-indices in the two sets don't match.");
+
   int oldTerms = Size();
 
   for(unsigned int i = 0; i < rhs.allMultis.size(); ++i) {
-- 
2.43.0


From 5e548704967e8810cd6fd017b9659236454e479c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 63/67] fix: samplers used maps without coefficients

---
 MParT/Distributions/PullbackSampler.h    | 2 ++
 MParT/Distributions/PushforwardSampler.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/MParT/Distributions/PullbackSampler.h b/MParT/Distributions/PullbackSampler.h
index 0830a52..05cea4f 100644
--- a/MParT/Distributions/PullbackSampler.h
+++ b/MParT/Distributions/PullbackSampler.h
@@ -43,6 +43,8 @@ class PullbackSampler: public SampleGenerator<MemorySpace> {
         unsigned int N = output.extent(1);
         StridedMatrix<double, MemorySpace> pts = sampler_->Sample(N);
         Kokkos::View<double**, MemorySpace> prefix_null("prefix_null", 0, pts.extent(1));
+        if(!map_->CheckCoefficients())
+            throw std::runtime_error("PullbackSampler: The coefficients of the map have not been set.");
         map_->InverseImpl(prefix_null, pts, output);
     };
 
diff --git a/MParT/Distributions/PushforwardSampler.h b/MParT/Distributions/PushforwardSampler.h
index 81ea1db..dd5f280 100644
--- a/MParT/Distributions/PushforwardSampler.h
+++ b/MParT/Distributions/PushforwardSampler.h
@@ -43,6 +43,8 @@ class PushforwardSampler: public SampleGenerator<MemorySpace> {
     void SampleImpl(StridedMatrix<double, MemorySpace> output) override {
         unsigned int N = output.extent(1);
         StridedMatrix<double, MemorySpace> pts = sampler_->Sample(N);
+        if(!map_->CheckCoefficients())
+            throw std::runtime_error("PushforwardSampler: The coefficients of the map have not been set.");
         map_->EvaluateImpl(pts, output);
     };
 
-- 
2.43.0


From 0db5fc3d1d76c08872b685ccb742aff16bdad028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:48 +0000
Subject: [PATCH 64/67] fix: SummarizedMap evaluated a summary function without
 coefficients, which its inverse refuses

---
 src/SummarizedMap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SummarizedMap.cpp b/src/SummarizedMap.cpp
index 28bf372..733e8cb 100644
--- a/src/SummarizedMap.cpp
+++ b/src/SummarizedMap.cpp
@@ -80,6 +80,8 @@ void SummarizedMap<MemorySpace>::SummarizePts(StridedMatrix<const double, Memory
     StridedMatrix<double, MemorySpace> outputSummary = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
 
     // Evaluate summary function
+    if(!sumFunc_->CheckCoefficients())
+        throw std::runtime_error("SummarizedMap: The coefficients of the summary function have not been set.");
     sumFunc_->EvaluateImpl(ptsToSummarize, outputSummary);
 
     // Copy non summarized pts
-- 
2.43.0


From be1810f35b3d92d675105406169667da75c3c8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:56 +0000
Subject: [PATCH 65/67] fix: small values of quadPts ended the process or
 exhausted its memory with adaptive Clenshaw-Curtis quadrature

---
 MParT/MapFactory.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MParT/MapFactory.h b/MParT/MapFactory.h
index 079e4be..f4119e6 100644
--- a/MParT/MapFactory.h
+++ b/MParT/MapFactory.h
@@ -126,6 +126,10 @@ namespace mpart{
 
             static FactoryFunctionType GetFactoryFunction(MapOptions opts)
             {
+                // The coarse rule of the adaptive quadrature has at most quadPts-1 points and at least 3
+                if((opts.quadType == QuadTypes::AdaptiveClenshawCurtis) && (opts.quadPts < 4))
+                    throw std::invalid_argument("MapOptions.quadPts must be at least 4 for adaptive Clenshaw-Curtis quadrature.");
+
                 bool isLinearized = (!isinf(opts.basisLB)) ||(!isinf(opts.basisUB));
                 OptionsKeyType optionsKey(opts.basisType, isLinearized, opts.posFuncType, opts.quadType);
 
-- 
2.43.0


From d1bfab5f85f74544843d4c2cb86051ebaf493ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:08 +0000
Subject: [PATCH 66/67] fix: TrainMap set the coefficients of the map before it
 refused the options

---
 src/TrainMap.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/TrainMap.cpp b/src/TrainMap.cpp
index db177a0..d4d9a18 100644
--- a/src/TrainMap.cpp
+++ b/src/TrainMap.cpp
@@ -58,6 +58,9 @@ nlopt::opt SetupOptimization(unsigned int dim, TrainOptions options) {
 
 template<>
 double mpart::TrainMap(std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> map, std::shared_ptr<MapObjective<Kokkos::HostSpace>> objective, TrainOptions options) {
+    // The options are checked before the map is changed
+    nlopt::opt opt = SetupOptimization(map->numCoeffs, options);
+
     if(map->Coeffs().extent(0) == 0) {
         if(options.verbose) {
             std::cout << "TrainMap: Initializing map coeffs to 1." << std::endl;
@@ -68,8 +71,6 @@ double mpart::TrainMap(std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> ma
         });
         map->SetCoeffs(coeffs);
     }
-    nlopt::opt opt = SetupOptimization(map->numCoeffs, options);
-
     // Since objective is (rightfully) separate from the map, we use std::bind to create a functor
     // from objective::operator() that keeps the map argument held.
     std::function<double(unsigned, const double*, double*)> functor = std::bind(&MapObjective<Kokkos::HostSpace>::operator(), objective, std::placeholders::_1, std::placeholders::_2, std::placeholders::_3, map);
-- 
2.43.0


From cd96ba724a2d668ee752cd6199b87662a4d6f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:52 +0000
Subject: [PATCH 67/67] fix: ComposedMap could read the first map of an empty
 list before it refused the list

The order in which constructor arguments are evaluated is unspecified.
---
 src/ComposedMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ComposedMap.cpp b/src/ComposedMap.cpp
index 757de19..ae1861e 100644
--- a/src/ComposedMap.cpp
+++ b/src/ComposedMap.cpp
@@ -143,7 +143,7 @@ static typename MapVector::const_reference FirstMap(MapVector const& maps)
 template<typename MemorySpace>
 ComposedMap<MemorySpace>::ComposedMap(std::vector<std::shared_ptr<ConditionalMapBase<MemorySpace>>> const& maps, bool moveCoeffs,
                                       int maxChecks) : ConditionalMapBase<MemorySpace>(FirstMap(maps)->inputDim,
-                                                                                       maps.front()->inputDim,
+                                                                                       FirstMap(maps)->inputDim,
                                                                                        std::accumulate(maps.begin(), maps.end(), 0, [](size_t sum, std::shared_ptr<ConditionalMapBase<MemorySpace>> const& comp){ return sum + comp->numCoeffs; })),
                                                         maps_(maps),
                                                         maxChecks_((maxChecks<=0) ? maps.size() : maxChecks)
-- 
2.43.0

