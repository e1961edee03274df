From cfb58374a8e12469645abdfbb40bc26f36413e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 01/63] fix: MultiIndex::Get/Set reject an index equal to the
 length

---
 src/MultiIndices/MultiIndex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/MultiIndex.cpp b/src/MultiIndices/MultiIndex.cpp
index fcc208c..72bd341 100644
--- a/src/MultiIndices/MultiIndex.cpp
+++ b/src/MultiIndices/MultiIndex.cpp
@@ -67,7 +67,7 @@ std::vector<unsigned int>MultiIndex::Vector() const
 
 bool MultiIndex::Set(unsigned int ind, unsigned int val)
 {
-  if(ind>length){
+  if(ind>=length){
     throw std::out_of_range("Tried to set the value of index " + std::to_string(ind) + " on an multiindex with only " + std::to_string(length) + " components.");
     return false;
   }else{
@@ -129,7 +129,7 @@ unsigned int MultiIndex::NumNz() const
 
 unsigned int MultiIndex::MultiIndex::Get(unsigned ind) const
 {
-  if(ind>length){
+  if(ind>=length){
     throw std::out_of_range("Tried to access index " + std::to_string(ind) + " of a multiindex with only " + std::to_string(length) + " components.");
     return 0;
 
-- 
2.43.0


From 0f55bb1cacf4c63e1ab83bdb47fb15dc0131780c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 02/63] fix: FixedMultiIndexSet::MultiToIndex no longer reads
 past nzStarts

---
 src/MultiIndices/FixedMultiIndexSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiIndices/FixedMultiIndexSet.cpp b/src/MultiIndices/FixedMultiIndexSet.cpp
index c5a1d5a..0755e41 100644
--- a/src/MultiIndices/FixedMultiIndexSet.cpp
+++ b/src/MultiIndices/FixedMultiIndexSet.cpp
@@ -216,7 +216,7 @@ int FixedMultiIndexSet<MemorySpace>::MultiToIndex(std::vector<unsigned int> cons
             nnz += (val>0) ? 1:0;
 
         // Now search for the matching multi
-        for(unsigned int i=0; i<nzStarts.extent(0); ++i){
+        for(unsigned int i=0; i+1<nzStarts.extent(0); ++i){
 
             // First, check if the number of nonzeros matches
             if((nzStarts(i+1)-nzStarts(i))==nnz){
-- 
2.43.0


From 4b0227eee96e27387f5e7a2d102f0fe370f48132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 03/63] fix: dense FixedMultiIndexSet sets the end of its last
 term

---
 src/MultiIndices/FixedMultiIndexSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/FixedMultiIndexSet.cpp b/src/MultiIndices/FixedMultiIndexSet.cpp
index 0755e41..7e660d5 100644
--- a/src/MultiIndices/FixedMultiIndexSet.cpp
+++ b/src/MultiIndices/FixedMultiIndexSet.cpp
@@ -89,7 +89,7 @@ void FixedMultiIndexSet<MemorySpace>::SetupTerms()
     unsigned int numTerms = nzOrders.extent(0) / dim;
 
     nzStarts = Kokkos::View<unsigned int*, MemorySpace>("Start of a Multiindex", numTerms+1);
-    Kokkos::parallel_for(numTerms, StartSetter<MemorySpace>(nzStarts,dim));
+    Kokkos::parallel_for(numTerms+1, StartSetter<MemorySpace>(nzStarts,dim));
     Kokkos::parallel_for(dim*numTerms, DimSetter<MemorySpace>(nzDims,dim));
 }
 template<>
@@ -101,7 +101,7 @@ void FixedMultiIndexSet<Kokkos::HostSpace>::SetupTerms()
     nzStarts = Kokkos::View<unsigned int*, Kokkos::HostSpace>("Start of a Multiindex", numTerms+1);
     {
     StartSetter<Kokkos::HostSpace> functor(nzStarts,dim);
-    for(unsigned int i=0; i<numTerms; ++i)
+    for(unsigned int i=0; i<=numTerms; ++i)
         functor(i);
     }
     {
-- 
2.43.0


From 98c74e85f845320dcad5970e6c3dc763b863b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 04/63] fix: forced expansion no longer iterates over
 reallocated edge lists

---
 src/MultiIndices/MultiIndexSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 184b6e0..2533171 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -707,7 +707,7 @@ std::vector<unsigned int> MultiIndexSet::ForciblyExpand(unsigned int const activ
   unsigned int globalIndex = active2global.at(activeIndex);
 
   // loop through the forward neighbors of this index
-  std::set<int>& tempSet = outEdges.at(globalIndex);
+  std::set<int> tempSet = outEdges.at(globalIndex); // copy: activation reallocates the edge lists
   for(int neighbor : tempSet)
     ForciblyActivate(neighbor,newIndices);
 
@@ -726,7 +726,7 @@ void MultiIndexSet::ForciblyActivate(int globalIndex, std::vector<unsigned int>
     newIndices.push_back(global2active.at(globalIndex));
 
     // now, fill in all of the previous neighbors
-    std::set<int>& tempSet = inEdges.at(globalIndex);
+    std::set<int> tempSet = inEdges.at(globalIndex); // copy: activation reallocates the edge lists
     for(int ind : tempSet)
       ForciblyActivate(ind,newIndices);
 
-- 
2.43.0


From abaa1297d9709307cd729c85558fda4712488a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 05/63] fix: MultiIndexSet::Expand returns each new index once

---
 src/MultiIndices/MultiIndexSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 2533171..f6ade93 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -692,6 +692,7 @@ std::vector<unsigned int> MultiIndexSet::Expand()
     // Activate those terms
     std::vector<unsigned int> allNewInds;
     for(auto& neighbor : toExpand){ 
+        if(IsActive(neighbor)) continue; // reachable from several frontier terms
         Activate(neighbor);
         allNewInds.push_back(global2active.at(neighbor));
     }
-- 
2.43.0


From ccd99f997626242608f33173d0b6dc54ed577308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 06/63] fix: a rejected MultiIndexSet::SetLimiter leaves the
 set unchanged

---
 src/MultiIndices/MultiIndexSet.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index f6ade93..cf87ea9 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -181,21 +181,24 @@ FixedMultiIndexSet<Kokkos::HostSpace> MultiIndexSet::Fix(bool compress) const
 
 void MultiIndexSet::SetLimiter(LimiterType const& newLimiter){
 
+  // make sure all active terms in the set obey the new limiter before changing anything
+  for(unsigned int globalInd=0; globalInd<allMultis.size(); ++globalInd)
+  {
+    if(IsActive(globalInd) && !newLimiter(allMultis.at(globalInd))){
+      std::stringstream msg;
+      msg << "Invalid limiter passed to MultiIndexSet::SetLimiter.  The active multi-index, ";
+      msg << allMultis.at(globalInd).String() << ", is not valid with the new limiter.\n";
+      throw std::invalid_argument(msg.str());
+    }
+  }
+
   // copy the limiter
   limiter = newLimiter;
 
-  //  make sure no active terms in the set currently obey the new limiter.
-  //  If a term is inactive, remove all edges tied to it
+  //  If a term is inactive and not valid with the new limiter, remove all edges tied to it
   for(unsigned int globalInd=0; globalInd<allMultis.size(); ++globalInd)
   {
     if(IsActive(globalInd)){
-      if(!newLimiter(allMultis.at(globalInd))){
-        std::stringstream msg;
-        msg << "Invalid limiter passed to MultiIndexSet::SetLimiter.  The active multi-index, ";
-        msg << allMultis.at(globalInd).Vector() << ", is not valid with the new limiter.\n";
-        throw std::invalid_argument(msg.str());
-      }
-
       // Add any newly admissible inactive forward neighbors
       AddForwardNeighbors(globalInd,true);
 
-- 
2.43.0


From 0e6173652e7a0ce9837f1420ebfaad7f20dc2dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 07/63] fix: ReducedMargin only returns admissible terms, as
 documented

---
 src/MultiIndices/MultiIndexSet.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index cf87ea9..2a0e6a5 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -535,18 +535,9 @@ std::vector<MultiIndex> MultiIndexSet::ReducedMargin() const
 
   for(unsigned int globalInd=0; globalInd<global2active.size(); ++globalInd){
 
-    // If this is an inactive multiindex
-    if(!IsActive(globalInd)){
-
-      // Check the backward neighbors
-      bool allActive = true;
-      for(auto neighbor : inEdges[globalInd])
-        allActive = (allActive && IsActive(neighbor));
-
-      if(allActive)
-        output.push_back(allMultis.at(globalInd));
-
-    }
+    // Inactive multiindices that satisfy the limiter and only have active backward neighbors
+    if((!IsActive(globalInd)) && IsAdmissible(globalInd))
+      output.push_back(allMultis.at(globalInd));
   }
 
   return output;
-- 
2.43.0


From 15f392191af679e052f73ddda188516711721628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 08/63] fix: AddActive checks known inactive terms against the
 current limiter

---
 src/MultiIndices/MultiIndexSet.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 2a0e6a5..ab6356f 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -251,7 +251,8 @@ int MultiIndexSet::AddActive(MultiIndex const& newNode)
 {
   int globalInd = AddInactive(newNode);
 
-  if(globalInd>=0){
+  // an inactive term that was added under a previous limiter might not be allowed any longer
+  if((globalInd>=0) && (IsActive((unsigned int)globalInd) || limiter(newNode))){
 
     Activate(globalInd);
     return global2active[globalInd];
-- 
2.43.0


From 8ca998abc2357e36d05aafb4e8d286c321f1f8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 09/63] fix: SetLimiter removes every edge of terms it excludes
 and restores edges of terms it allows again

---
 src/MultiIndices/MultiIndexSet.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index ab6356f..a362436 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -199,16 +199,25 @@ void MultiIndexSet::SetLimiter(LimiterType const& newLimiter){
   for(unsigned int globalInd=0; globalInd<allMultis.size(); ++globalInd)
   {
     if(IsActive(globalInd)){
-      // Add any newly admissible inactive forward neighbors
+      // Add any newly admissible inactive neighbors
       AddForwardNeighbors(globalInd,true);
+      AddBackwardNeighbors(globalInd,true);
+
+    }else if(newLimiter(allMultis.at(globalInd))){
+
+      // Restore edges that might have been removed by a previous limiter
+      AddForwardNeighbors(globalInd,false);
+      AddBackwardNeighbors(globalInd,false);
 
     }else{
 
-      if(!newLimiter(allMultis.at(globalInd))){
-        for(int inNode : inEdges[globalInd])
-          outEdges[inNode].erase(globalInd);
-        inEdges[globalInd].clear();
-      }
+      for(int inNode : inEdges[globalInd])
+        outEdges[inNode].erase(globalInd);
+      inEdges[globalInd].clear();
+
+      for(int outNode : outEdges[globalInd])
+        inEdges[outNode].erase(globalInd);
+      outEdges[globalInd].clear();
     }
   }
 
-- 
2.43.0


From 86217b8fdd742fc98fdfc07d4b3d380b1931ce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 10/63] fix: component values and continuous derivatives
 include the nugget

---
 MParT/MonotoneComponent.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 10c3a15..4e6ca3f 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -284,7 +284,7 @@ public:
 
                 // Fill in entries in the cache that are independent of x_d.  By passing DerivativeFlags::None, we are telling the expansion that no derivatives with wrt x_1,...x_{d-1} will be needed.
                 expansion_.FillCache1(cache.data(), pt, DerivativeFlags::None);
-                output(ptInd) = EvaluateSingle(cache.data(), workspace.data(), pt, pt(dim_-1), coeffs, quad_, expansion_);
+                output(ptInd) = EvaluateSingle(cache.data(), workspace.data(), pt, pt(dim_-1), coeffs, quad_, expansion_, nugget_);
             }
         };
 
@@ -519,8 +519,8 @@ public:
                 // Compute \partial_d f
                 derivs(ptInd) = expansion_.DiagonalDerivative(cache.data(), coeffs,1);
 
-                // Compute g(df/dx)
-                derivs(ptInd) = PosFuncType::Evaluate(derivs(ptInd));
+                // Compute g(df/dx) + nugget
+                derivs(ptInd) = PosFuncType::Evaluate(derivs(ptInd)) + nugget_;
             }
         };
 
-- 
2.43.0


From f3d669d6d1bbcbd42e49c23c4f27d4e43dfab0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 11/63] fix: DiscreteMixedJacobian overwrites its output
 instead of adding to it

---
 MParT/MonotoneComponent.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 4e6ca3f..0b3ab4d 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -967,9 +967,9 @@ public:
                 // Compute \int_0^x g( \partial_D f(x_1,...,x_{D-1},t)) dt as well as the gradient of this term wrt the coefficients of f
                 quad_.Integrate(workspace.data(), integrand, 0, 1, integral.data());
 
-                // Add the Integral to the coefficient gradient
+                // Copy the derivative of the integral into the coefficient gradient
                 for(unsigned int termInd=0; termInd<numTerms; ++termInd)
-                    jacView(termInd) += integral(termInd+1);
+                    jacView(termInd) = integral(termInd+1);
             }
         };
 
-- 
2.43.0


From 52f7d9c2b0a68f18b90de30f1b46a8c5740928d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 12/63] fix: inverting a one dimensional component with an
 empty x1 no longer reads out of bounds

---
 MParT/MonotoneComponent.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 0b3ab4d..c8d5061 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -432,7 +432,8 @@ public:
                 // Compute the inverse
                 Kokkos::View<double*,MemorySpace> workspace(team_member.thread_scratch(1), workspaceSize);
                 auto eval = SingleEvaluator<decltype(pt),decltype(coeffs)>(workspace.data(), cache.data(), pt, coeffs, quad_, expansion_, nugget_);
-                output(ptInd) = RootFinding::InverseSingleBracket<MemorySpace>(ys(ptInd), eval, pt(pt.extent(0)-1), xtol, ytol, info);
+                const double guess = (pt.extent(0)>0) ? pt(pt.extent(0)-1) : 0.0; // one dimensional maps can be given an empty x1
+                output(ptInd) = RootFinding::InverseSingleBracket<MemorySpace>(ys(ptInd), eval, guess, xtol, ytol, info);
             }
         };
 
-- 
2.43.0


From 752e0092b6aaef7bacb78c7ef2d556f88f5046db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 13/63] fix: saving a triangular map writes its components
 once, in the order they are read

---
 MParT/TriangularMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/TriangularMap.h b/MParT/TriangularMap.h
index 6e820eb..39a9e1f 100644
--- a/MParT/TriangularMap.h
+++ b/MParT/TriangularMap.h
@@ -126,7 +126,7 @@ public:
     template<class Archive>
     void save(Archive & ar) const
     {
-        ar(cereal::base_class<ConditionalMapBase<MemorySpace>>(this), comps_);
+        ar(cereal::base_class<ConditionalMapBase<MemorySpace>>(this));
 
         bool moveCoeffs = (this->savedCoeffs.is_allocated() && (this->savedCoeffs.size()>0));
         ar(comps_, moveCoeffs);
-- 
2.43.0


From e783edf813b95f2d0f01c254f299d910e243cab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 14/63] fix: AffineMap::LogDeterminantInputGradImpl writes its
 (zero) output

---
 src/AffineMap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index a09e3d7..c30c6d3 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -175,7 +175,8 @@ template<typename MemorySpace>
 void AffineMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const double, MemorySpace> const& pts,
                                                          StridedMatrix<double, MemorySpace>              output)
 {
-    return;
+    // The log determinant does not depend on the input
+    Kokkos::deep_copy(output, 0.0);
 }
 
 template<typename MemorySpace>
-- 
2.43.0


From 96223580b88de2ce67e787e8be96946dee108004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 15/63] fix: coefficient gradients of an IdentityMap are empty
 instead of aborting

---
 src/IdentityMap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/IdentityMap.cpp b/src/IdentityMap.cpp
index 01c6297..15ce5ff 100644
--- a/src/IdentityMap.cpp
+++ b/src/IdentityMap.cpp
@@ -53,7 +53,7 @@ void IdentityMap<MemorySpace>::CoeffGradImpl(StridedMatrix<const double, MemoryS
                                                StridedMatrix<const double, MemorySpace> const& sens,
                                                StridedMatrix<double, MemorySpace>              output)
 {
-    assert(false);
+    return; // There are no coefficients
 }
 
 template<typename MemorySpace>
@@ -80,7 +80,7 @@ template<typename MemorySpace>
 void IdentityMap<MemorySpace>::LogDeterminantCoeffGradImpl(StridedMatrix<const double, MemorySpace> const& pts, 
                                                              StridedMatrix<double, MemorySpace>              output)
 {
-    assert(false);
+    return; // There are no coefficients
 }
 
 template<typename MemorySpace>
-- 
2.43.0


From 3c76db7af8d26ed0503ef8cce72aa94cbaa406b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 16/63] fix: inverting a nan target or nan valued function
 returns nan

---
 MParT/Utilities/RootFinding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Utilities/RootFinding.h b/MParT/Utilities/RootFinding.h
index 384d755..714ddf4 100644
--- a/MParT/Utilities/RootFinding.h
+++ b/MParT/Utilities/RootFinding.h
@@ -129,7 +129,7 @@ KOKKOS_INLINE_FUNCTION double InverseSingleBracket(double yd, FunctorType f, dou
     int bracket_info = 0;
     FindBracket<MemorySpace>(f, xlb, ylb, xub, yub, yd, bracket_info);
     
-    if((bracket_info<0)||(((ylb>yd)||(yub<yd)))){
+    if((bracket_info<0)||(!((ylb<=yd)&&(yub>=yd)))){ // also true for nans
         info = -2;
         return std::numeric_limits<double>::quiet_NaN();
     }
-- 
2.43.0


From e06aedc6edba9a9c2faa4e95be68369e67f49a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 17/63] fix: SetCoeffs rejects a vector of the wrong length
 even before the first coefficients are set

---
 src/ParameterizedFunctionBase.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ParameterizedFunctionBase.cpp b/src/ParameterizedFunctionBase.cpp
index b3bea3b..38be07b 100644
--- a/src/ParameterizedFunctionBase.cpp
+++ b/src/ParameterizedFunctionBase.cpp
@@ -187,13 +187,14 @@ Eigen::RowMatrixXd ParameterizedFunctionBase<mpart::DeviceSpace>::Gradient(Eigen
 template<typename MemorySpace>
 void ParameterizedFunctionBase<MemorySpace>::SetCoeffs(Kokkos::View<const double*, MemorySpace> coeffs){
 
-    // If coefficients already exist, make sure the sizes match
+    // Make sure the sizes match
+    if(coeffs.size() != numCoeffs){
+        std::stringstream msg;
+        msg << "Error in ParameterizedFunctionBase<MemorySpace>::SetCoeffs.  Expected coefficient vector with size " << numCoeffs << ", but new coefficients have size " << coeffs.size() << ".";
+        throw std::invalid_argument(msg.str());
+    }
+
     if(this->savedCoeffs.is_allocated()){
-        if(coeffs.size() != numCoeffs){
-            std::stringstream msg;
-            msg << "Error in ParameterizedFunctionBase<MemorySpace>::SetCoeffs.  Expected coefficient vector with size " << numCoeffs << ", but new coefficients have size " << coeffs.size() << ".";
-            throw std::invalid_argument(msg.str());
-        }
 
         if(this->savedCoeffs.size() != numCoeffs)
             Kokkos::resize(this->savedCoeffs, numCoeffs);
-- 
2.43.0


From b844c13f0f190a0b63d751529c04e1cb65eacdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 18/63] fix: Factorial no longer overflows for arguments above
 12

---
 MParT/Utilities/MathFunctions.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MParT/Utilities/MathFunctions.h b/MParT/Utilities/MathFunctions.h
index 16bd8cf..a21ddc8 100644
--- a/MParT/Utilities/MathFunctions.h
+++ b/MParT/Utilities/MathFunctions.h
@@ -6,10 +6,10 @@
 
 namespace mpart{
 
-    /** Computes the factorial d! */
-    KOKKOS_INLINE_FUNCTION unsigned int Factorial(unsigned int d)
+    /** Computes the factorial d!, as a double because 13! does not fit in 32 bits */
+    KOKKOS_INLINE_FUNCTION double Factorial(unsigned int d)
     {
-        unsigned int out = 1;
+        double out = 1;
         for(unsigned int i=2; i<=d; ++i)
             out *= i;
         return out;
-- 
2.43.0


From 7ce5ea2a953883bc6925ded31fccb5e5baecbe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 19/63] fix: derivative of the normalized linear polynomial is
 normalized

---
 MParT/OrthogonalPolynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/OrthogonalPolynomial.h b/MParT/OrthogonalPolynomial.h
index 0ff3a76..740842d 100644
--- a/MParT/OrthogonalPolynomial.h
+++ b/MParT/OrthogonalPolynomial.h
@@ -197,7 +197,7 @@ public:
         if(order==0){
             return 0.0;
         }else if(order==1){
-            return this->phi1_deriv(x);
+            return normalize_ ? this->phi1_deriv(x) / this->Normalization(order) : this->phi1_deriv(x);
         }else{
             double lag2_val;
             double lag1_val = this->phi0(x);
-- 
2.43.0


From 18d8a57e2647d925d20e5858209857d7d9b24801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 20/63] fix: HermiteFunction::SecondDerivative agrees with
 EvaluateSecondDerivatives

---
 MParT/HermiteFunction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/HermiteFunction.h b/MParT/HermiteFunction.h
index 48ed224..0b0d84a 100644
--- a/MParT/HermiteFunction.h
+++ b/MParT/HermiteFunction.h
@@ -137,7 +137,7 @@ public:
         if(order<2){
             return 0;
         }else{
-            return -(2.0*order+1.0-x*x)*Evaluate(order-2, x);
+            return -(2.0*(order-2.0)+1.0-x*x)*Evaluate(order, x);
         }
     }
 
-- 
2.43.0


From 66d6eafc31dab59611077c79937245acf9cda280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 21/63] fix: SoftPlus::Inverse is accurate for small arguments

---
 MParT/PositiveBijectors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/PositiveBijectors.h b/MParT/PositiveBijectors.h
index 51fd713..f8d5843 100644
--- a/MParT/PositiveBijectors.h
+++ b/MParT/PositiveBijectors.h
@@ -26,7 +26,7 @@ public:
     }
 
     KOKKOS_INLINE_FUNCTION static double Inverse(double x){
-        return std::fmin(std::log(std::exp(x) - 1.0), x);
+        return std::fmin(std::log(std::expm1(x)), x);
     }
 
 };
-- 
2.43.0


From fb8e0c3a028a6aed8abc49a2134ac079fe4e9c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:35 +0000
Subject: [PATCH 22/63] fix: adaptive quadrature of a non-finite integrand
 stops instead of subdividing forever

---
 MParT/Quadrature.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index 81b46fb..832a2d5 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -623,8 +623,8 @@ public:
             // Check to see if the error is small enough or if we've hit the maximum number of subdivisions
             this->EstimateError(intCoarse, intFine, error, errorTol);
 
-            // Checking for convergence or other termination criteria
-            if((((error<errorTol)||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
+            // Checking for convergence or other termination criteria.  Nan errors can't be reduced by more subdivisions.
+            if((((!(error>=errorTol))||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
 
                 for(unsigned int i=0; i<this->fdim_; ++i){
                     res[i] += intFine[i];
@@ -913,8 +913,8 @@ public:
             // Check to see if the error is small enough or if we've hit the maximum number of subdivisions
             this->EstimateError(intCoarse, intFine, error, errorTol);
 
-            // Checking for convergence or other termination criteria
-            if((((error<errorTol)||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
+            // Checking for convergence or other termination criteria.  Nan errors can't be reduced by more subdivisions.
+            if((((!(error>=errorTol))||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
 
                 for(unsigned int i=0; i<this->fdim_; ++i){
                     res[i] += intFine[i];
-- 
2.43.0


From fb6b3c80c7c566091ef39473bf557c4e85410917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:35 +0000
Subject: [PATCH 23/63] fix: adaptive quadrature never subdivides past the
 maximum level its workspace allows

---
 MParT/Quadrature.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index 832a2d5..d7f9010 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -515,7 +515,7 @@ public:
                                     unsigned int minSub=0) : RecursiveQuadratureBase<MemorySpace>(maxSub, fdim, GetWorkspaceSize(maxSub,fdim), workspace, absTol, relTol, errorMetric, minSub){};
 
 
-    KOKKOS_FUNCTION static unsigned int GetWorkspaceSize(unsigned int maxSub, unsigned int fdim){return (2*maxSub+5)*fdim + 2*maxSub;};
+    KOKKOS_FUNCTION static unsigned int GetWorkspaceSize(unsigned int maxSub, unsigned int fdim){return (maxSub==0) ? GetWorkspaceSize(1,fdim) : (2*maxSub+5)*fdim + 2*maxSub;};
 
 
     KOKKOS_INLINE_FUNCTION void SetDim(unsigned int fdim){
@@ -624,7 +624,7 @@ public:
             this->EstimateError(intCoarse, intFine, error, errorTol);
 
             // Checking for convergence or other termination criteria.  Nan errors can't be reduced by more subdivisions.
-            if((((!(error>=errorTol))||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
+            if(((!(error>=errorTol))&&(currLevel>=this->minSub_))||(currLevel+1>=this->maxSub_)||(std::abs(ub-lb)<1e-14)){
 
                 for(unsigned int i=0; i<this->fdim_; ++i){
                     res[i] += intFine[i];
@@ -781,7 +781,7 @@ public:
     };
 
 
-    KOKKOS_FUNCTION static unsigned int GetWorkspaceSize(unsigned int maxSub, unsigned int fdim){return (maxSub+5)*fdim + 2*maxSub;};
+    KOKKOS_FUNCTION static unsigned int GetWorkspaceSize(unsigned int maxSub, unsigned int fdim){return (maxSub==0) ? GetWorkspaceSize(1,fdim) : (maxSub+5)*fdim + 2*maxSub;};
 
 
     KOKKOS_INLINE_FUNCTION void SetDim(unsigned int fdim){
@@ -914,7 +914,7 @@ public:
             this->EstimateError(intCoarse, intFine, error, errorTol);
 
             // Checking for convergence or other termination criteria.  Nan errors can't be reduced by more subdivisions.
-            if((((!(error>=errorTol))||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
+            if(((!(error>=errorTol))&&(currLevel>=this->minSub_))||(currLevel+1>=this->maxSub_)||(std::abs(ub-lb)<1e-14)){
 
                 for(unsigned int i=0; i<this->fdim_; ++i){
                     res[i] += intFine[i];
-- 
2.43.0


From 3783f100aa1e8f866075ee9a434450d679c9c824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:42 +0000
Subject: [PATCH 24/63] fix: adaptive quadrature tracks segments deeper than 31
 subdivisions

---
 MParT/Quadrature.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index d7f9010..f426863 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -2,6 +2,7 @@
 #define MPART_QUADRATURE_H
 
 #include <math.h>
+#include <cstdint>
 #include <sstream>
 #include <vector>
 
@@ -561,7 +562,7 @@ public:
 
         unsigned int currLevel = 0;
 
-        unsigned int currSegment = 0;
+        uint64_t currSegment = 0;
 
         double midPt = 0.5*(lb+ub);
 
@@ -632,7 +633,7 @@ public:
 
                 // Find the lowest previous level where we are working on the "left" branch of the tree.
                 while(((currSegment >> currLevel) & 1U)&&(currLevel>0)){
-                    currSegment &= ~(1UL << currLevel); // Set the side on this level to the left
+                    currSegment &= ~(uint64_t(1) << currLevel); // Set the side on this level to the left
                     currLevel--;
                 }
 
@@ -642,7 +643,7 @@ public:
                 }
 
                 // Specify that we're now working on the right side
-                currSegment |= 1UL << currLevel;
+                currSegment |= uint64_t(1) << currLevel;
 
                 // Set the left and right endpoints of this level based on the previous level
                 workStartInd = (2*currLevel + 5)*this->fdim_ + 2*currLevel;
@@ -693,7 +694,7 @@ private:
 
     
 
-    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, unsigned int currSegment, double* &leftVal, double* &midVal, double* &rightVal) const
+    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, uint64_t currSegment, double* &leftVal, double* &midVal, double* &rightVal) const
     {
         leftVal = &workspace[0];
         midVal = &workspace[2*this->fdim_];
@@ -827,7 +828,7 @@ public:
 
         unsigned int currLevel = 0;
 
-        unsigned int currSegment = 0;
+        uint64_t currSegment = 0;
 
         double midPt = 0.5*(lb+ub);
         double scale = (ub-lb);
@@ -922,7 +923,7 @@ public:
 
                 // Find the lowest previous level where we are working on the "left" branch of the tree.
                 while(((currSegment >> currLevel) & 1U)&&(currLevel>0)){
-                    currSegment &= ~(1UL << currLevel); // Set the side on this level to the left
+                    currSegment &= ~(uint64_t(1) << currLevel); // Set the side on this level to the left
                     currLevel--;
                 }
 
@@ -932,7 +933,7 @@ public:
                 }
 
                 // Specify that we're now working on the right side
-                currSegment |= 1UL << currLevel;
+                currSegment |= uint64_t(1) << currLevel;
 
                 // Set the left and right endpoints of this level based on the previous level
                 workStartInd = (currLevel + 5)*this->fdim_ + 2*currLevel;
@@ -985,7 +986,7 @@ public:
 
 private:
 
-    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, unsigned int currSegment, double* &leftVal, double* &rightVal) const
+    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, uint64_t currSegment, double* &leftVal, double* &rightVal) const
     {
         leftVal = &workspace[0];
         rightVal = &workspace[this->fdim_];
-- 
2.43.0


From 06619fa38526a8a7678071612ca8d4dbb63f255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 25/63] fix: CreateComponent rejects quadrature rules with too
 few points instead of aborting

---
 src/MapFactory.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/MapFactory.cpp b/src/MapFactory.cpp
index 70df3ec..b952f7e 100644
--- a/src/MapFactory.cpp
+++ b/src/MapFactory.cpp
@@ -19,6 +19,14 @@ template<typename MemorySpace>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> mpart::MapFactory::CreateComponent(FixedMultiIndexSet<MemorySpace> const& mset,
                                                            MapOptions                                   opts)
 {
+    // The coarse rule of the adaptive Clenshaw-Curtis quadrature needs at least three points
+    unsigned int minQuadPts = (opts.quadType == QuadTypes::AdaptiveClenshawCurtis) ? 4 : 1;
+    if((opts.quadType != QuadTypes::AdaptiveSimpson)&&(opts.quadPts < minQuadPts)){
+        std::stringstream msg;
+        msg << "In CreateComponent, quadPts must be at least " << minQuadPts << " for this quadrature type, but is " << opts.quadPts << ".";
+        throw std::invalid_argument(msg.str());
+    }
+
     return CompFactoryImpl<MemorySpace>::GetFactoryFunction(opts)(mset,opts);
 }
 
-- 
2.43.0


From 5c2ecb109e582f0efcec5ba3a02347d1b36aa343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 26/63] fix: CreateTriangular rejects more outputs than inputs

---
 src/MapFactory.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MapFactory.cpp b/src/MapFactory.cpp
index b952f7e..682704d 100644
--- a/src/MapFactory.cpp
+++ b/src/MapFactory.cpp
@@ -113,6 +113,12 @@ std::shared_ptr<ConditionalMapBase<MemorySpace>> mpart::MapFactory::CreateTriang
                                                                          MapOptions options)
 {
 
+    if(outputDim > inputDim){
+        std::stringstream msg;
+        msg << "In CreateTriangular, the output dimension can't be greater than the input dimension. Got inputDim = " << inputDim << " and outputDim = " << outputDim << ".";
+        throw std::invalid_argument(msg.str());
+    }
+
     std::vector<std::shared_ptr<ConditionalMapBase<MemorySpace>>> comps(outputDim);
 
     unsigned int extraInputs = inputDim - outputDim;
-- 
2.43.0


From 5d0c2c809ef3801c274a868cca5c612dffa0028a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 27/63] fix: SummarizedMap accepts points and outputs of any
 layout

---
 src/SummarizedMap.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/SummarizedMap.cpp b/src/SummarizedMap.cpp
index 05bf632..28bf372 100644
--- a/src/SummarizedMap.cpp
+++ b/src/SummarizedMap.cpp
@@ -77,13 +77,13 @@ void SummarizedMap<MemorySpace>::SummarizePts(StridedMatrix<const double, Memory
 
 
     // Copy summarized pts
-    Kokkos::View<double**, MemorySpace> outputSummary = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSummary = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
 
     // Evaluate summary function
     sumFunc_->EvaluateImpl(ptsToSummarize, outputSummary);
 
     // Copy non summarized pts
-    Kokkos::View<double**, MemorySpace> outputAfterSummary = Kokkos::subview(output, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputAfterSummary = Kokkos::subview(output, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputAfterSummary, ptsAfterSummary);
 
 }
@@ -157,17 +157,17 @@ void SummarizedMap<MemorySpace>::GradientImpl(StridedMatrix<const double, Memory
     comp_->GradientImpl(summarizedPts, sens, outputForSummaryAndX2);
 
     // Split outputForSummaryAndX2 into summary and x2 parts
-    Kokkos::View<double**, MemorySpace> outputForSummary = Kokkos::subview(outputForSummaryAndX2, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
-    Kokkos::View<double**, MemorySpace> outputForX2 = Kokkos::subview(outputForSummaryAndX2, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputForSummary = Kokkos::subview(outputForSummaryAndX2, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputForX2 = Kokkos::subview(outputForSummaryAndX2, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
 
     // GradientImpl of summary using outputForSummary as the sens. vectors (from chain-rule)
     StridedMatrix<const double, MemorySpace>  x1 = Kokkos::subview(pts, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
 
     // Copy results over to the output
-    Kokkos::View<double**, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
     sumFunc_->GradientImpl(x1, outputForSummary, outputSubX1);
 
-    Kokkos::View<double**, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX2, outputForX2);
 
 }
@@ -218,8 +218,8 @@ void SummarizedMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const
     comp_->LogDeterminantInputGradImpl(summarizedPts, outputForSummaryAndX2);
 
     // Split outputForSummaryAndX2 into summary and x2 parts
-    Kokkos::View<double**, MemorySpace> outputForSummary = Kokkos::subview(outputForSummaryAndX2, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
-    Kokkos::View<double**, MemorySpace> outputForX2 = Kokkos::subview(outputForSummaryAndX2, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputForSummary = Kokkos::subview(outputForSummaryAndX2, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputForX2 = Kokkos::subview(outputForSummaryAndX2, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
 
     // Create a view for the gradient of comp_ wrt x_1
     Kokkos::View<double**, MemorySpace> outputForX1("outputForX1", sumFunc_->inputDim, pts.extent(1));
@@ -229,10 +229,10 @@ void SummarizedMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const
     sumFunc_->GradientImpl(x1, outputForSummary, outputForX1);
 
     // Copy results over to the output
-    Kokkos::View<double**, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX1, outputForX1);
 
-    Kokkos::View<double**, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX2, outputForX2);
 }
 
-- 
2.43.0


From ad63ed45d0d320868c0cb5bfeb859746cea3adbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 28/63] fix: dense and compressed multi-index sets define the
 same expansion

Degree-zero factors are absent from compressed sets, i.e. one, but dense sets multiplied by the normalized constant basis function.
---
 MParT/MultivariateExpansionWorker.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/MParT/MultivariateExpansionWorker.h b/MParT/MultivariateExpansionWorker.h
index 0862e9b..2c2c050 100644
--- a/MParT/MultivariateExpansionWorker.h
+++ b/MParT/MultivariateExpansionWorker.h
@@ -148,6 +148,10 @@ public:
             for(unsigned int d=0; d<dim_-1; ++d)
                 basis1d_.EvaluateAll(&polyCache[startPos_(d)], maxDegrees_(d), pt(d));
         }
+
+        // Factors of degree zero are left out of compressed multiindex sets, so they must be one in dense sets too
+        for(unsigned int d=0; d<dim_-1; ++d)
+            polyCache[startPos_(d)] = 1.0;
     }
 
     /**
@@ -187,6 +191,9 @@ public:
                                                maxDegrees_(dim_-1),               // largest basis degree
                                                xd);                               // point to evaluate at
         }
+
+        // As in FillCache1, a factor of degree zero is one
+        polyCache[startPos_(dim_-1)] = 1.0;
     }
 
 
-- 
2.43.0


From 21db6fa469becd341867a7de68db42723a1f49d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 29/63] fix: KokkosToMat and KokkosToVec no longer write past
 their stride arrays

Kokkos::View::stride(ptr) writes rank+1 entries.
---
 MParT/Utilities/ArrayConversions.h | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/MParT/Utilities/ArrayConversions.h b/MParT/Utilities/ArrayConversions.h
index 307196c..13109dd 100644
--- a/MParT/Utilities/ArrayConversions.h
+++ b/MParT/Utilities/ArrayConversions.h
@@ -527,8 +527,7 @@ namespace mpart{
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<Eigen::Matrix<ScalarType,Eigen::Dynamic,1>, 0, Eigen::InnerStride<>> KokkosToVec(Kokkos::View<ScalarType*, Kokkos::LayoutStride, OtherTraits...> view){
 
-        size_t stride;
-        view.stride(&stride);
+        size_t stride = view.stride(0);
         return Eigen::Map<Eigen::Matrix<ScalarType,Eigen::Dynamic,1>, 0, Eigen::InnerStride<>>(view.data(), view.extent(0), Eigen::InnerStride<>(stride));
     }
 
@@ -593,24 +592,21 @@ namespace mpart{
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<typename ViewToEigen<Kokkos::View<ScalarType**,OtherTraits...>>::Type, 0, Eigen::OuterStride<>> KokkosToMat(Kokkos::View<ScalarType**,OtherTraits...> view)
     {
-        size_t strides[2];
-        view.stride(strides);
+        size_t strides[2] = {view.stride(0), view.stride(1)};
         assert((strides[0]==1)||(strides[1]==1));
         return Eigen::Map<typename ViewToEigen<Kokkos::View<ScalarType**, OtherTraits...>>::Type, 0, Eigen::OuterStride<>>(view.data(), view.extent(0), view.extent(1), Eigen::OuterStride<>(std::max(strides[0],strides[1])));
     }
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<typename ConstViewToEigen<Kokkos::View<ScalarType**,OtherTraits...>>::Type, 0, Eigen::OuterStride<>> ConstKokkosToMat(Kokkos::View<const ScalarType**,OtherTraits...> view)
     {
-        size_t strides[2];
-        view.stride(strides);
+        size_t strides[2] = {view.stride(0), view.stride(1)};
         assert((strides[0]==1)||(strides[1]==1));
         return Eigen::Map<typename ConstViewToEigen<Kokkos::View<ScalarType**, OtherTraits...>>::Type, 0, Eigen::OuterStride<>>(view.data(), view.extent(0), view.extent(1), Eigen::OuterStride<>(std::max(strides[0],strides[1])));
     }
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<typename ConstViewToEigen<Kokkos::View<ScalarType**, OtherTraits...>>::Type, 0, Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>> ConstKokkosToMat(Kokkos::View<const ScalarType**, Kokkos::LayoutStride, OtherTraits...> view){
 
-        size_t strides[2];
-        view.stride(strides);
+        size_t strides[2] = {view.stride(0), view.stride(1)};
         return Eigen::Map<typename ConstViewToEigen<Kokkos::View<ScalarType**, Kokkos::LayoutStride, OtherTraits...>>::Type, 0, Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>>(view.data(), view.extent(0), view.extent(1), Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>(strides[0],strides[1]));
     }
 
@@ -640,8 +636,7 @@ namespace mpart{
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<typename ViewToEigen<Kokkos::View<ScalarType**, OtherTraits...>>::Type, 0, Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>> KokkosToMat(Kokkos::View<ScalarType**, Kokkos::LayoutStride, OtherTraits...> view){
 
-        size_t strides[2];
-        view.stride(strides);
+        size_t strides[2] = {view.stride(0), view.stride(1)};
         return Eigen::Map<typename ViewToEigen<Kokkos::View<ScalarType**, Kokkos::LayoutStride, OtherTraits...>>::Type, 0, Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>>(view.data(), view.extent(0), view.extent(1), Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>(strides[0],strides[1]));
     }
 
-- 
2.43.0


From 38bd10f956a6124ae8f0eac563e37c13026f4c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:42 +0000
Subject: [PATCH 30/63] fix: components with a fixed Clenshaw-Curtis rule no
 longer abort when differentiated

The factory gave the rule an internal workspace of size one, so SetDim's
assertion failed as soon as a gradient or discrete derivative (integrands of
more than one dimension) was requested.
---
 src/MapFactoryImpl11.cpp | 2 +-
 src/MapFactoryImpl14.cpp | 2 +-
 src/MapFactoryImpl17.cpp | 2 +-
 src/MapFactoryImpl2.cpp  | 2 +-
 src/MapFactoryImpl5.cpp  | 2 +-
 src/MapFactoryImpl8.cpp  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MapFactoryImpl11.cpp b/src/MapFactoryImpl11.cpp
index 73addff..0433821 100644
--- a/src/MapFactoryImpl11.cpp
+++ b/src/MapFactoryImpl11.cpp
@@ -17,7 +17,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinPhys_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<PhysicistHermite> basis1d(PhysicistHermite(opts.basisNorm), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl14.cpp b/src/MapFactoryImpl14.cpp
index e4f52a3..6118c6a 100644
--- a/src/MapFactoryImpl14.cpp
+++ b/src/MapFactoryImpl14.cpp
@@ -16,7 +16,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinProb_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<ProbabilistHermite> basis1d(ProbabilistHermite(opts.basisNorm), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl17.cpp b/src/MapFactoryImpl17.cpp
index 37f0471..5fbc477 100644
--- a/src/MapFactoryImpl17.cpp
+++ b/src/MapFactoryImpl17.cpp
@@ -16,7 +16,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinHF_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<HermiteFunction> basis1d(HermiteFunction(), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl2.cpp b/src/MapFactoryImpl2.cpp
index 8ecb8bc..09a0439 100644
--- a/src/MapFactoryImpl2.cpp
+++ b/src/MapFactoryImpl2.cpp
@@ -15,7 +15,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_Phys_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     PhysicistHermite basis1d(opts.basisNorm);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl5.cpp b/src/MapFactoryImpl5.cpp
index 6240d9a..eca18c6 100644
--- a/src/MapFactoryImpl5.cpp
+++ b/src/MapFactoryImpl5.cpp
@@ -14,7 +14,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_Prob_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     ProbabilistHermite basis1d(opts.basisNorm);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl8.cpp b/src/MapFactoryImpl8.cpp
index dc61f5d..370cf42 100644
--- a/src/MapFactoryImpl8.cpp
+++ b/src/MapFactoryImpl8.cpp
@@ -14,7 +14,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_HF_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     HermiteFunction basis1d;
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
-- 
2.43.0


From 5c71bf557e95edc6539cc1f30547e04bff13ee4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 31/63] fix: dgemm ignores the previous content of C when beta
 is zero

0*nan is nan, so gradients of affine maps and functions kept nan or inf
values that were in the output array before the call.
---
 src/Utilities/LinearAlgebra.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utilities/LinearAlgebra.cpp b/src/Utilities/LinearAlgebra.cpp
index 157cf9a..7765a2e 100644
--- a/src/Utilities/LinearAlgebra.cpp
+++ b/src/Utilities/LinearAlgebra.cpp
@@ -18,6 +18,10 @@ void mpart::dgemm(double                                     alpha,
     auto eigB = ConstKokkosToMat<double>(B.view);
     auto eigA = ConstKokkosToMat<double>(A.view);
 
+    // As in BLAS, the previous content of C is not used when beta is zero
+    if(beta==0.0)
+        eigC.setZero();
+
     if(A.isTransposed){
         if(B.isTransposed){
             eigC = (beta*eigC + alpha* eigA.transpose() * eigB.transpose() ).eval();
-- 
2.43.0


From 3945d38d079df06ddc21ea9a85468f8517bb58d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 32/63] fix: isComputed flag of PartialPivLU and Cholesky is
 initialized

---
 MParT/Utilities/LinearAlgebra.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Utilities/LinearAlgebra.h b/MParT/Utilities/LinearAlgebra.h
index 9f549e3..3be6298 100644
--- a/MParT/Utilities/LinearAlgebra.h
+++ b/MParT/Utilities/LinearAlgebra.h
@@ -306,7 +306,7 @@ public:
 
 private:
 
-    bool isComputed;
+    bool isComputed = false;
 
     std::shared_ptr<Eigen::PartialPivLU<Eigen::MatrixXd>> luSolver_;
 
@@ -354,7 +354,7 @@ public:
 
 private:
 
-    bool isComputed;
+    bool isComputed = false;
 
     std::shared_ptr<Eigen::LLT<Eigen::MatrixXd>> cholSolver_;
 
-- 
2.43.0


From 8e5c591ce5000e58d8963b7f414bb7c208aecbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:22 +0000
Subject: [PATCH 33/63] fix: AffineMap::InverseImpl accepts padded column-major
 outputs

---
 src/AffineMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index c30c6d3..f9ae30c 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -75,7 +75,7 @@ void AffineMap<MemorySpace>::InverseImpl(StridedMatrix<const double, MemorySpace
     bool copyOut = false;
     StridedMatrix<double,MemorySpace> outLeft;
     if(A_.extent(0)>0){
-        if(output.stride_0()==1){
+        if((output.stride_0()==1)&&(output.stride_1()==output.extent(0))){
             outLeft = output;
         }else{
             outLeft = Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace>("OutLeft", output.extent(0), output.extent(1));
-- 
2.43.0


From a4278f368bdc2280824b8a518ce6c1e772c1e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 34/63] fix: Clenshaw-Curtis rule is applied to reversed
 intervals too

---
 MParT/Quadrature.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index f426863..cf6c14c 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -286,7 +286,7 @@ public:
 
         // For sufficiently small interval, use the midpoint rule
         double midpoint_tol = 15.0*std::numeric_limits<double>::epsilon();
-        if((ub-lb)<midpoint_tol){
+        if(std::abs(ub-lb)<midpoint_tol){
 
             f(0.5*(ub+lb), res);
             for(unsigned int i=0; i<this->fdim_; ++i)
-- 
2.43.0


From 1c9667038a709040700ef75b289e3c0b6275f2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 35/63] fix: SoftPlus::Evaluate stays positive and accurate for
 very negative arguments

---
 MParT/PositiveBijectors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/PositiveBijectors.h b/MParT/PositiveBijectors.h
index f8d5843..9d72f04 100644
--- a/MParT/PositiveBijectors.h
+++ b/MParT/PositiveBijectors.h
@@ -14,7 +14,7 @@ public:
 
     KOKKOS_INLINE_FUNCTION static double Evaluate(double x){
         //stable implementation of std::log(1.0 + std::exp(x)) for large values
-        return std::log(1.0 + std::exp(-1.0 * std::abs(x))) + std::fmax(x,0.0);
+        return std::log1p(std::exp(-1.0 * std::abs(x))) + std::fmax(x,0.0);
     }
 
     KOKKOS_INLINE_FUNCTION static double Derivative(double x){
-- 
2.43.0


From 6dcb144002605a5e5a4d46702d88058f9ac01ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:09 +0000
Subject: [PATCH 36/63] fix: AdaptiveClenshawCurtis view constructor uses the
 level of the given views

---
 MParT/Quadrature.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index cf6c14c..27bbb40 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -774,7 +774,7 @@ public:
                                                                                 finePts_(finePts),
                                                                                 fineWts_(fineWts)
     {
-        const unsigned int level = std::log2(coarsePts.extent(0)-2);
+        const unsigned int level = std::log2(coarsePts.extent(0)-1);
         assert(std::pow(2,level)+1 >=3);
 
         ClenshawCurtisQuadrature<MemorySpace>::GetRule(std::pow(2,level)+1,  coarseWts_.data(), coarsePts_.data());
-- 
2.43.0


From 4584bb2188d3c900fd586bd59d0099eb507b8769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 37/63] fix: constant Eigen matrices keep their outer stride
 when wrapped

---
 MParT/Utilities/ArrayConversions.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/MParT/Utilities/ArrayConversions.h b/MParT/Utilities/ArrayConversions.h
index 13109dd..8fce8ee 100644
--- a/MParT/Utilities/ArrayConversions.h
+++ b/MParT/Utilities/ArrayConversions.h
@@ -428,16 +428,17 @@ namespace mpart{
     }
 
     template<typename ScalarType, typename MemorySpace = Kokkos::HostSpace>
-    inline Kokkos::View<const ScalarType**, Kokkos::LayoutRight, MemorySpace> ConstRowMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
+    inline StridedMatrix<const ScalarType, MemorySpace> ConstRowMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
     {
-        Kokkos::LayoutStride strides(ref.rows(), ref.innerStride(), ref.cols(), ref.outerStride());
-        return Kokkos::View<const ScalarType**, Kokkos::LayoutRight, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), ref.rows(), ref.cols());
+        Kokkos::LayoutStride strides(ref.rows(), ref.outerStride(), ref.cols(), ref.innerStride());
+        return Kokkos::View<const ScalarType**, Kokkos::LayoutStride, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), strides);
     }
 
     template<typename ScalarType, typename MemorySpace = Kokkos::HostSpace>
-    inline Kokkos::View<const ScalarType**, Kokkos::LayoutLeft, MemorySpace> ConstColMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::ColMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
+    inline StridedMatrix<const ScalarType, MemorySpace> ConstColMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::ColMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
     {
-        return Kokkos::View<const ScalarType**, Kokkos::LayoutLeft, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), ref.rows(), ref.cols());
+        Kokkos::LayoutStride strides(ref.rows(), ref.innerStride(), ref.cols(), ref.outerStride());
+        return Kokkos::View<const ScalarType**, Kokkos::LayoutStride, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), strides);
     }
 
     /** @brief Converts a 1d Eigen::Ref of a vector to an unmanaged Kokkos view.
-- 
2.43.0


From 9ecc4ee78b798fe4ca562e8e444f0db67e874c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 38/63] fix: dense-covariance Gaussians accept every layout of
 covariance, gradient and sample arrays

---
 MParT/Distributions/GaussianSamplerDensity.h |  5 ++++-
 src/Distributions/GaussianSamplerDensity.cpp | 14 +++++++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/MParT/Distributions/GaussianSamplerDensity.h b/MParT/Distributions/GaussianSamplerDensity.h
index bad4a8f..8b0843c 100644
--- a/MParT/Distributions/GaussianSamplerDensity.h
+++ b/MParT/Distributions/GaussianSamplerDensity.h
@@ -74,7 +74,10 @@ class GaussianSamplerDensity: public SampleGenerator<MemorySpace>, public Densit
 #endif // KOKKOS_VERSION
 
     void Factorize(StridedMatrix<double, MemorySpace> Cov) {
-        covChol_.compute(Cov);
+        // The factorization needs column-major storage
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> covLeft("covar", Cov.extent(0), Cov.extent(1));
+        Kokkos::deep_copy(covLeft, Cov);
+        covChol_.compute(covLeft);
         logDetCov_ = std::log(covChol_.determinant());
     }
 
diff --git a/src/Distributions/GaussianSamplerDensity.cpp b/src/Distributions/GaussianSamplerDensity.cpp
index a4a725e..bca4c83 100644
--- a/src/Distributions/GaussianSamplerDensity.cpp
+++ b/src/Distributions/GaussianSamplerDensity.cpp
@@ -73,12 +73,12 @@ void GaussianSamplerDensity<MemorySpace>::LogDensityInputGradImpl(StridedMatrix<
     }
 
     if(!idCov_) {
-        covChol_.solveInPlace(output);
+        // The solver needs column-major storage
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> sol = covChol_.solve(output);
+        Kokkos::deep_copy(output, sol);
     }
 }
 
-
-// Currently this requires that output be a LayoutLeft view
 template<typename MemorySpace>
 void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, MemorySpace> output_) {
     // Sample from the distribution
@@ -110,8 +110,8 @@ void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, Memor
     }
     // Otherwise, we assume dense covariance
     else {
-        // Enforce that the output is the correct layout!
-        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> output = output_;
+        // The Cholesky factor is applied to column-major storage, whatever the layout of the output
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> output("samples", M, N);
         // Sample from the standard normal
         Kokkos::parallel_for(policy, KOKKOS_LAMBDA(const int j, const int i) {
             GeneratorType rgen = rand_pool.get_state();
@@ -122,11 +122,11 @@ void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, Memor
         auto mul = covChol_.multiplyL(output);
         // Add the mean (if nonzero)
         if(mean_.extent(0) == 0){
-            Kokkos::deep_copy(output, mul);
+            Kokkos::deep_copy(output_, mul);
         }
         else {
             Kokkos::parallel_for(policy, KOKKOS_LAMBDA(const int j, const int i) {
-                output(i,j) = mul(i,j) + mean_(i);
+                output_(i,j) = mul(i,j) + mean_(i);
             });
         }
     }
-- 
2.43.0


From 7826eaa0c2397a9adcde3e8f17f78ecb2c71237f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 39/63] fix: Gaussian log-densities may be written to strided
 vectors

---
 src/Distributions/GaussianSamplerDensity.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Distributions/GaussianSamplerDensity.cpp b/src/Distributions/GaussianSamplerDensity.cpp
index bca4c83..0955047 100644
--- a/src/Distributions/GaussianSamplerDensity.cpp
+++ b/src/Distributions/GaussianSamplerDensity.cpp
@@ -45,9 +45,11 @@ void GaussianSamplerDensity<MemorySpace>::LogDensityImpl(StridedMatrix<const dou
     }
 
     ReduceDim<ReduceDimMap::norm,MemorySpace,0> rr(diff, -0.5);
-    Kokkos::parallel_reduce(M, rr, &output(0));
+    // The reduction needs contiguous storage, which output may not have
+    Kokkos::View<double*, MemorySpace> sqNorms("squared norms", N);
+    Kokkos::parallel_reduce(M, rr, sqNorms.data());
     Kokkos::parallel_for( "log terms", N, KOKKOS_LAMBDA (const int& j) {
-        output(j) -= 0.5*( M*logtau_ + logDetCov_ );
+        output(j) = sqNorms(j) - 0.5*( M*logtau_ + logDetCov_ );
     });
 }
 
-- 
2.43.0


From e8df1b7c902299253e5d0587345fe64d1dff3995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 40/63] fix: objective gradients may be written to strided
 vectors

---
 src/MapObjective.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/MapObjective.cpp b/src/MapObjective.cpp
index d11123d..bdc1d76 100644
--- a/src/MapObjective.cpp
+++ b/src/MapObjective.cpp
@@ -60,7 +60,10 @@ double KLObjective<MemorySpace>::ObjectivePlusCoeffGradImpl(StridedMatrix<const
         sum -= densityX(i);
     }, sumDensity);
     ReduceDim<ReduceDimMap::sum,MemorySpace> rc(densityGradX, -1.0/((double) N_samps));
-    Kokkos::parallel_reduce(N_samps, rc, &grad(0));
+    // The reduction needs contiguous storage, which grad may not have
+    Kokkos::View<double*, MemorySpace> gradSum("gradient", grad.extent(0));
+    Kokkos::parallel_reduce(N_samps, rc, gradSum.data());
+    Kokkos::deep_copy(grad, gradSum);
     return sumDensity/N_samps;
 }
 
@@ -82,7 +85,10 @@ void KLObjective<MemorySpace>::CoeffGradImpl(StridedMatrix<const double, MemoryS
     PullbackDensity<MemorySpace> pullback {map, density_};
     StridedMatrix<double, MemorySpace> densityGradX = pullback.LogDensityCoeffGrad(data);
     ReduceDim<ReduceDimMap::sum,MemorySpace> rc(densityGradX, -1.0/((double) N_samps));
-    Kokkos::parallel_reduce(N_samps, rc, &grad(0));
+    // The reduction needs contiguous storage, which grad may not have
+    Kokkos::View<double*, MemorySpace> gradSum("gradient", grad.extent(0));
+    Kokkos::parallel_reduce(N_samps, rc, gradSum.data());
+    Kokkos::deep_copy(grad, gradSum);
 }
 
 // Explicit template instantiation
-- 
2.43.0


From 59fd9434b4f427055cdb5e46a47eaafe0840bb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 41/63] fix: derivative-free optimizers can evaluate a training
 objective

---
 src/MapObjective.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MapObjective.cpp b/src/MapObjective.cpp
index bdc1d76..0c27684 100644
--- a/src/MapObjective.cpp
+++ b/src/MapObjective.cpp
@@ -5,8 +5,11 @@ template<typename MemorySpace>
 double MapObjective<MemorySpace>::operator()(unsigned int n, const double* coeffs, double* grad, std::shared_ptr<ConditionalMapBase<MemorySpace>> map) {
 
     StridedVector<const double, MemorySpace> coeffView = ToConstKokkos<double,MemorySpace>(coeffs, n);
-    StridedVector<double, MemorySpace> gradView = ToKokkos<double,MemorySpace>(grad, n);
     map->SetCoeffs(coeffView);
+    if(grad == nullptr) { // Derivative-free optimizers do not ask for a gradient
+        return ObjectiveImpl(train_, map);
+    }
+    StridedVector<double, MemorySpace> gradView = ToKokkos<double,MemorySpace>(grad, n);
     return ObjectivePlusCoeffGradImpl(train_, gradView, map);
 }
 
-- 
2.43.0


From 01f2a0cc0e2e5752610e4c9bb24dd3dd9420bc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 42/63] fix: PullbackDensity::LogDensityCoeffGrad for Eigen
 matrices returns the coefficient gradient

---
 src/Distributions/PullbackDensity.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Distributions/PullbackDensity.cpp b/src/Distributions/PullbackDensity.cpp
index bde74a7..89313b2 100644
--- a/src/Distributions/PullbackDensity.cpp
+++ b/src/Distributions/PullbackDensity.cpp
@@ -46,11 +46,10 @@ StridedMatrix<double, MemorySpace> PullbackDensity<MemorySpace>::LogDensityCoeff
 template<>
 Eigen::RowMatrixXd PullbackDensity<Kokkos::HostSpace>::LogDensityCoeffGrad(Eigen::Ref<const Eigen::RowMatrixXd> const &pts) {
     // Allocate output
-    Eigen::RowMatrixXd output(pts.rows(), pts.cols());
+    Eigen::RowMatrixXd output(map_->numCoeffs, pts.cols());
     StridedMatrix<const double, Kokkos::HostSpace> ptsView = ConstRowMatToKokkos<double, Kokkos::HostSpace>(pts);
     StridedMatrix<double, Kokkos::HostSpace> outView = MatToKokkos<double, Kokkos::HostSpace>(output);
-    // Call the LogDensity function
-    LogDensityInputGradImpl(ptsView, outView);
+    LogDensityCoeffGradImpl(ptsView, outView);
     return output;
 }
 
-- 
2.43.0


From 5fb50efcd341ed2845fe60380457785a85f973f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 43/63] fix: Gaussian log-densities stay finite when the
 covariance determinant is not representable

---
 MParT/Distributions/GaussianSamplerDensity.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/MParT/Distributions/GaussianSamplerDensity.h b/MParT/Distributions/GaussianSamplerDensity.h
index 8b0843c..4c20a70 100644
--- a/MParT/Distributions/GaussianSamplerDensity.h
+++ b/MParT/Distributions/GaussianSamplerDensity.h
@@ -78,7 +78,14 @@ class GaussianSamplerDensity: public SampleGenerator<MemorySpace>, public Densit
         Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> covLeft("covar", Cov.extent(0), Cov.extent(1));
         Kokkos::deep_copy(covLeft, Cov);
         covChol_.compute(covLeft);
-        logDetCov_ = std::log(covChol_.determinant());
+        // Sum the logarithms on the diagonal of the factor, because the determinant itself may over- or underflow
+        const unsigned int dim = Cov.extent(0);
+        Kokkos::View<double**, Kokkos::LayoutLeft, Kokkos::HostSpace> identity("identity", dim, dim);
+        for(unsigned int i = 0; i < dim; i++) identity(i,i) = 1.0;
+        auto factor = covChol_.multiplyL(Kokkos::create_mirror_view_and_copy(MemorySpace(), identity));
+        auto factorHost = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), factor);
+        logDetCov_ = 0.;
+        for(unsigned int i = 0; i < dim; i++) logDetCov_ += 2.0*std::log(factorHost(i,i));
     }
 
     private:
-- 
2.43.0


From b896a3a49af78fbf900024f454e5be2f398c8be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 44/63] fix: TrainMap leaves the best coefficients in the map,
 whichever way the optimizer ends

---
 src/TrainMap.cpp | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/TrainMap.cpp b/src/TrainMap.cpp
index db177a0..eb7da90 100644
--- a/src/TrainMap.cpp
+++ b/src/TrainMap.cpp
@@ -70,17 +70,44 @@ double mpart::TrainMap(std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> ma
     }
     nlopt::opt opt = SetupOptimization(map->numCoeffs, options);
 
-    // Since objective is (rightfully) separate from the map, we use std::bind to create a functor
-    // from objective::operator() that keeps the map argument held.
-    std::function<double(unsigned, const double*, double*)> functor = std::bind(&MapObjective<Kokkos::HostSpace>::operator(), objective, std::placeholders::_1, std::placeholders::_2, std::placeholders::_3, map);
-    opt.set_min_objective(functor_wrapper, reinterpret_cast<void*>(&functor));
-
     // Get the initial guess at the coefficients
     std::vector<double> mapCoeffsStd = KokkosToStd(map->Coeffs());
 
+    // Since objective is (rightfully) separate from the map, we create a functor
+    // from objective::operator() that keeps the map argument held and remembers the best coefficients evaluated.
+    std::vector<double> bestCoeffs = mapCoeffsStd;
+    double bestError = std::numeric_limits<double>::infinity();
+    std::function<double(unsigned, const double*, double*)> functor = [&](unsigned n, const double* x, double* grad) {
+        double val = (*objective)(n, x, grad, map);
+        if(val < bestError) {
+            bestError = val;
+            bestCoeffs.assign(x, x + n);
+        }
+        return val;
+    };
+    opt.set_min_objective(functor_wrapper, reinterpret_cast<void*>(&functor));
+
     // Optimize the map coefficients using NLopt
-    double error;
-    nlopt::result res = opt.optimize(mapCoeffsStd, error);
+    double error = std::numeric_limits<double>::infinity();
+    nlopt::result res;
+    try {
+        res = opt.optimize(mapCoeffsStd, error);
+    } catch(const nlopt::roundoff_limited&) {
+        res = nlopt::ROUNDOFF_LIMITED;
+    } catch(...) {
+        // Failures of the optimization itself are reported below
+        res = opt.last_optimize_result();
+        if(res != nlopt::FAILURE) {
+            map->SetCoeffs(VecToKokkos<double,Kokkos::HostSpace>(bestCoeffs));
+            throw;
+        }
+    }
+
+    // Some algorithms stop at coefficients that are worse than others they went through
+    if(bestError < std::numeric_limits<double>::infinity()) {
+        error = bestError;
+        mapCoeffsStd = bestCoeffs;
+    }
 
     // Set the coefficients using SetCoeffs
     Kokkos::View<double*, Kokkos::HostSpace> mapCoeffsView = VecToKokkos<double,Kokkos::HostSpace>(mapCoeffsStd);
-- 
2.43.0


From 3569d653bbf9e2f4dd5b3de1c7c857041fb8c469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 45/63] fix: TrainMapAdaptive does not read past the end of the
 reduced margin

---
 src/TrainMapAdaptive.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index 7091db5..b8dc419 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -150,7 +150,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
             int oldIdx = 0;
             int rmIdx = 0;
             for(int j = 0; j < comp_i->numCoeffs; j++) {
-                if(j == multis_rm[i][rmIdx]){ // Fill new coeff with zero
+                if(rmIdx < multis_rm[i].size() && j == multis_rm[i][rmIdx]){ // Fill new coeff with zero
                     coeffsFrontier(j) = 0.;
                     rmIdx++;
                 }
@@ -173,7 +173,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
                 int rmIdx = 0;
                 for(int i = 0; i < mset_tmp[output].Size(); i++) {
                     std::cout << "gradCoeff(" << coeffIdx << ")=" << gradCoeff(coeffIdx) << ", midx=[" << mset_tmp[output][i] << "]";
-                    if(i == multis_rm[output][rmIdx]) {
+                    if(rmIdx < multis_rm[output].size() && i == multis_rm[output][rmIdx]) {
                         std::cout << " rm!";
                         rmIdx++;
                     }
-- 
2.43.0


From c345d7cb8b17aec3dafcecbfd300be4fefbd2ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 46/63] fix: TrainMapAdaptive stops when no term can be added

---
 src/TrainMapAdaptive.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index b8dc419..1d64550 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -3,7 +3,8 @@
 
 using namespace mpart;
 
-void findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std::vector<std::vector<unsigned int>> const &multis_rm,
+// Returns false if no candidate has a nonzero gradient
+bool findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std::vector<std::vector<unsigned int>> const &multis_rm,
     std::vector<MultiIndexSet> const &msets, unsigned int &maxIdx, unsigned int &maxIdxBlock) {
     unsigned int outputDim = multis_rm.size();
     double maxVal = 0.;
@@ -20,6 +21,7 @@ void findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std:
         }
         blockStart += msets[output].Size();
     }
+    return maxVal > 0.;
 }
 
 void maxDegreeRMFilter(std::vector<MultiIndexSet> const &msets, MultiIndex const &maxDegrees,
@@ -190,7 +192,9 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
 
         // Find the largest gradient value, calculate which output and multiindex it corresponds to
         unsigned int maxIdx, maxIdxBlock;
-        findMaxGrad(gradCoeff, multis_rm, mset_tmp, maxIdx, maxIdxBlock);
+        if(!findMaxGrad(gradCoeff, multis_rm, mset_tmp, maxIdx, maxIdxBlock)) {
+            break; // No term is left that could be added
+        }
 
         // Add the multiindex with largest gradient to the map
         MultiIndex addedMulti = mset_tmp[maxIdxBlock][maxIdx];
-- 
2.43.0


From 508782e6825f36804687c1b9f7b1c2d82889f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 47/63] fix: TrainMapAdaptive falls back to the initial
 multi-index sets when nothing improves on them

---
 src/TrainMapAdaptive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index 1d64550..b235de2 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -90,7 +90,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
         // Initialize the temporary mset vectors
         MultiIndexSet mset_tmp_j = MultiIndexSet::CreateTotalOrder(inputDim-outputDim+j+1,0);
         mset_tmp.push_back(mset_tmp_j);
-        mset_best.push_back(mset_tmp_j);
+        mset_best.push_back(mset_j);
 
         // Index global constants
         currMsetDim++;
-- 
2.43.0


From 171cfd5e20cd2d9b0d15bcbe76e2b9c254946f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:27 +0000
Subject: [PATCH 48/63] fix: the pullback and pushforward distribution
 factories compile

---
 MParT/Distributions/TransportDistributionFactory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Distributions/TransportDistributionFactory.h b/MParT/Distributions/TransportDistributionFactory.h
index 098e47d..191ede9 100644
--- a/MParT/Distributions/TransportDistributionFactory.h
+++ b/MParT/Distributions/TransportDistributionFactory.h
@@ -10,9 +10,9 @@
 namespace mpart {
 
     template<typename MemorySpace>
-    using PullbackDistribution = Distribution<PullbackDensity<MemorySpace>, PullbackSampler<MemorySpace>>;
+    using PullbackDistribution = Distribution<MemorySpace>;
     template<typename MemorySpace>
-    using PushforwardDistribution = Distribution<PushforwardDensity<MemorySpace>, PushforwardSampler<MemorySpace>>;
+    using PushforwardDistribution = Distribution<MemorySpace>;
 
     template<typename MemorySpace>
     std::shared_ptr<PullbackDistribution<MemorySpace>> CreatePullback(std::shared_ptr<ConditionalMapBase<MemorySpace>> map, std::shared_ptr<Distribution<MemorySpace>> reference) {
-- 
2.43.0


From 75bdc5a03b8b144bfe790e4b7fbd5ad5c1d28b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 49/63] fix: maps can be evaluated at an empty batch of points

---
 MParT/Utilities/KokkosHelpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Utilities/KokkosHelpers.h b/MParT/Utilities/KokkosHelpers.h
index 402f43f..8f2649a 100644
--- a/MParT/Utilities/KokkosHelpers.h
+++ b/MParT/Utilities/KokkosHelpers.h
@@ -19,7 +19,7 @@ namespace mpart{
         Kokkos::TeamPolicy<ExecutionSpace> policy;
         policy.set_scratch_size(1,Kokkos::PerTeam(0), Kokkos::PerThread(cacheBytes));
             
-        const unsigned int threadsPerTeam = std::min<unsigned int>(numPts, policy.team_size_recommended(functor, Kokkos::ParallelForTag()));
+        const unsigned int threadsPerTeam = std::max<unsigned int>(1, std::min<unsigned int>(numPts, policy.team_size_recommended(functor, Kokkos::ParallelForTag())));
         const unsigned int numTeams = std::ceil( double(numPts) / threadsPerTeam );
             
         policy = Kokkos::TeamPolicy<ExecutionSpace>(numTeams, threadsPerTeam).set_scratch_size(1,Kokkos::PerTeam(0), Kokkos::PerThread(cacheBytes));
-- 
2.43.0


From f0ec8fc6a3d25955b3d911386f689364eac6360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 50/63] fix: TrainMapAdaptive returns a map no worse than the
 best one it found

---
 src/TrainMapAdaptive.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index b235de2..d25f6c4 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -130,6 +130,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
     }
     TrainMap(map, objective, options);
     double bestError = objective->TestError(map);
+    std::vector<double> bestCoeffs = KokkosToStd(map->Coeffs());
 
     if(options.verbose) {
         std::cout << "Initial map test error: " << bestError << std::endl;
@@ -230,6 +231,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
         currPatience++;
         if(test_error < bestError) {
             bestError = test_error;
+            bestCoeffs = KokkosToStd(map->Coeffs());
             for(int i = 0; i < outputDim; i++) {
                 mset_best[i] = mset0[i];
             }
@@ -251,6 +253,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
 
     // Create the "best" map and optimize it
     map = std::make_shared<TriangularMap<Kokkos::HostSpace>>(mapBlocks, true);
+    map->SetCoeffs(VecToKokkos<double,Kokkos::HostSpace>(bestCoeffs));
     if(options.verbose) {
         std::cout << "\nFinal map has " << map->numCoeffs << " terms.\n";
     }
@@ -258,6 +261,10 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
     double train_error = TrainMap(map, objective, options);
     // Get the testing error and assess the best map
     double test_error = objective->TestError(map);
+    if(!(test_error <= bestError)) { // Training further overfits
+        map->SetCoeffs(VecToKokkos<double,Kokkos::HostSpace>(bestCoeffs));
+        test_error = bestError;
+    }
 
     if(options.verbose) {
         std::cout << "\nFinal training error: " << train_error << ", final testing error: " << test_error;
-- 
2.43.0


From 4bb6fdbff7465051e6557cde7659dd9f4bce158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:02 +0000
Subject: [PATCH 51/63] fix: point, sensitivity and target arrays of the wrong
 shape are rejected instead of read out of bounds

---
 MParT/ConditionalMapBase.h        |  7 +++++++
 MParT/IdentityMap.h               |  5 +++++
 MParT/ParameterizedFunctionBase.h |  8 ++++++++
 src/ConditionalMapBase.cpp        | 16 ++++++++++++++++
 src/ParameterizedFunctionBase.cpp | 30 ++++++++++++++++++++++++++++++
 5 files changed, 66 insertions(+)

diff --git a/MParT/ConditionalMapBase.h b/MParT/ConditionalMapBase.h
index f7a7ed3..7dc15a4 100644
--- a/MParT/ConditionalMapBase.h
+++ b/MParT/ConditionalMapBase.h
@@ -176,6 +176,13 @@ namespace mpart {
 
 #endif // MPART_HAS_CEREAL
 
+    protected:
+
+        /** Checks that the array x1 passed to Inverse, with `numRows` rows, can hold at least the first \f$N-M\f$ and at most all \f$N\f$
+            components of the inputs.  Throws a std::invalid_argument if not.  Maps that do not need x1 can accept anything.
+        */
+        virtual void CheckPrefix(unsigned int numRows) const;
+
     }; // class ConditionalMapBase<MemorySpace>
 }
 #endif
\ No newline at end of file
diff --git a/MParT/IdentityMap.h b/MParT/IdentityMap.h
index 0a9d9fa..46a365b 100644
--- a/MParT/IdentityMap.h
+++ b/MParT/IdentityMap.h
@@ -57,6 +57,11 @@ public:
     void LogDeterminantInputGradImpl(StridedMatrix<const double, MemorySpace> const& pts,
                                      StridedMatrix<double, MemorySpace>              output) override;
 
+protected:
+
+    /** The inverse of the identity does not depend on x1. */
+    void CheckPrefix(unsigned int) const override {};
+
 }; // class IdentityMap
 
 }
diff --git a/MParT/ParameterizedFunctionBase.h b/MParT/ParameterizedFunctionBase.h
index 94e1438..e741e07 100644
--- a/MParT/ParameterizedFunctionBase.h
+++ b/MParT/ParameterizedFunctionBase.h
@@ -244,6 +244,14 @@ namespace mpart {
         /** Checks to see if the coefficients have been initialized yet. If not, an exception is thrown. */
         void CheckCoefficients(std::string const& functionName) const;
 
+        /** Checks that an input array has the expected number of rows. If not, an exception is thrown. */
+        void CheckRows(std::string const& functionName, std::string const& argName, unsigned int numRows, unsigned int expectedRows) const;
+
+        /** Checks that points and sensitivities have the right sizes. If not, an exception is thrown. */
+        void CheckPtsAndSens(std::string const& functionName,
+                             StridedMatrix<const double, MemorySpace> const& pts,
+                             StridedMatrix<const double, MemorySpace> const& sens) const;
+
         Kokkos::View<double*, MemorySpace> savedCoeffs;
         
     }; // class ParameterizedFunctionBase
diff --git a/src/ConditionalMapBase.cpp b/src/ConditionalMapBase.cpp
index ff09ddc..5247a00 100644
--- a/src/ConditionalMapBase.cpp
+++ b/src/ConditionalMapBase.cpp
@@ -9,6 +9,7 @@ template<>
 Kokkos::View<double*, Kokkos::HostSpace> ConditionalMapBase<Kokkos::HostSpace>::LogDeterminant(StridedMatrix<const double, Kokkos::HostSpace> const& pts)
 {
     this->CheckCoefficients("LogDeterminant");
+    this->CheckRows("LogDeterminant", "pts", pts.extent(0), this->inputDim);
     Kokkos::View<double*, Kokkos::HostSpace> output("Log Determinants", pts.extent(1));
     LogDeterminantImpl(pts, output);
     return output;
@@ -75,6 +76,9 @@ StridedMatrix<double, Kokkos::HostSpace> ConditionalMapBase<Kokkos::HostSpace>::
         throw std::invalid_argument(msg.str());
     }
 
+    this->CheckRows("Inverse", "r", r.extent(0), this->outputDim);
+    this->CheckPrefix(x1.extent(0));
+
     Kokkos::View<double**, Kokkos::HostSpace> output("Map Inverse Evaluations", this->outputDim, r.extent(1));
     InverseImpl(x1,r, output);
     return output;
@@ -145,6 +149,7 @@ template<>
 StridedMatrix<double, Kokkos::HostSpace> ConditionalMapBase<Kokkos::HostSpace>::LogDeterminantCoeffGrad(StridedMatrix<const double, Kokkos::HostSpace> const& pts)
 {
     this->CheckCoefficients("LogDeterminantCoeffGrad");
+    this->CheckRows("LogDeterminantCoeffGrad", "pts", pts.extent(0), this->inputDim);
     Kokkos::View<double**, Kokkos::HostSpace> output("LogDeterminantCoeffGrad", this->numCoeffs, pts.extent(1));
     LogDeterminantCoeffGradImpl(pts,output);
     return output;
@@ -221,6 +226,7 @@ template<>
 StridedMatrix<double, Kokkos::HostSpace> ConditionalMapBase<Kokkos::HostSpace>::LogDeterminantInputGrad(StridedMatrix<const double, Kokkos::HostSpace> const& pts)
 {
     this->CheckCoefficients("LogDeterminantInputGrad");
+    this->CheckRows("LogDeterminantInputGrad", "pts", pts.extent(0), this->inputDim);
 
     Kokkos::View<double**, Kokkos::HostSpace> output("LogDeterminantInputGrad", pts.extent(0), pts.extent(1));
     LogDeterminantInputGradImpl(pts, output);
@@ -292,6 +298,16 @@ Eigen::RowMatrixXd ConditionalMapBase<mpart::DeviceSpace>::LogDeterminantInputGr
 
 #endif
 
+template<typename MemorySpace>
+void ConditionalMapBase<MemorySpace>::CheckPrefix(unsigned int numRows) const
+{
+    if((numRows + this->outputDim < this->inputDim) || (numRows > this->inputDim)){
+        std::stringstream msg;
+        msg << "Error in \"Inverse\", expected \"x1\" to have between " << this->inputDim - this->outputDim << " and " << this->inputDim << " rows, but it has " << numRows << ".";
+        throw std::invalid_argument(msg.str());
+    }
+}
+
 // Explicit template instantiation
 template class mpart::ConditionalMapBase<Kokkos::HostSpace>;
 #if defined(MPART_ENABLE_GPU)
diff --git a/src/ParameterizedFunctionBase.cpp b/src/ParameterizedFunctionBase.cpp
index 38be07b..af9c9b3 100644
--- a/src/ParameterizedFunctionBase.cpp
+++ b/src/ParameterizedFunctionBase.cpp
@@ -27,6 +27,7 @@ template<>
 StridedMatrix<double, Kokkos::HostSpace> ParameterizedFunctionBase<Kokkos::HostSpace>::Evaluate(StridedMatrix<const double, Kokkos::HostSpace> const& pts)
 {
     CheckCoefficients("Evaluate");
+    CheckRows("Evaluate", "pts", pts.extent(0), inputDim);
 
     Kokkos::View<double**, Kokkos::HostSpace> output("Map Evaluations", outputDim, pts.extent(1));
     EvaluateImpl(pts, output);
@@ -37,6 +38,7 @@ template<>
 Eigen::RowMatrixXd ParameterizedFunctionBase<Kokkos::HostSpace>::Evaluate(Eigen::Ref<const Eigen::RowMatrixXd> const& pts)
 {
     CheckCoefficients("Evaluate");
+    CheckRows("Evaluate", "pts", pts.rows(), inputDim);
 
     Eigen::RowMatrixXd output(outputDim, pts.cols());
     StridedMatrix<const double, Kokkos::HostSpace> ptsView = ConstRowMatToKokkos<double,Kokkos::HostSpace>(pts);
@@ -106,6 +108,7 @@ template<>
 StridedMatrix<double, Kokkos::HostSpace> ParameterizedFunctionBase<Kokkos::HostSpace>::Gradient(StridedMatrix<const double, Kokkos::HostSpace> const& pts, StridedMatrix<const double, Kokkos::HostSpace> const& sens)
 {
     CheckCoefficients("Gradient");
+    CheckPtsAndSens("Gradient", pts, sens);
 
     Kokkos::View<double**, Kokkos::HostSpace> output("Gradients", inputDim, pts.extent(1));
     GradientImpl(pts, sens, output);
@@ -120,6 +123,7 @@ Eigen::RowMatrixXd ParameterizedFunctionBase<Kokkos::HostSpace>::Gradient(Eigen:
     Eigen::RowMatrixXd output(inputDim, pts.cols());
     StridedMatrix<const double, Kokkos::HostSpace> ptsView = ConstRowMatToKokkos<double,Kokkos::HostSpace>(pts);
     StridedMatrix<const double, Kokkos::HostSpace> sensView = ConstRowMatToKokkos<double,Kokkos::HostSpace>(sens);
+    CheckPtsAndSens("Gradient", ptsView, sensView);
     StridedMatrix<double, Kokkos::HostSpace> outView = MatToKokkos<double,Kokkos::HostSpace>(output);
     GradientImpl(ptsView, sensView, outView);
     return output;
@@ -272,6 +276,7 @@ StridedMatrix<double, Kokkos::HostSpace> ParameterizedFunctionBase<Kokkos::HostS
                                                                                                  StridedMatrix<const double, Kokkos::HostSpace> const& sens)
 {
     CheckCoefficients("CoeffGrad");
+    CheckPtsAndSens("CoeffGrad", pts, sens);
     Kokkos::View<double**, Kokkos::HostSpace> output("Coeff Grad", numCoeffs, pts.extent(1));
     CoeffGradImpl(pts,sens, output);
     return output;
@@ -362,6 +367,31 @@ void ParameterizedFunctionBase<MemorySpace>::CheckCoefficients(std::string const
     }
 }
 
+template<typename MemorySpace>
+void ParameterizedFunctionBase<MemorySpace>::CheckRows(std::string const& functionName, std::string const& argName, unsigned int numRows, unsigned int expectedRows) const
+{
+    if(numRows != expectedRows){
+        std::stringstream msg;
+        msg << "Error in \"" << functionName << "\", expected \"" << argName << "\" to have " << expectedRows << " rows, but it has " << numRows << ".";
+        throw std::invalid_argument(msg.str());
+    }
+}
+
+template<typename MemorySpace>
+void ParameterizedFunctionBase<MemorySpace>::CheckPtsAndSens(std::string const& functionName,
+                                                             StridedMatrix<const double, MemorySpace> const& pts,
+                                                             StridedMatrix<const double, MemorySpace> const& sens) const
+{
+    CheckRows(functionName, "pts", pts.extent(0), inputDim);
+    CheckRows(functionName, "sens", sens.extent(0), outputDim);
+
+    if(pts.extent(1) != sens.extent(1)){
+        std::stringstream msg;
+        msg << "Error in \"" << functionName << "\", pts and sens have different numbers of columns (" << pts.extent(1) << " and " << sens.extent(1) << ").";
+        throw std::invalid_argument(msg.str());
+    }
+}
+
 
 // Explicit template instantiation
 template class mpart::ParameterizedFunctionBase<Kokkos::HostSpace>;
-- 
2.43.0


From 497b8c86194012fe4a7ba81fc5fd6a661656635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 52/63] fix: affine maps and functions with incompatible sizes
 raise an exception instead of aborting

---
 src/AffineFunction.cpp | 18 +++++++++++++++---
 src/AffineMap.cpp      | 18 +++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/AffineFunction.cpp b/src/AffineFunction.cpp
index 1969ecd..e64c141 100644
--- a/src/AffineFunction.cpp
+++ b/src/AffineFunction.cpp
@@ -22,7 +22,11 @@ AffineFunction<MemorySpace>::AffineFunction(StridedMatrix<double,MemorySpace> A)
                                                                                A_("A", A.extent(0), A.extent(1))
 {
     Kokkos::deep_copy(A_, A);
-    assert(A_.extent(0)<=A_.extent(1));
+    if(A_.extent(0) > A_.extent(1)){
+        std::stringstream msg;
+        msg << "In AffineFunction constructor, the number of rows of the matrix (" << A_.extent(0) << ") is greater than the number of columns (" << A_.extent(1) << ").";
+        throw std::invalid_argument(msg.str());
+    }
 }
 
 
@@ -34,8 +38,16 @@ AffineFunction<MemorySpace>::AffineFunction(StridedMatrix<double,MemorySpace> A,
 {   
     Kokkos::deep_copy(A_, A);
     Kokkos::deep_copy(b_, b);
-    assert(A_.extent(0) <= A_.extent(1));
-    assert(A_.extent(0) == b_.extent(0));
+    if(A_.extent(0) > A_.extent(1)){
+        std::stringstream msg;
+        msg << "In AffineFunction constructor, the number of rows of the matrix (" << A_.extent(0) << ") is greater than the number of columns (" << A_.extent(1) << ").";
+        throw std::invalid_argument(msg.str());
+    }
+    if(A_.extent(0) != b_.extent(0)){
+        std::stringstream msg;
+        msg << "In AffineFunction constructor, the number of rows of the matrix (" << A_.extent(0) << ") does not match the length of the vector (" << b_.extent(0) << ").";
+        throw std::invalid_argument(msg.str());
+    }
 }
 
 
diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index f9ae30c..9258c27 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -20,7 +20,11 @@ AffineMap<MemorySpace>::AffineMap(StridedMatrix<double,MemorySpace> A) : Conditi
                                                                   A_("A", A.extent(0), A.extent(1))
 {
     Kokkos::deep_copy(A_, A);
-    assert(A_.extent(0)<=A_.extent(1));
+    if(A_.extent(0) > A_.extent(1)){
+        std::stringstream msg;
+        msg << "In AffineMap constructor, the number of rows of the matrix (" << A_.extent(0) << ") is greater than the number of columns (" << A_.extent(1) << ").";
+        throw std::invalid_argument(msg.str());
+    }
     Factorize();
 }
 
@@ -33,8 +37,16 @@ AffineMap<MemorySpace>::AffineMap(StridedMatrix<double,MemorySpace> A,
 {
     Kokkos::deep_copy(A_, A);
     Kokkos::deep_copy(b_, b);
-    assert(A_.extent(0)<=A_.extent(1));
-    assert(A_.extent(0) == b_.extent(0));
+    if(A_.extent(0) > A_.extent(1)){
+        std::stringstream msg;
+        msg << "In AffineMap constructor, the number of rows of the matrix (" << A_.extent(0) << ") is greater than the number of columns (" << A_.extent(1) << ").";
+        throw std::invalid_argument(msg.str());
+    }
+    if(A_.extent(0) != b_.extent(0)){
+        std::stringstream msg;
+        msg << "In AffineMap constructor, the number of rows of the matrix (" << A_.extent(0) << ") does not match the length of the vector (" << b_.extent(0) << ").";
+        throw std::invalid_argument(msg.str());
+    }
     Factorize();
 }
 
-- 
2.43.0


From b5c4502de16f098c3ed6f86ca1c89307d6837fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 53/63] fix: triangular and composed maps without components
 raise an exception

---
 src/ComposedMap.cpp   | 15 +++++++++++++--
 src/TriangularMap.cpp | 13 ++++++++++++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/ComposedMap.cpp b/src/ComposedMap.cpp
index 503b100..d1cb9f5 100644
--- a/src/ComposedMap.cpp
+++ b/src/ComposedMap.cpp
@@ -131,10 +131,21 @@ Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> ComposedMap<MemorySpace>
 }
 
 
+namespace {
+// The dimensions of the map are read from its layers, so there has to be at least one
+template<typename MemorySpace>
+std::vector<std::shared_ptr<ConditionalMapBase<MemorySpace>>> const& CheckNotEmpty(std::vector<std::shared_ptr<ConditionalMapBase<MemorySpace>>> const& maps)
+{
+    if(maps.empty())
+        throw std::invalid_argument("In ComposedMap constructor, at least one map is needed.");
+    return maps;
+}
+}
+
 template<typename MemorySpace>
 ComposedMap<MemorySpace>::ComposedMap(std::vector<std::shared_ptr<ConditionalMapBase<MemorySpace>>> const& maps, bool moveCoeffs,
-                                      int maxChecks) : ConditionalMapBase<MemorySpace>(maps.front()->inputDim,
-                                                                                       maps.front()->inputDim,
+                                      int maxChecks) : ConditionalMapBase<MemorySpace>(CheckNotEmpty(maps).front()->inputDim,
+                                                                                       CheckNotEmpty(maps).front()->inputDim,
                                                                                        std::accumulate(maps.begin(), maps.end(), 0, [](size_t sum, std::shared_ptr<ConditionalMapBase<MemorySpace>> const& comp){ return sum + comp->numCoeffs; })),
                                                         maps_(maps),
                                                         maxChecks_((maxChecks<=0) ? maps.size() : maxChecks)
diff --git a/src/TriangularMap.cpp b/src/TriangularMap.cpp
index 5e8c9a5..6b2cd03 100644
--- a/src/TriangularMap.cpp
+++ b/src/TriangularMap.cpp
@@ -6,8 +6,19 @@
 
 using namespace mpart;
 
+namespace {
+// The dimensions of the map are read from its components, so there has to be at least one
 template<typename MemorySpace>
-TriangularMap<MemorySpace>::TriangularMap(std::vector<std::shared_ptr<ConditionalMapBase<MemorySpace>>> const& components, bool moveCoeffs) : ConditionalMapBase<MemorySpace>(components.back()->inputDim,
+std::vector<std::shared_ptr<ConditionalMapBase<MemorySpace>>> const& CheckNotEmpty(std::vector<std::shared_ptr<ConditionalMapBase<MemorySpace>>> const& components)
+{
+    if(components.empty())
+        throw std::invalid_argument("In TriangularMap constructor, at least one component is needed.");
+    return components;
+}
+}
+
+template<typename MemorySpace>
+TriangularMap<MemorySpace>::TriangularMap(std::vector<std::shared_ptr<ConditionalMapBase<MemorySpace>>> const& components, bool moveCoeffs) : ConditionalMapBase<MemorySpace>(CheckNotEmpty(components).back()->inputDim,
                         std::accumulate(components.begin(), components.end(), 0, [](size_t sum, std::shared_ptr<ConditionalMapBase<MemorySpace>> const& comp){ return sum + comp->outputDim; }),
                         std::accumulate(components.begin(), components.end(), 0, [](size_t sum, std::shared_ptr<ConditionalMapBase<MemorySpace>> const& comp){ return sum + comp->numCoeffs; })),
                         comps_(components)
-- 
2.43.0


From 65e298ce9cf37d7b6c90d97e9e5dd3ef49c83e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 54/63] fix: basis bounds in the wrong order raise an exception
 instead of aborting

---
 src/MapFactory.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/MapFactory.cpp b/src/MapFactory.cpp
index 682704d..6880f37 100644
--- a/src/MapFactory.cpp
+++ b/src/MapFactory.cpp
@@ -15,10 +15,24 @@
 using namespace mpart;
 
 
+namespace {
+// The basis is linearized outside [basisLB, basisUB]
+void CheckBasisBounds(MapOptions const& opts, std::string const& functionName)
+{
+    if(!(opts.basisLB < opts.basisUB)){
+        std::stringstream msg;
+        msg << "In " << functionName << ", basisLB must be smaller than basisUB. Got basisLB = " << opts.basisLB << " and basisUB = " << opts.basisUB << ".";
+        throw std::invalid_argument(msg.str());
+    }
+}
+}
+
 template<typename MemorySpace>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> mpart::MapFactory::CreateComponent(FixedMultiIndexSet<MemorySpace> const& mset,
                                                            MapOptions                                   opts)
 {
+    CheckBasisBounds(opts, "CreateComponent");
+
     // The coarse rule of the adaptive Clenshaw-Curtis quadrature needs at least three points
     unsigned int minQuadPts = (opts.quadType == QuadTypes::AdaptiveClenshawCurtis) ? 4 : 1;
     if((opts.quadType != QuadTypes::AdaptiveSimpson)&&(opts.quadPts < minQuadPts)){
@@ -138,6 +152,8 @@ std::shared_ptr<ParameterizedFunctionBase<MemorySpace>> mpart::MapFactory::Creat
                                                                                            FixedMultiIndexSet<MemorySpace> const& mset,
                                                                                            MapOptions                                   opts)
 {
+    CheckBasisBounds(opts, "CreateExpansion");
+
     std::shared_ptr<ParameterizedFunctionBase<MemorySpace>> output;
 
     if(opts.basisType==BasisTypes::ProbabilistHermite){
-- 
2.43.0


From f70be844ef482c3f79e37924ad78e997e6f22828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 55/63] fix: identity maps with more outputs than inputs raise
 an exception

---
 src/IdentityMap.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/IdentityMap.cpp b/src/IdentityMap.cpp
index 15ce5ff..10b25cf 100644
--- a/src/IdentityMap.cpp
+++ b/src/IdentityMap.cpp
@@ -9,7 +9,11 @@ using MemorySpace = Kokkos::HostSpace;
 template<typename MemorySpace>
 IdentityMap<MemorySpace>::IdentityMap(unsigned int inDim, unsigned int outDim) : ConditionalMapBase<MemorySpace>(inDim, outDim, 0)
 {
-
+    if(outDim > inDim){
+        std::stringstream msg;
+        msg << "In IdentityMap constructor, the output dimension (" << outDim << ") is greater than the input dimension (" << inDim << ").";
+        throw std::invalid_argument(msg.str());
+    }
 }
 
 
-- 
2.43.0


From 50ea0439f891c4885afd81cd7d6a8c5644063903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 56/63] fix: Gaussian distributions reject a covariance of the
 wrong shape

---
 MParT/Distributions/GaussianSamplerDensity.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MParT/Distributions/GaussianSamplerDensity.h b/MParT/Distributions/GaussianSamplerDensity.h
index 4c20a70..2b39cf1 100644
--- a/MParT/Distributions/GaussianSamplerDensity.h
+++ b/MParT/Distributions/GaussianSamplerDensity.h
@@ -74,6 +74,9 @@ class GaussianSamplerDensity: public SampleGenerator<MemorySpace>, public Densit
 #endif // KOKKOS_VERSION
 
     void Factorize(StridedMatrix<double, MemorySpace> Cov) {
+        if(Cov.extent(0) != dim_ || Cov.extent(1) != dim_) {
+            throw std::invalid_argument("GaussianSamplerDensity: The covariance must be a square matrix with the dimension of the distribution.");
+        }
         // The factorization needs column-major storage
         Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> covLeft("covar", Cov.extent(0), Cov.extent(1));
         Kokkos::deep_copy(covLeft, Cov);
-- 
2.43.0


From d4c1ce24c6422e9a8c86c8b268f5fbc34a02a8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 57/63] fix: Cholesky factorization of a matrix that is not
 positive definite raises an exception

---
 src/Utilities/LinearAlgebra.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Utilities/LinearAlgebra.cpp b/src/Utilities/LinearAlgebra.cpp
index 7765a2e..a7f7ebf 100644
--- a/src/Utilities/LinearAlgebra.cpp
+++ b/src/Utilities/LinearAlgebra.cpp
@@ -83,6 +83,9 @@ void Cholesky<Kokkos::HostSpace>::compute(Kokkos::View<const double**,Kokkos::La
     auto eigA = ConstKokkosToMat(A);
     // Use eigen to compute the Cholesky decomposition in place
     cholSolver_ = std::make_shared<Eigen::LLT<Eigen::MatrixXd>>(eigA);
+    if(cholSolver_->info()!=Eigen::Success){
+        throw std::runtime_error("In Cholesky<Kokkos::HostSpace>::compute: The matrix is not positive definite.");
+    }
     isComputed = true;
 }
 
-- 
2.43.0


From ecde054da96acb0695bbdc96594d63a95bc320c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 58/63] fix: FixedMultiIndexSet(dim, orders) in Python keeps
 its own copy of the orders

---
 bindings/python/src/MultiIndex.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bindings/python/src/MultiIndex.cpp b/bindings/python/src/MultiIndex.cpp
index d97c961..44f922d 100644
--- a/bindings/python/src/MultiIndex.cpp
+++ b/bindings/python/src/MultiIndex.cpp
@@ -160,7 +160,12 @@ void mpart::binding::MultiIndexWrapper(py::module &m)
         .def(py::init( [](unsigned int dim,
                           Eigen::Matrix<unsigned int, Eigen::Dynamic, 1> &orders)
         {
-            return new FixedMultiIndexSet<Kokkos::HostSpace>(dim, VecToKokkos<unsigned int,Kokkos::HostSpace>(orders));
+            // The set keeps the view it is given, so it needs a copy of this temporary array
+            Kokkos::View<unsigned int*,Kokkos::HostSpace> nzOrders("nzOrders", orders.rows());
+            for(unsigned int i=0; i<orders.rows(); ++i)
+                nzOrders(i) = orders(i);
+
+            return new FixedMultiIndexSet<Kokkos::HostSpace>(dim, nzOrders);
         }))
 
         .def(py::init( [](unsigned int dim,
-- 
2.43.0


From e8d6a99503683d9541fa1852e2ad5639cabb5fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:28 +0000
Subject: [PATCH 59/63] fix: torch wrappers keep the coefficients that a map
 has wrapped alive

---
 bindings/python/package/torch.py         | 10 ++++----
 bindings/python/package/torch_helpers.py | 29 +++++++++++++++++++-----
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/bindings/python/package/torch.py b/bindings/python/package/torch.py
index 6882c61..8070af8 100644
--- a/bindings/python/package/torch.py
+++ b/bindings/python/package/torch.py
@@ -1,5 +1,5 @@
 import torch
-from .torch_helpers import ExtractTorchTensorData, MpartTorchAutograd
+from .torch_helpers import ExtractTorchTensorData, WrapTorchCoeffs, MpartTorchAutograd
         
 
 class TorchParameterizedFunctionBase(torch.nn.Module):
@@ -73,10 +73,8 @@ class TorchConditionalMapBase(torch.nn.Module):
             if self.coeffs is None:
                 raise RuntimeError('Must either set store_coeffs=True in constructor or pass coeffs to inverse function.')
             else:
-                coeffs_dbl = self.coeffs.double()
-        else:
-            coeffs_dbl = coeffs.double()
-        self.f.WrapCoeffs(ExtractTorchTensorData(coeffs_dbl))
+                coeffs = self.coeffs
+        WrapTorchCoeffs(self.f, coeffs)
 
         x_dbl = x.double()
         r_dbl = r.double()
@@ -84,7 +82,7 @@ class TorchConditionalMapBase(torch.nn.Module):
         if (x.shape[1] != self.f.inputDim) & ((x.shape[1]+r.shape[1]) == self.f.inputDim):
             x_dbl = torch.hstack([x_dbl,r_dbl])
 
-        self._check_shapes(x_dbl, r_dbl, coeffs_dbl)
+        self._check_shapes(x_dbl, r_dbl, coeffs)
 
         output = torch.zeros((self.f.outputDim, x_dbl.shape[0]), dtype=torch.double)
         self.f.InverseImpl(ExtractTorchTensorData(x_dbl.T), ExtractTorchTensorData(r_dbl.T), ExtractTorchTensorData(output))
diff --git a/bindings/python/package/torch_helpers.py b/bindings/python/package/torch_helpers.py
index 8fe5cfb..c6cbdf2 100644
--- a/bindings/python/package/torch_helpers.py
+++ b/bindings/python/package/torch_helpers.py
@@ -1,3 +1,4 @@
+import weakref
 import torch
 
 def ExtractTorchTensorData(tensor):
@@ -30,6 +31,26 @@ def ExtractTorchTensorData(tensor):
         raise ValueError(f'Currently only 1d and 2d tensors can be converted.')
 
 
+# Tensors whose memory is currently wrapped by an MParT function
+_wrapped_coeffs = weakref.WeakKeyDictionary()
+
+def WrapTorchCoeffs(f, coeffs):
+    """ Makes the coefficients of an MParT function use the memory of a pytorch tensor.
+        The memory is kept alive for as long as the function uses it.  A copy of the tensor
+        is used if it doesn't hold contiguous float64 values.
+
+        Arguments:
+        ------------
+        f: mpart.ParameterizedFunctionBase
+            The function whose coefficients will be set.
+        coeffs: pytorch.Tensor
+            A 1d tensor containing the coefficients.
+    """
+    coeffs_dbl = coeffs.detach().double().contiguous()
+    f.WrapCoeffs(ExtractTorchTensorData(coeffs_dbl))
+    _wrapped_coeffs[f] = coeffs_dbl
+
+
 class MpartTorchAutograd(torch.autograd.Function):
 
     def __reduce__(self):
@@ -40,10 +61,8 @@ class MpartTorchAutograd(torch.autograd.Function):
         ctx.save_for_backward(input, coeffs)
         ctx.f = f
 
-        coeffs_dbl = None 
         if coeffs is not None:
-            coeffs_dbl = coeffs.double()
-            f.WrapCoeffs(ExtractTorchTensorData(coeffs_dbl))
+            WrapTorchCoeffs(f, coeffs)
         input_dbl = input.double()
 
         output = torch.zeros(f.outputDim, input.shape[1], dtype=torch.double) 
@@ -61,10 +80,8 @@ class MpartTorchAutograd(torch.autograd.Function):
         input, coeffs = ctx.saved_tensors
         f = ctx.f
         
-        coeffs_dbl = None 
         if coeffs is not None:
-            coeffs_dbl = coeffs.double()
-            f.WrapCoeffs(ExtractTorchTensorData(coeffs_dbl))
+            WrapTorchCoeffs(f, coeffs)
         input_dbl = input.double()
         output_sens_dbl = output_sens.double()
 
-- 
2.43.0


From 20ddd862f86086c569df106b0e0e87845dbce6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 60/63] fix: ConditionalMapBase.torch keeps the type of the map

---
 bindings/python/src/ConditionalMapBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/src/ConditionalMapBase.cpp b/bindings/python/src/ConditionalMapBase.cpp
index bf74aa1..e13d4ff 100644
--- a/bindings/python/src/ConditionalMapBase.cpp
+++ b/bindings/python/src/ConditionalMapBase.cpp
@@ -34,7 +34,7 @@ void mpart::binding::ConditionalMapBaseWrapper(py::module &m)
         .def("LogDeterminantInputGradImpl", [](std::shared_ptr<ConditionalMapBase<MemorySpace>> obj, std::tuple<long,std::tuple<int,int>,std::tuple<int,int>> input, std::tuple<long,std::tuple<int,int>,std::tuple<int,int>> output){
             obj->LogDeterminantInputGradImpl(ToKokkos<double,MemorySpace>(input),ToKokkos<double,MemorySpace>(output));
         })
-        .def("torch", [](std::shared_ptr<ParameterizedFunctionBase<Kokkos::HostSpace>> obj, bool store_coeffs, bool return_logdet){
+        .def("torch", [](std::shared_ptr<ConditionalMapBase<MemorySpace>> obj, bool store_coeffs, bool return_logdet){
             auto mpart = py::module::import("mpart");
             if(!mpart.attr("mpart_has_torch").cast<bool>()){
                 throw std::runtime_error("MParT could not import pytorch.");
-- 
2.43.0


From 722950d5c0e2b18d5c2da8659769edbc01917f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:40 +0000
Subject: [PATCH 61/63] fix: the array returned by CoeffMap in Python keeps the
 coefficients alive

---
 bindings/python/src/ParameterizedFunctionBase.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bindings/python/src/ParameterizedFunctionBase.cpp b/bindings/python/src/ParameterizedFunctionBase.cpp
index 3fe63c7..f6aefd1 100644
--- a/bindings/python/src/ParameterizedFunctionBase.cpp
+++ b/bindings/python/src/ParameterizedFunctionBase.cpp
@@ -4,6 +4,7 @@
 
 #include <pybind11/stl.h>
 #include <pybind11/eigen.h>
+#include <pybind11/numpy.h>
 
 #include <Kokkos_Core.hpp>
 #include <pybind11/pybind11.h>
@@ -20,7 +21,14 @@ void mpart::binding::ParameterizedFunctionBaseWrapper<Kokkos::HostSpace>(py::mod
 {
     // ParameterizedFunctionBase
     py::class_<ParameterizedFunctionBase<Kokkos::HostSpace>, std::shared_ptr<ParameterizedFunctionBase<Kokkos::HostSpace>>>(m, "ParameterizedFunctionBase")
-        .def("CoeffMap", &ParameterizedFunctionBase<Kokkos::HostSpace>::CoeffMap)
+        .def("CoeffMap", [](ParameterizedFunctionBase<Kokkos::HostSpace> &obj){
+            auto map = obj.CoeffMap();
+
+            // The array shares the memory of the coefficients and must keep it alive
+            py::capsule owner(new Kokkos::View<double*, Kokkos::HostSpace>(obj.Coeffs()),
+                              [](void *ptr){ delete static_cast<Kokkos::View<double*, Kokkos::HostSpace>*>(ptr); });
+            return py::array_t<double>(map.size(), map.data(), owner);
+        })
         .def("SetCoeffs", py::overload_cast<Eigen::Ref<Eigen::VectorXd>>(&ParameterizedFunctionBase<Kokkos::HostSpace>::SetCoeffs))
         .def("WrapCoeffs", [](std::shared_ptr<ParameterizedFunctionBase<Kokkos::HostSpace>> obj, std::tuple<long,int,int> coeffs){
             obj->WrapCoeffs(ToKokkos<double,Kokkos::HostSpace>(coeffs));
-- 
2.43.0


From 9b324663ccfe15b5457f4641ee6eb43be6336423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:40 +0000
Subject: [PATCH 62/63] fix: FromBytes returns a conditional map in Python when
 the bytes hold one

---
 bindings/python/src/ParameterizedFunctionBase.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bindings/python/src/ParameterizedFunctionBase.cpp b/bindings/python/src/ParameterizedFunctionBase.cpp
index f6aefd1..a745136 100644
--- a/bindings/python/src/ParameterizedFunctionBase.cpp
+++ b/bindings/python/src/ParameterizedFunctionBase.cpp
@@ -1,5 +1,6 @@
 #include "CommonPybindUtilities.h"
 #include "MParT/ParameterizedFunctionBase.h"
+#include "MParT/ConditionalMapBase.h"
 #include "MParT/Utilities/ArrayConversions.h"
 
 #include <pybind11/stl.h>
@@ -67,12 +68,16 @@ void mpart::binding::ParameterizedFunctionBaseWrapper<Kokkos::HostSpace>(py::mod
             ptr->Save(ss);
             return py::bytes(ss.str());
         })
-        .def_static("FromBytes", [](std::string input) {
+        .def_static("FromBytes", [](std::string input) -> py::object {
             std::stringstream ss;
             ss.str(input);
 
             auto ptr = ParameterizedFunctionBase<Kokkos::HostSpace>::Load(ss);
-            return ptr;  
+
+            // Maps whose own type is not known to Python should still be available as conditional maps
+            if(auto map = std::dynamic_pointer_cast<ConditionalMapBase<Kokkos::HostSpace>>(ptr))
+                return py::cast(map);
+            return py::cast(ptr);
         })
         .def(py::pickle(
             [](std::shared_ptr<ParameterizedFunctionBase<Kokkos::HostSpace>> const& ptr) { // __getstate__
-- 
2.43.0


From e894b4ff702f01db94a99e40a40165460fae547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:56 +0000
Subject: [PATCH 63/63] fix: WrapCoeffs in Python throws for memory that is not
 contiguous

---
 bindings/python/src/ParameterizedFunctionBase.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bindings/python/src/ParameterizedFunctionBase.cpp b/bindings/python/src/ParameterizedFunctionBase.cpp
index a745136..36cd934 100644
--- a/bindings/python/src/ParameterizedFunctionBase.cpp
+++ b/bindings/python/src/ParameterizedFunctionBase.cpp
@@ -32,7 +32,11 @@ void mpart::binding::ParameterizedFunctionBaseWrapper<Kokkos::HostSpace>(py::mod
         })
         .def("SetCoeffs", py::overload_cast<Eigen::Ref<Eigen::VectorXd>>(&ParameterizedFunctionBase<Kokkos::HostSpace>::SetCoeffs))
         .def("WrapCoeffs", [](std::shared_ptr<ParameterizedFunctionBase<Kokkos::HostSpace>> obj, std::tuple<long,int,int> coeffs){
-            obj->WrapCoeffs(ToKokkos<double,Kokkos::HostSpace>(coeffs));
+            // The coefficients are stored contiguously, strided memory cannot be wrapped
+            if((std::get<1>(coeffs)>1)&&(std::get<2>(coeffs)!=1))
+                throw std::invalid_argument("Error in WrapCoeffs.  The coefficients must be stored contiguously.");
+            StridedVector<double,Kokkos::HostSpace> view = ToKokkos<double,Kokkos::HostSpace>(coeffs);
+            obj->WrapCoeffs(Kokkos::View<double*,Kokkos::HostSpace>(view.data(), view.extent(0)));
         })
         .def("Evaluate", static_cast<Eigen::RowMatrixXd (ParameterizedFunctionBase<Kokkos::HostSpace>::*)(Eigen::Ref<const Eigen::RowMatrixXd> const&)>(&ParameterizedFunctionBase<Kokkos::HostSpace>::Evaluate))
         .def("EvaluateImpl", [](std::shared_ptr<ParameterizedFunctionBase<Kokkos::HostSpace>> obj, std::tuple<long,std::tuple<int,int>,std::tuple<int,int>> input, std::tuple<long,std::tuple<int,int>,std::tuple<int,int>> output){
-- 
2.43.0

