From c122baa0bcea45f5f4255dcff026635d825ae066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:13 +0000
Subject: [PATCH 01/53] fix: level set of an n-level chain was reported as
 cyclic

build_levelSet_CSC rejected every DAG with as many levels as nodes (and
n == 1) and leaked its two work arrays when it reported a cycle.
---
 src/hdagg/hdagg.cpp        |  5 ++++-
 utils/sparse_inspector.cpp | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index b46dfd8..1cdb4e7 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -40,8 +40,11 @@ namespace HDAGG
             }
             cur_level++; //all nodes_ with zero indegree are processed.
             //assert(cur_level < n);
-            if (cur_level >= n)
+            if (cur_level > n) { // An acyclic graph has at most n levels
+                delete[]inDegree;
+                delete[]visited;
                 return -1; // The input graph has a cycle
+            }
                 levelPtr[cur_level] = cur_levelCol; // The levelPtr starts from level 1. Behrooz
                 while (inDegree[begin] == 1) // Why? Behrooz
                     {
diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 90dc525..a493930 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -34,8 +34,11 @@ namespace sym_lib {
    }
    cur_level++;//all nodes_ with zero indegree are processed.
    //assert(cur_level < n);
-   if (cur_level >= n)
+   if (cur_level > n) { // An acyclic graph has at most n levels
+    delete[]inDegree;
+    delete[]visited;
     return -1; // The input graph has a cycle
+   }
    levelPtr[cur_level] = cur_levelCol;
    while (inDegree[begin] == 1) {
     begin++;
@@ -981,8 +984,11 @@ namespace sym_lib {
      }
      cur_level++; //all nodes_ with zero indegree are processed.
      //assert(cur_level < n);
-     if (cur_level >= n)
+     if (cur_level > n) { // An acyclic graph has at most n levels
+       delete[]inDegree;
+       delete[]visited;
        return -1; // The input graph has a cycle
+     }
      levelPtr[cur_level] = cur_levelCol; // The levelPtr starts from level 1. Behrooz
      while (inDegree[begin] == 1) // Why? Behrooz
      {
-- 
2.43.0


From b38514a81625c81a78a39bcb5001fdcb87f55658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:51 +0000
Subject: [PATCH 02/53] fix: last LBC height partition ended one level past the
 level set

Consumers read levelPtr and levelCost up to that bound, which is outside
both arrays when the DAG has as many levels as nodes.
---
 src/lbc_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index 4b97bb0..30d71a8 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -253,7 +253,7 @@ namespace sym_lib{
    partition2Level[++lClusterCnt] = tmp;
    tmp += divRate;
   }
-  partition2Level[++lClusterCnt] = originalHeight + 1;
+  partition2Level[++lClusterCnt] = originalHeight;
   innerPartsSize.push_back(1);//The last partition has one element TODO is this true??
   delete[]accuSlackGroups;
   return lClusterCnt;
@@ -312,7 +312,7 @@ namespace sym_lib{
     }
    }
    if (f_spart){
-       partition2Level[++lClusterCnt] = originalHeight + 1;
+       partition2Level[++lClusterCnt] = originalHeight;
        innerPartsSize.push_back(1);//The last partition has one element
    }
   } else {
@@ -336,7 +336,7 @@ namespace sym_lib{
     preLevelCut = levelCut;
     levelCut = 0; // starting from the root
    }
-   partition2Level[++lClusterCnt] = originalHeight + 1;
+   partition2Level[++lClusterCnt] = originalHeight;
    innerPartsSize.push_back(1);//The last partition has one element
   }
   delete[]accuSlackGroups;
-- 
2.43.0


From ca3f029357a17e951c2ccc6f46aaa17448ec2549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:15 +0000
Subject: [PATCH 03/53] fix: LBC partition pointer array was one entry short

n vertices can form n partitions, which needs n + 1 pointers.
---
 src/lbc_blocked.cpp | 2 +-
 src/lbc_csc.cpp     | 2 +-
 src/lbc_csc_dag.cpp | 4 ++--
 src/lbc_tree.cpp    | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index 8b009f4..a325f2c 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -44,7 +44,7 @@ namespace sym_lib {
   int clusterCnt = 0;
   int originalHeight = 0;
   finaLevelPtr = new int[n + 1];
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
   int *inDegree = new int[n];
   finaLevelPtr[0] = 0;
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 0213797..9d5a4fd 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -37,7 +37,7 @@ namespace sym_lib {
   std::vector<std::vector<int>> newLeveledParList, mergedLeveledParList;
   int originalHeight = 0;
   finaLevelPtr = new int[n + 1];
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
 
   finaLevelPtr[0] = 0;
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 8361691..6ced3aa 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -334,7 +334,7 @@ int get_coarse_Level_set_DAG_CSC03_parallel(
  int clusterCnt = 0;
  int originalHeight = 0;
  finaLevelPtr = new int[n + 1];
- finalPartPtr = new int[n]();
+ finalPartPtr = new int[n + 1]();
  finalNodePtr = new int[n];
  finaLevelPtr[0] = 0;
 
@@ -419,7 +419,7 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
  int clusterCnt = 0;
  int originalHeight = 0;
  finaLevelPtr = new int[n + 1];
- finalPartPtr = new int[n]();
+ finalPartPtr = new int[n + 1]();
  finalNodePtr = new int[n];
  int *inDegree = new int[n];
  finaLevelPtr[0] = 0;
diff --git a/src/lbc_tree.cpp b/src/lbc_tree.cpp
index fc8552a..41ade6b 100644
--- a/src/lbc_tree.cpp
+++ b/src/lbc_tree.cpp
@@ -18,7 +18,7 @@ namespace sym_lib {
                               int minLevelDist,
                               int divRate,
                               double *nodeCost) {
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
 //  auto *nodeColWidth = new int[n]();
   partNo = 0;
-- 
2.43.0


From 8049e412b17225fc0fd8987564d07c7e645a3e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:01 +0000
Subject: [PATCH 04/53] fix: build_levelSet_BCSC read past its in-degree array
 on the last level

It also leaked its node-to-level array.
---
 utils/sparse_inspector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index a493930..5a4e463 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -163,7 +163,7 @@ namespace sym_lib {
    assert((size_t) cur_levelCol >= 0);
    assert((size_t) cur_level <= blockNo);
    levelPtr[cur_level] = cur_levelCol;
-   while (inDegree[begin] == 1)
+   while (begin <= end && inDegree[begin] == 1)
     begin++;
    while (inDegree[end] == 1 && begin <= end)
     end--;
@@ -180,6 +180,7 @@ namespace sym_lib {
   }
   delete[]inDegree;
   delete[]visited;
+  delete[]node2Level;
   return cur_level;//return number of levels
  }
 
-- 
2.43.0


From bb2073b0416487b9af4d906f23361de9e999153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:01 +0000
Subject: [PATCH 05/53] fix: blocked LBC merged overlapping components into
 wrong labels

The clash list is not ordered, so skipping its first entry left a stale
label behind, and lowering the component count reused labels still in use.
---
 src/lbc_blocked.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index a325f2c..e13e8fb 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -124,16 +124,17 @@ namespace sym_lib {
 
      isCC = needAliased.size() == 0;
      if (!isCC) {//There are some intersection between found CCs.
-      for (int j = 1; j < needAliased.size(); ++j) {//the first is min
+      for (int j = 0; j < needAliased.size(); ++j) {
        int tn = node2partition[needAliased[j]];
-       for (int i = 0; i < n; ++i) {
-        //Replace all needAliased node with their min part number.
-        if (node2partition[i] == tn) {
-         node2partition[i] = minAliasedPar;
+       if (tn != minAliasedPar) {
+        for (int i = 0; i < n; ++i) {
+         //Replace all needAliased node with their min part number.
+         if (node2partition[i] == tn) {
+          node2partition[i] = minAliasedPar;
+         }
         }
        }
       }
-      cc -= (needAliased.size() - 1);//TODO not sure
       needAliased.erase(needAliased.begin(), needAliased.end());
       //Set the nodes in the current cluster
       for (int i = stackStart; i < n; ++i) {
-- 
2.43.0


From 078489b7751c993005b7555ac8fca8998bb0ff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:33 +0000
Subject: [PATCH 06/53] fix: partialSparsification skipped every column without
 OpenMP

A single bin has thread id 0; with 1 the column range was empty and the
clique labels were written past the end.
---
 src/hdagg/hdagg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 1cdb4e7..480c4f2 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2041,7 +2041,7 @@ namespace HDAGG
           int tid = omp_get_thread_num();
 #else
           int bins =1;
-       int tid=1;
+       int tid=0;
 #endif
                 int start_col = (n / bins) * tid;
                 int end_col = (n / bins) * (tid + 1);
-- 
2.43.0


From d3b631e4da70b4230a243020dcd5cd36c8c68923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:52 +0000
Subject: [PATCH 07/53] fix: computePostOrder assumed the diagonal comes first

In a group DAG a group can point to a lower id, so the first entry can be
an edge; skipping it left vertices out of the order. Also stop reading the
back of an empty stack.
---
 src/hdagg/hdagg.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 480c4f2..ed0a8d1 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -222,8 +222,10 @@ namespace HDAGG
         std::vector<int> in_degree(n, 0);
 
         for(int i = 0; i < n; i++){
-            for(int child_ptr = DAG_ptr[i] + 1; child_ptr < DAG_ptr[i + 1]; child_ptr++){
-                in_degree[DAG_set[child_ptr]]++;
+            for(int child_ptr = DAG_ptr[i]; child_ptr < DAG_ptr[i + 1]; child_ptr++){
+                if(DAG_set[child_ptr] != i){ // the diagonal is not always the first entry
+                    in_degree[DAG_set[child_ptr]]++;
+                }
             }
         }
 
@@ -246,7 +248,7 @@ namespace HDAGG
             stack.push_back(leaf);
             while(!stack.empty()){
                 bool all_parent_visited = true;
-                for(int child_ptr = DAG_ptr[head + 1] - 1; child_ptr > DAG_ptr[head] ; child_ptr--){
+                for(int child_ptr = DAG_ptr[head + 1] - 1; child_ptr >= DAG_ptr[head]; child_ptr--){
                     int child = DAG_set[child_ptr];
                     if(!visited[child]){
                         visited[child] = true;
@@ -260,7 +262,9 @@ namespace HDAGG
                     post_order[n - 1 - order_cnt] = stack.back();
                     order_cnt++;
                     stack.pop_back();
-                    head = stack.back();
+                    if(!stack.empty()){
+                        head = stack.back();
+                    }
                 }
             }
         }
-- 
2.43.0


From 342220000995efc0d69fe0482712e58b91229699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:39 +0000
Subject: [PATCH 08/53] fix: HDagg work chunks lost or repeated parts for
 zero-cost and one-core inputs

A core skipped because no cost was left kept its stale chunk boundary, and
with one core the core index ran past the cost array.
---
 src/hdagg/hdagg.cpp | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index ed0a8d1..51f514c 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -719,7 +719,7 @@ namespace HDAGG
                     thread_id = part_cnt;
                 } else {
                     for(int part = 0; part < part_cnt; ){
-                        if(cost[thread_id - 1] < cost_per_core){
+                        if(thread_id == cores || cost[thread_id - 1] < cost_per_core){
                             cost[thread_id - 1] += partition_cost[part++];
                             chunk_array[thread_id] = part;
                             assert(cores != thread_id - 1);//I had a small optimization for last core
@@ -730,13 +730,7 @@ namespace HDAGG
                             cost_per_core = (total_cost - cost_to_this_core) / (cores - thread_id);
                             //Let's do the next thread
                             thread_id++;
-                            if(cost_per_core == 0){
-                                if(part != part_cnt - 1){
-                                    std::cerr << "Not all the parts are assigned" << std::endl;
-                                }
-                                break;
-                            }
-
+                            chunk_array[thread_id] = part;
                             if(thread_id == cores){
                                 chunk_array[cores] = part_cnt;
                                 cost[cores - 1] = total_cost - cost_to_this_core;
@@ -937,7 +931,7 @@ namespace HDAGG
                     thread_id = part_cnt;
                 } else {
                     for(int part = 0; part < part_cnt; ){
-                        if(cost[thread_id - 1] < cost_per_core){
+                        if(thread_id == cores || cost[thread_id - 1] < cost_per_core){
                             cost[thread_id - 1] += partition_cost[part++];
                             chunk_array[thread_id] = part;
                             assert(cores != thread_id - 1);//I had a small optimization for last core
@@ -948,13 +942,7 @@ namespace HDAGG
                             cost_per_core = (total_cost - cost_to_this_core) / (cores - thread_id);
                             //Let's do the next thread
                             thread_id++;
-                            if(cost_per_core == 0){
-                                if(part != part_cnt - 1){
-                                    std::cerr << "Not all the parts are assigned" << std::endl;
-                                }
-                                break;
-                            }
-
+                            chunk_array[thread_id] = part;
                             if(thread_id == cores){
                                 chunk_array[cores] = part_cnt;
                                 cost[cores - 1] = total_cost - cost_to_this_core;
-- 
2.43.0


From e9fe7793fb51420e2f9729e2e083fc8ef25149e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:51 +0000
Subject: [PATCH 09/53] fix: concurrent tree LBC calls raced on two global
 timers

Nothing reads them; the elapsed times are not part of the interface.
---
 src/lbc_csc.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 9d5a4fd..e663f50 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -10,7 +10,6 @@
 #include "aggregation/lbc.h"
 #include "aggregation/sparse_io.h"
 #include "aggregation/lbc_utils.h"
-double elap, elap_trans;
 namespace sym_lib {
  int get_coarse_levelSet_DAG_CSC(size_t n,
                                  int *lC,
@@ -319,11 +318,11 @@ namespace sym_lib {
   if(stype != 1){
    CSC* A_sym = make_symmetric(A, false);
    t1.start_timer();
-   elap_trans = t1.measure_elapsed_time();
+   t1.measure_elapsed_time();
    t2.start_timer();
    ret = compute_etree(A_sym, etree);
    t2.start_timer();
-  elap = t2.measure_elapsed_time();
+   t2.measure_elapsed_time();
    delete A_sym;
   } else{
    ret = compute_etree(A, etree);
-- 
2.43.0


From 4e68c1906234322c726e0433a14ea9e17f501198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:51 +0000
Subject: [PATCH 10/53] fix: grouping read child and row flags outside their
 arrays

A vertex without a child has index -1, and the run of childless columns can
reach the last column. The row flags were also leaked.
---
 src/group.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/group.cpp b/src/group.cpp
index c21f26d..9971fe7 100644
--- a/src/group.cpp
+++ b/src/group.cpp
@@ -88,7 +88,7 @@ namespace sym_lib
 
         int tcurIdx = curIdx+1;
         int len=0;
-        while (child[tcurIdx]==-1 && !visited[tcurIdx] && len<ncol/12)
+        while (tcurIdx<ncol && child[tcurIdx]==-1 && !visited[tcurIdx] && len<ncol/12)
         {
          visited[tcurIdx] = true;
          next[tcurIdx-1]=tcurIdx;
@@ -221,7 +221,7 @@ namespace sym_lib
        visited[curIdx] = true;
        int chIdx = child[curIdx];
 
-       while ((chIdx-curIdx==1 || rCnt[chIdx]) && !visited[chIdx] )
+       while (chIdx!=-1 && (chIdx-curIdx==1 || rCnt[chIdx]) && !visited[chIdx] )
        {
         visited[chIdx]=true;
         pre[chIdx] = curIdx;
@@ -234,6 +234,7 @@ namespace sym_lib
       }
      }
 
+     free(rCnt);
      memset(visited, 0, sizeof(bool)*ncol);
 
      int pos=0; int index=0;
-- 
2.43.0


From 8f40a4a56e228c608dec3ffa6e5fad7e6d196c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:51 +0000
Subject: [PATCH 11/53] fix: build_level_set_tree_efficient wrote past its
 counters for one node

---
 utils/sparse_inspector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 5a4e463..2f0cf22 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -464,7 +464,7 @@ namespace sym_lib {
                                     const int *nChild1,
                                     int *levelPtr, int *levelSet, int *node2level) {
   int maxLen = 0, level = 0, num_levels=0;
-  auto *level_cnt = new int[n]();
+  auto *level_cnt = new int[n + 1]();
   for (int i = 0; i < n; ++i) {
    if (nChild1[i] == 0) {
     levelSet[levelPtr[1]] = i;
-- 
2.43.0


From 6e8b517bd4080f9d06327ad5bed7c829f4e8fc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:57 +0000
Subject: [PATCH 12/53] fix: parallel LBC dropped vertices when partitions ran
 out of order

---
 src/lbc_csc_dag.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 6ced3aa..2ea1c09 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -99,7 +99,6 @@ void process_l_partition(
  bool binPacking, int numThreadsForCC, int &totalCC) {
  memset(inDegree, 0, n * sizeof(int));
 
- int lbLevel = partition2Level[l] - 1;
  int ubLevel = partition2Level[l + 1];
  int dfsLevel = partition2Level[l];
  int curLeveledParCost = 0;
@@ -121,12 +120,6 @@ void process_l_partition(
                       node2partition, outCost, nodeCost, curLeveledParCost,
                       numNodesAtCurLevel, nodesAtCurLevel, numThreadsForCC);
 
- // Reset all marked node in the DAG
- for (int j = levelPtr[lbLevel > 0 ? lbLevel : 0]; j < levelPtr[lbLevel + 1];
-      ++j) {
-  int curNode = levelSet[j];
-  visited[curNode] = true;
- }
  // Marking upper bound
  for (int ii = ubLevel; ii < originalHeight; ++ii) {
   for (int j = levelPtr[ii]; j < levelPtr[ii + 1]; ++j) {
-- 
2.43.0


From c636d7cb3cef3fe5ab781873efbeb8724adb5b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:36 +0000
Subject: [PATCH 13/53] fix: parallel LBC ignored a request for the default
 number of threads

---
 src/lbc_csc_dag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 2ea1c09..0625273 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -190,9 +190,9 @@ int make_partitions_parallel(int n, int *lC, int *lR, int *finaLevelPtr,
                              int numThreads, bool binPacking) {
  if (numThreads == -1) {
 #ifdef ENABLE_OPENMP
-  int tidx = omp_get_thread_num();
+  numThreads = omp_get_max_threads();
 #else
-  int tidx = 1;
+  numThreads = 1;
 #endif
  }
 
-- 
2.43.0


From a15bdd4ff590ff64e5e3c4c4fef89d26ad0badf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:23 +0000
Subject: [PATCH 14/53] fix: a long word or line in a Matrix Market banner
 overran its buffer

---
 utils/external/mmio.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index ace5551..85ed6f1 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -86,6 +86,20 @@ namespace sym_lib {
   return 1;
  }
 
+ /* Reads one line of at most MM_MAX_LINE_LENGTH - 1 characters */
+ static int mm_read_line(FILE *f, char *line) {
+  int c = getc(f), len = 0;
+  if (c == EOF)
+   return MM_PREMATURE_EOF;
+  for (; c != '\n' && c != EOF; c = getc(f)) {
+   if (c == '\0' || len == MM_MAX_LINE_LENGTH - 1)
+    return MM_LINE_TOO_LONG;
+   line[len++] = c;
+  }
+  line[len] = '\0';
+  return 0;
+ }
+
  int mm_read_banner(FILE *f, MM_typecode *matcode) {
   char line[MM_MAX_LINE_LENGTH];
   char banner[MM_MAX_TOKEN_LENGTH];
@@ -98,10 +112,11 @@ namespace sym_lib {
 
   mm_clear_typecode(matcode);
 
-  if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL)
+  if (mm_read_line(f, line) != 0)
    return MM_PREMATURE_EOF;
 
-  if (sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  /* the widths are MM_MAX_TOKEN_LENGTH - 1 */
+  if (sscanf(line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type,
              storage_scheme) != 5)
    return MM_PREMATURE_EOF;
 
-- 
2.43.0


From 8e30db1ec62c384cc91dff17071a5141ad41b7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:23 +0000
Subject: [PATCH 15/53] fix: a damaged Matrix Market size line was misread or
 never left

---
 utils/external/mmio.cpp | 63 ++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 85ed6f1..df93320 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -10,6 +10,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include <ctype.h>
+#include <limits.h>
 
 #include "aggregation/mmio.h"
 namespace sym_lib {
@@ -185,55 +186,65 @@ namespace sym_lib {
    return 0;
  }
 
+ /* Reads the first line that is not a comment; comments may be longer than
+    the buffer. */
+ static int mm_read_size_line(FILE *f, char *line) {
+  int c;
+  while ((c = getc(f)) == '%')
+   while ((c = getc(f)) != '\n' && c != EOF);
+  ungetc(c, f);
+  return mm_read_line(f, line);
+ }
+
+ static int mm_is_blank_line(const char *line) {
+  while (isspace((unsigned char) *line)) line++;
+  return *line == '\0';
+ }
+
  int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz) {
   char line[MM_MAX_LINE_LENGTH];
-  int num_items_read;
+  long m, n, k;
 
   /* set return null parameter values, in case we exit with errors */
   *M = *N = *nz = 0;
 
   /* now continue scanning until you reach the end-of-comments */
-  do {
-   if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL)
-    return MM_PREMATURE_EOF;
-  } while (line[0] == '%');
+  if (mm_read_size_line(f, line) != 0)
+   return MM_PREMATURE_EOF;
 
   /* line[] is either blank or has M,N, nz */
-  if (sscanf(line, "%d %d %d", M, N, nz) == 3)
-   return 0;
-
-  else
-   do {
-    num_items_read = fscanf(f, "%d %d %d", M, N, nz);
-    if (num_items_read == EOF) return MM_PREMATURE_EOF;
-   } while (num_items_read != 3);
+  if (sscanf(line, "%ld %ld %ld", &m, &n, &k) != 3)
+   if (!mm_is_blank_line(line) || fscanf(f, "%ld %ld %ld", &m, &n, &k) != 3)
+    return MM_PREMATURE_EOF;
 
+  if (m < 0 || n < 0 || k < 0 || m > INT_MAX || n > INT_MAX || k > INT_MAX)
+   return MM_UNSUPPORTED_TYPE;
+  *M = m;
+  *N = n;
+  *nz = k;
   return 0;
  }
 
 
  int mm_read_mtx_array_size(FILE *f, int *M, int *N) {
   char line[MM_MAX_LINE_LENGTH];
-  int num_items_read;
+  long m, n;
   /* set return null parameter values, in case we exit with errors */
   *M = *N = 0;
 
   /* now continue scanning until you reach the end-of-comments */
-  do {
-   if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL)
-    return MM_PREMATURE_EOF;
-  } while (line[0] == '%');
+  if (mm_read_size_line(f, line) != 0)
+   return MM_PREMATURE_EOF;
 
   /* line[] is either blank or has M,N, nz */
-  if (sscanf(line, "%d %d", M, N) == 2)
-   return 0;
-
-  else /* we have a blank line */
-   do {
-    num_items_read = fscanf(f, "%d %d", M, N);
-    if (num_items_read == EOF) return MM_PREMATURE_EOF;
-   } while (num_items_read != 2);
+  if (sscanf(line, "%ld %ld", &m, &n) != 2)
+   if (!mm_is_blank_line(line) || fscanf(f, "%ld %ld", &m, &n) != 2)
+    return MM_PREMATURE_EOF;
 
+  if (m < 0 || n < 0 || m > INT_MAX || n > INT_MAX)
+   return MM_UNSUPPORTED_TYPE;
+  *M = m;
+  *N = n;
   return 0;
  }
 
-- 
2.43.0


From 3b0ec63a91e6ecf56288f609ec38a0fd63c4abb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:14 +0000
Subject: [PATCH 16/53] fix: mm_read_unsymmetric_sparse accepted damaged and
 symmetric files

---
 utils/external/mmio.cpp | 46 +++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index df93320..fe640a0 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -30,15 +30,18 @@ namespace sym_lib {
   if (mm_read_banner(f, &matcode) != 0) {
    printf("mm_read_unsymetric: Could not process Matrix Market banner ");
    printf(" in file [%s]\n", fname);
+   fclose(f);
    return -1;
   }
 
 
   if (!(mm_is_real(matcode) && mm_is_matrix(matcode) &&
-        mm_is_sparse(matcode))) {
+        mm_is_sparse(matcode) && mm_is_general(matcode))) {
+   char *str = mm_typecode_to_str(matcode);
    fprintf(stderr, "Sorry, this application does not support ");
-   fprintf(stderr, "Market Market type: [%s]\n",
-           mm_typecode_to_str(matcode));
+   fprintf(stderr, "Market Market type: [%s]\n", str);
+   free(str);
+   fclose(f);
    return -1;
   }
 
@@ -46,34 +49,47 @@ namespace sym_lib {
 
   if (mm_read_mtx_crd_size(f, &M, &N, &nz) != 0) {
    fprintf(stderr, "read_unsymmetric_sparse(): could not parse matrix size.\n");
+   fclose(f);
    return -1;
   }
 
-  *M_ = M;
-  *N_ = N;
-  *nz_ = nz;
-
   /* reseve memory for matrices */
 
   I = (int *) malloc(nz * sizeof(int));
   J = (int *) malloc(nz * sizeof(int));
   val = (double *) malloc(nz * sizeof(double));
 
-  *val_ = val;
-  *I_ = I;
-  *J_ = J;
-
   /* NOTE: when reading in doubles, ANSI C requires the use of the "l"  */
   /*   specifier as in "%lg", "%lf", "%le", otherwise errors will occur */
   /*  (ANSI C X3.159-1989, Sec. 4.9.6.2, p. 136 lines 13-15)            */
 
-  for (i = 0; i < nz; i++) {
-   fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]);
-   I[i]--;  /* adjust from 1-based to 0-based */
-   J[i]--;
+  for (i = 0; i < nz && I && J && val; i++) {
+   long row, col;
+   if (fscanf(f, "%ld %ld %lg\n", &row, &col, &val[i]) != 3 ||
+       row < 1 || row > M || col < 1 || col > N)
+    break;
+   I[i] = row - 1;  /* adjust from 1-based to 0-based */
+   J[i] = col - 1;
+  }
+  /* all entries and nothing else must have been read */
+  fscanf(f, " ");
+  if (i < nz || ferror(f) || !feof(f)) {
+   fprintf(stderr, "read_unsymmetric_sparse(): could not read the entries.\n");
+   fclose(f);
+   free(I);
+   free(J);
+   free(val);
+   return -1;
   }
   fclose(f);
 
+  *M_ = M;
+  *N_ = N;
+  *nz_ = nz;
+  *val_ = val;
+  *I_ = I;
+  *J_ = J;
+
   return 0;
  }
 
-- 
2.43.0


From d430027b1708e3be80251c2d27339f0886a90b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:14 +0000
Subject: [PATCH 17/53] fix: Matrix Market writers reported success as failure
 and failure as success

---
 utils/external/mmio.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index fe640a0..7a9d83e 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -196,7 +196,7 @@ namespace sym_lib {
  }
 
  int mm_write_mtx_crd_size(FILE *f, int M, int N, int nz) {
-  if (fprintf(f, "%d %d %d\n", M, N, nz) != 3)
+  if (fprintf(f, "%d %d %d\n", M, N, nz) < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
@@ -265,7 +265,7 @@ namespace sym_lib {
  }
 
  int mm_write_mtx_array_size(FILE *f, int M, int N) {
-  if (fprintf(f, "%d %d\n", M, N) != 2)
+  if (fprintf(f, "%d %d\n", M, N) < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
@@ -386,7 +386,7 @@ namespace sym_lib {
 
   ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
   free(str);
-  if (ret_code != 2)
+  if (ret_code < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
@@ -403,8 +403,7 @@ namespace sym_lib {
    return MM_COULD_NOT_WRITE_FILE;
 
   /* print banner followed by typecode */
-  fprintf(f, "%s ", MatrixMarketBanner);
-  fprintf(f, "%s\n", mm_typecode_to_str(matcode));
+  mm_write_banner(f, matcode);
 
   /* print matrix sizes and nonzeros */
   fprintf(f, "%d %d %d\n", M, N, nz);
@@ -425,9 +424,10 @@ namespace sym_lib {
    return MM_UNSUPPORTED_TYPE;
   }
 
-  if (f != stdout) fclose(f);
+  int failed = ferror(f) || fflush(f) != 0;
+  if (f != stdout && fclose(f) != 0) failed = 1;
 
-  return 0;
+  return failed ? MM_COULD_NOT_WRITE_FILE : 0;
  }
 
 
-- 
2.43.0


From a38c4a5c593b4a6c3d78302c8a2a4958fd520aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:14 +0000
Subject: [PATCH 18/53] fix: read_mtx accepted damaged files and misplaced
 columns

---
 utils/sparse_io.cpp | 66 +++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 26 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 1a2dcf9..5c2c39e 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -1,6 +1,7 @@
 //
 // Created by Kazem on 10/10/19.
 //
+#include <algorithm>
 #include <iostream>
 #include <sstream>
 #include <vector>
@@ -24,43 +25,56 @@ namespace sym_lib {
    return nullptr;
   }
 
+  if (!mm_is_coordinate(mcode) || !(mm_is_real(mcode) || mm_is_integer(mcode)) ||
+      !(mm_is_general(mcode) || mm_is_symmetric(mcode))) {
+   std::cerr << "Unsupported matrix type\n";
+   fclose(mf);
+   return nullptr;
+  }
+
   int m, n, nnz;
   if (mm_read_mtx_crd_size(mf, &m, &n, &nnz) != 0) exit(1);
-  CSC *A = new CSC(m, n, nnz);
-  int *J = new int[nnz]();
-
-  A->stype = mm_is_symmetric(mcode) ? -1 : 0;
 
   // Copy matrix data into COO format
+  std::vector<int> I, J;
+  std::vector<double> X;
   for (int i = 0; i < nnz; i++) {
-   if (fscanf(mf, "%d %d %lg\n", (A->i) + i, &J[i], (A->x) + i) == EOF) {
+   long row, col;
+   double val;
+   if (fscanf(mf, "%ld %ld %lg\n", &row, &col, &val) != 3 ||
+       row < 1 || row > m || col < 1 || col > n) {
     std::cerr << "Failed to load matrix at " << i + 1 << "th element\n";
     fclose(mf);
-    delete (A);
     return nullptr;
    }
-   (A->i)[i]--;
-   J[i]--;
-  }
-  int i = 0, j;
-  int index = 0, cur;
-  for (; i < nnz; i++) {
-   A->p[index] = i;
-   cur = J[i];
-   for (j = i + 1; j < nnz; j++) {
-    if (J[j] != cur)
-     break;
-    else
-     i++;
-   }
-   index += 1;
+   I.push_back(row - 1);
+   J.push_back(col - 1);
+   X.push_back(val);
+  }
+  // Nothing else may follow the entries
+  fscanf(mf, " ");
+  bool complete = feof(mf) && !ferror(mf);
+  fclose(mf);
+  if (!complete) {
+   std::cerr << "Failed to load matrix, data follow the last element\n";
+   return nullptr;
   }
-  A->p[n] = nnz;
-  delete[]J;
 
-  A->m = m;
-  A->n = n;
-  A->nnz = nnz;
+  // Compress the columns, entries of a column stay in the order of the file
+  CSC *A = new CSC(m, n, nnz);
+  A->stype = mm_is_symmetric(mcode) ? -1 : 0;
+  std::vector<int> next(n + 1, 0);
+  for (int i = 0; i < nnz; i++)
+   next[J[i] + 1]++;
+  for (int j = 0; j < n; j++)
+   next[j + 1] += next[j];
+  if (n > 0)
+   std::copy(next.begin(), next.end(), A->p);
+  for (int i = 0; i < nnz; i++) {
+   int pos = next[J[i]]++;
+   A->i[pos] = I[i];
+   A->x[pos] = X[i];
+  }
   return A;
  }
 
-- 
2.43.0


From d8cfe9f924ac97586d371477f83852fc2a058350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:47 +0000
Subject: [PATCH 19/53] fix: read_header never left a file that ends in its
 comments

---
 utils/sparse_io.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 5c2c39e..63e542d 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -2,6 +2,7 @@
 // Created by Kazem on 10/10/19.
 //
 #include <algorithm>
+#include <climits>
 #include <iostream>
 #include <sstream>
 #include <vector>
@@ -333,7 +334,8 @@ namespace sym_lib {
   }
   while (!line.compare(0,1,"%"))
   {
-   std::getline(inFile, line);
+   if (!std::getline(inFile, line))
+    throw mtx_header_error("Unknown", "The matrix dimension is missing");
    trim(line);
   }
   std::istringstream issDim(line);
@@ -345,8 +347,10 @@ namespace sym_lib {
    if (!(issDim >> n_row >> n_col)){
     throw mtx_header_error("Unknown", "The matrix dimension is missing");
    }
-   n_nnz = n_row*n_col;
+   n_nnz = (size_t)n_row*n_col;
   }
+  if (n_row < 0 || n_col < 0 || n_nnz > INT_MAX)
+   throw mtx_header_error("Unknown", "The matrix dimension is out of range");
  }
 
 
-- 
2.43.0


From 6c9538d1adaa759569660010e634a19c945a0815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:47 +0000
Subject: [PATCH 20/53] fix: the stream readers accepted files with missing or
 misplaced entries

---
 utils/sparse_io.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 63e542d..53f3218 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -385,6 +385,8 @@ namespace sym_lib {
       inFile >> tmp.val;
     else
       tmp.val = 1.0;
+   if(!inFile)
+    throw mtx_error("Unknown", "A matrix entry is missing");
    if(!zero_indexing){
     tmp.col--; tmp.row--;
    }
@@ -433,8 +435,11 @@ namespace sym_lib {
   bool read_val = true;
   if(arith == PATTERN)
     read_val = false;
-  A = new CSC(m,n,nnz,false, shape2int(shape));
   read_triplets_real(in_file, nnz, triplet_vec, read_val);
+  for (const auto &t : triplet_vec)
+   if (t.row < 0 || t.row >= m || t.col < 0 || t.col >= n)
+    throw mtx_error("Unknown", "A matrix entry is outside the matrix");
+  A = new CSC(m,n,nnz,false, shape2int(shape));
   compress_triplets_to_csc(triplet_vec, A, insert_diag);
   A->nnz = A->p[n]; // if insert diag is true, it will be different.
   //print_csc(A->n, A->p, A->i, A->x);
@@ -452,7 +457,11 @@ namespace sym_lib {
    throw mtx_format_error("ARRAY", format_str(mtx_format));
   A = new Dense(m, n, 1);//
   for (int i = 0; i < m * n; i++) {//writing from file row by row
-   in_file >> A->a[i];
+   if (!(in_file >> A->a[i])) {
+    delete A;
+    A = nullptr;
+    throw mtx_error("Unknown", "A matrix entry is missing");
+   }
   }
   std::ofstream file;
   //print_dense(A->row, A->col, A->lda, A->a);
-- 
2.43.0


From 7a10efa3da4b2a00f2791284843a92e5aeaaf5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:05 +0000
Subject: [PATCH 21/53] fix: inserted diagonals pushed entries out of the
 matrix

---
 utils/sparse_io.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 53f3218..a8dc7e4 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -439,9 +439,20 @@ namespace sym_lib {
   for (const auto &t : triplet_vec)
    if (t.row < 0 || t.row >= m || t.col < 0 || t.col >= n)
     throw mtx_error("Unknown", "A matrix entry is outside the matrix");
+  if (insert_diag) { // insert zero diag for empty cols
+   std::vector<bool> empty(n, true);
+   for (const auto &t : triplet_vec)
+    empty[t.col] = false;
+   for (int j = 0; j < n && j < m; ++j)
+    if (empty[j]) {
+     triplet tmp; tmp.col = tmp.row = j; tmp.val=0;
+     triplet_vec.push_back(tmp);
+    }
+   nnz = triplet_vec.size(); // room for the inserted ones
+  }
   A = new CSC(m,n,nnz,false, shape2int(shape));
-  compress_triplets_to_csc(triplet_vec, A, insert_diag);
-  A->nnz = A->p[n]; // if insert diag is true, it will be different.
+  if (n > 0)
+   compress_triplets_to_csc(triplet_vec, A, false);
   //print_csc(A->n, A->p, A->i, A->x);
  }
 
-- 
2.43.0


From 9663b5cf5332d4fe0979d185994d8ea44414a32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:05 +0000
Subject: [PATCH 22/53] fix: CSC_to_mtx and BCSC_to_mtx ignored files they
 could not write

---
 utils/sparse_io.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index a8dc7e4..b393ede 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -81,6 +81,7 @@ namespace sym_lib {
 
  void CSC_to_mtx(std::string fname, CSC *A) {
   FILE *fp = fopen(fname.c_str(), "w");
+  if (!fp) throw write_file_error(fname);
 
   MM_typecode matcode;
   mm_initialize_typecode(&matcode);
@@ -94,11 +95,13 @@ namespace sym_lib {
   for (int i = 0; i < A->n; i++)
    for (int j = A->p[i]; j < A->p[i + 1]; j++)
     fprintf(fp, "%d %d %10.3g\n", A->i[j] + 1, i + 1, A->x[j]);
-  fclose(fp);
+  bool failed = ferror(fp);
+  if (fclose(fp) != 0 || failed) throw write_file_error(fname);
  }
 
  void BCSC_to_mtx(std::string fname, BCSC *A) {
   FILE *f = fopen(fname.c_str(), "w");
+  if (!f) throw write_file_error(fname);
 
   MM_typecode matcode;
   mm_initialize_typecode(&matcode);
@@ -122,7 +125,8 @@ namespace sym_lib {
     }
    }
   }
-  fclose(f);
+  bool failed = ferror(f);
+  if (fclose(f) != 0 || failed) throw write_file_error(fname);
  }
 
   CSC * convert_to_one_based(const CSC *A){
-- 
2.43.0


From 4c5013123190e88a2b8f0acf2e0e552bc0f165e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 23/53] hook: SYM_SIM_HOOKS lets a simulation lower the
 large-partition limit

---
 src/lbc_csc_dag.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 0625273..e6beeec 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -11,6 +11,11 @@
 #include "aggregation/sparse_inspector.h"
 #include "aggregation/sparse_utilities.h"
 
+#ifdef SYM_SIM_HOOKS
+// Simulation only: the size above which a partition counts as large.
+extern "C" int sym_sim_large_partition;
+#endif
+
 namespace sym_lib {
 
  void lbc_config(int n, int nnz, int num_threads, int &lp, int &cp, int &ic,
@@ -211,7 +216,11 @@ int make_partitions_parallel(int n, int *lC, int *lR, int *finaLevelPtr,
    }
   }
 
+#ifdef SYM_SIM_HOOKS
+  if (nodesAtLevel > sym_sim_large_partition) {
+#else
   if (nodesAtLevel > 250000) {
+#endif
    largePartitions.push_back(l);
   } else {
    smallPartitions.push_back(l);
-- 
2.43.0


From ac41c85303a5306b9a4f78ac490b44106109f518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 24/53] fix: csr_to_csc of a rectangular matrix swapped the
 dimensions

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 002a33d..0de2da2 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -109,7 +109,7 @@ namespace sym_lib {
      CSC *B = new CSC(A->m,A->n,A->nnz,NULLPNTR,NULLPNTR,A->stype);
      B->pre_alloc = false;
      B->is_pattern = false;
-     int st = csc_to_csr(A->m, A->n, A->p, A->i, A->x, B->p, B->i, B->x);
+     csr_to_csc(A->m, A->n, A->i, A->p, A->x, B->p, B->i, B->x);
      B->nnz = B->p[B->n];
      return B;
     }
-- 
2.43.0


From 9ce5a5b4eb5dd1cbb9ad6fe2cc1c33a0643e393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 25/53] fix: copy_from_to never copied the pointers

---
 utils/sparse_utilities.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 0de2da2..60ab74c 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -518,22 +518,24 @@ namespace sym_lib {
 
     void copy_from_to(CSR *src, CSR *dst){
      for (int i = 0; i < src->m; ++i) {
-      dst->p[i] = dst->p[i];
+      dst->p[i] = src->p[i];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
        dst->x[j] = src->x[j];
       }
      }
+     dst->p[src->m] = src->p[src->m];
     }
 
     void copy_from_to(CSC *src, CSC *dst){
      for (int i = 0; i < src->n; ++i) {
-      dst->p[i] = dst->p[i];
+      dst->p[i] = src->p[i];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
        dst->x[j] = src->x[j];
       }
      }
+     dst->p[src->n] = src->p[src->n];
     }
 
     void copy_vector_dense(size_t beg, size_t end, const double *src, double *dst) {
-- 
2.43.0


From 595dff4c5e7c3e74e0528a867839618136c727ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 26/53] fix: compressed_BCSC_to_CSC wrote past the matrix it
 made

---
 utils/BCSCMatrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/BCSCMatrix.cpp b/utils/BCSCMatrix.cpp
index ed835ee..6296ee7 100644
--- a/utils/BCSCMatrix.cpp
+++ b/utils/BCSCMatrix.cpp
@@ -252,6 +252,7 @@ namespace sym_lib {
    count = 0;
   }
 
+  nnz += nodes; // the entry that links each block to its copy
   CSC *Acsc = new CSC(nodes, nodes, nnz);
   auto Ap = Acsc->p;
   auto Ai = Acsc->i;
-- 
2.43.0


From cf3f38dbd6210c4afb2576e5e3431c5079f83e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 27/53] fix: timers followed the settable clock and measured
 from the first start

---
 include/aggregation/def.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/aggregation/def.h b/include/aggregation/def.h
index 96d2188..91eeb83 100644
--- a/include/aggregation/def.h
+++ b/include/aggregation/def.h
@@ -38,23 +38,24 @@ namespace sym_lib {
 ///
  struct timing_measurement {
   double elapsed_time;
-  std::chrono::time_point<std::chrono::system_clock> start_time, end_time;
+  // not the system clock: that one may be set while a kernel runs
+  std::chrono::time_point<std::chrono::steady_clock> start_time, end_time;
   std::chrono::duration<double> elapsed_seconds;
-  std::vector<std::chrono::time_point<std::chrono::system_clock> > t_array;
+  std::vector<std::chrono::time_point<std::chrono::steady_clock> > t_array;
 
   timing_measurement() : elapsed_time(0) {}
 
   ~timing_measurement() = default;
 
   void start_timer() {
-   start_time = std::chrono::system_clock::now();
+   start_time = std::chrono::steady_clock::now();
    t_array.push_back(start_time);
   }
 
   double measure_elapsed_time() {
    assert(t_array.size() > 0);
-   end_time = std::chrono::system_clock::now();
-   elapsed_seconds = end_time - t_array[0];
+   end_time = std::chrono::steady_clock::now();
+   elapsed_seconds = end_time - start_time;
    elapsed_time = elapsed_seconds.count();
    t_array.push_back(end_time);
    return elapsed_time;
-- 
2.43.0


From 6aa90dab8254033fcc71a73a39f86340fbf17243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 28/53] fix: a result table reopened after an interruption lost
 its header or glued rows

---
 include/aggregation/csv_utils.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/aggregation/csv_utils.h b/include/aggregation/csv_utils.h
index 5ab8918..bf03a0d 100644
--- a/include/aggregation/csv_utils.h
+++ b/include/aggregation/csv_utils.h
@@ -40,7 +40,17 @@ public:
         // Create the CSV file or open the existing file
         std::ifstream file(this->output_name,
             std::ios_base::out | std::ios_base::in);
-        if (!file || force_creation) {
+        // A run that was interrupted may have left no header, or half a row
+        bool is_empty = true, is_torn = false;
+        if (file && file.seekg(-1, std::ios_base::end)) {
+            is_empty = false;
+            is_torn = file.get() != '\n';
+        }
+        else {
+            file.clear(file.is_open() ? std::ios_base::goodbit
+                                      : std::ios_base::failbit);
+        }
+        if (!file || is_empty || force_creation) {
             std::cout << "Create a new data file " << this->output_name << std::endl;
             // If it doesn't exist or it is forced to create the new file create the
             // file and add header
@@ -67,6 +77,8 @@ public:
                 std::cout << "Cannot create the file" << std::endl;
             }
             dataset_file.open(this->output_name, std::ios::binary | std::ios::app);
+            if (is_torn)
+                dataset_file << "\n";
         }
     }
 
-- 
2.43.0


From a22788aee5286cbabb953e359a8d927909cc96e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:59 +0000
Subject: [PATCH 29/53] fix: METIS was given graphs with one-way edges to
 vertex 0

---
 utils/metis_interface.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 3982474..4097859 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -48,21 +48,21 @@ namespace sym_lib {
   }
 
   perm = new int[A->n]();
-  int nnzFull = 2 * A->nnz - A->n;
   auto Afullp = new idx_t[A->n + 1]();
-  auto Afulli = new idx_t[nnzFull]();
   auto ind = new int[A->n]();
   for (size_t i = 0; i < A->n; i++) {
    for (size_t p = A->p[i]; p < A->p[i + 1]; p++) {
     int row = A->i[p];
-    ind[i]++;
-    if (row != i)
+    if (row != i) { // the diagonal is not an edge
+     ind[i]++;
      ind[row]++;
+    }
    }
   }
   Afullp[0] = 0;
   for (size_t i = 0; i < A->n; i++)
    Afullp[i + 1] = Afullp[i] + ind[i];
+  auto Afulli = new idx_t[Afullp[A->n]]();
 
   for (size_t i = 0; i < A->n; i++)
    ind[i] = 0;
@@ -173,21 +173,21 @@ namespace sym_lib {
   part = new int[A->n]();
 
   int n = A->n;
-  int nnzFull = 2 * A->nnz - A->n;
   auto Afullp = new idx_t[n + 1]();
-  auto Afulli = new idx_t[nnzFull]();
   auto ind = new int[n]();
   for (size_t i = 0; i < n; i++) {
    for (size_t p = A->p[i]; p < A->p[i + 1]; p++) {
     int row = A->i[p];
-    ind[i]++;
-    if (row != i)
+    if (row != i) { // the diagonal is not an edge
+     ind[i]++;
      ind[row]++;
+    }
    }
   }
   Afullp[0] = 0;
   for (size_t i = 0; i < n; i++)
    Afullp[i + 1] = Afullp[i] + ind[i];
+  auto Afulli = new idx_t[Afullp[n]]();
 
   for (size_t i = 0; i < n; i++)
    ind[i] = 0;
-- 
2.43.0


From 54d662eed057acf748d5287e5cc4da7ea4a83bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:59 +0000
Subject: [PATCH 30/53] fix: metis_partition_coarsened assigned the wrong
 columns and wrote past the end

---
 utils/metis_interface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 4097859..13f9eba 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -332,8 +332,8 @@ namespace sym_lib {
   part = new int[A->n]();
   for (int i = 0; i < tmp->n; ++i) {
    int i2p = part_cors[i];
-   int bnd = i+coarsen; // std::max<int>(i + coarsen, A->n);
-   for (int j = i; j < bnd; ++j) {
+   int bnd = std::min<int>((i + 1) * coarsen, A->n);
+   for (int j = i * coarsen; j < bnd; ++j) {
     part[j] = i2p;
    }
   }
-- 
2.43.0


From 477c546baa4596199797661cd407d0576bcbb9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:59 +0000
Subject: [PATCH 31/53] fix: METIS interface leaked an array and used delete on
 arrays

---
 utils/lfactor_creation.cpp | 2 +-
 utils/metis_interface.cpp  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/lfactor_creation.cpp b/utils/lfactor_creation.cpp
index 588200a..f674077 100644
--- a/utils/lfactor_creation.cpp
+++ b/utils/lfactor_creation.cpp
@@ -395,7 +395,7 @@ namespace sym_lib{
   At_ord = transpose_symmetric(A, perm_metis);
   A_ord = transpose_symmetric(At_ord, NULLPNTR);
   std::copy(perm_metis,perm_metis+n, perm);
-  delete perm_metis;
+  delete []perm_metis;
   delete A_full;
 #else
   for(int i=0; i<n; i++) perm[i] = i; // no permutation
diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 13f9eba..e9827d8 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -230,6 +230,7 @@ namespace sym_lib {
    part[i] = partIDX[i];
   delete[]Afullp;
   delete[]Afulli;
+  delete[]ind;
   delete[]weigt;
   delete[]partIDX;
 
@@ -339,7 +340,7 @@ namespace sym_lib {
   }
   //t.measure_elapsed_time();
   //t.print_t_array();
-  delete part_cors;
+  delete []part_cors;
   delete tmp;
   return 0;
  }
-- 
2.43.0


From bf18b2a61b9b15868d001cb1fe536fce87a87f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:59 +0000
Subject: [PATCH 32/53] fix: METIS interface lost the status and returned no
 ordering when METIS failed

---
 utils/metis_interface.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index e9827d8..70ff3d2 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -92,8 +92,8 @@ namespace sym_lib {
   auto permIDX = new idx_t[ncol];
   auto IpermIDX = new idx_t[ncol];
   for (int i = 0; i < ncol; ++i) {
-   permIDX[i] = 0;
-   IpermIDX[i] = 0;
+   permIDX[i] = i;
+   IpermIDX[i] = i;
    weigt[i] = 1;
   }
 
@@ -149,8 +149,8 @@ namespace sym_lib {
   auto permIDX = new idx_t[ncol];
   auto IpermIDX = new idx_t[ncol];
   for (int i = 0; i < ncol; ++i) {
-   permIDX[i] = 0;
-   IpermIDX[i] = 0;
+   permIDX[i] = i;
+   IpermIDX[i] = i;
    weigt[i] = 1;
   }
 
@@ -234,7 +234,7 @@ namespace sym_lib {
   delete[]weigt;
   delete[]partIDX;
 
-  return 0;
+  return retMet;
  }
 
 
@@ -315,19 +315,19 @@ namespace sym_lib {
   delete[]partIDX;
   //delete []unit_wgt;
 
-  return 0;
+  return retMet;
  }
 
  int metis_partition_coarsened(CSC *A, int *&part, int k, int coarsen){
 //  timing_measurement t; t.reset();
 //  t.start_timer();
   CSC *tmp = coarsen_k_times(A->n, A->nnz, A->p, A->i, A->stype, coarsen);
-  int *part_cors;
+  int *part_cors, ret;
  // t.start_timer();
   if(A->stype < 0){
-   metis_partition_symmetric(tmp, part_cors, k);
+   ret = metis_partition_symmetric(tmp, part_cors, k);
   } else{
-   metis_partition_general(tmp, part_cors, k);
+   ret = metis_partition_general(tmp, part_cors, k);
   }
   //t.start_timer();
   part = new int[A->n]();
@@ -342,7 +342,7 @@ namespace sym_lib {
   //t.print_t_array();
   delete []part_cors;
   delete tmp;
-  return 0;
+  return ret;
  }
 
 
-- 
2.43.0


From 703c005e39a7598ba590215975dd929f5c64715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:57 +0000
Subject: [PATCH 33/53] fix: is_equal took NaN for equal

---
 include/aggregation/test_utils.h | 2 ++
 utils/test_utils.cpp             | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/aggregation/test_utils.h b/include/aggregation/test_utils.h
index 0c2ad31..d2b43d2 100644
--- a/include/aggregation/test_utils.h
+++ b/include/aggregation/test_utils.h
@@ -47,6 +47,8 @@ namespace sym_lib{
  template<class type>
  bool is_equal(int n, const type* vec, type val, double eps=1e-8){
   for (int i = 0; i < n; ++i) {
+   if(std::isnan(vec[i]) || std::isnan(val))
+    return false;
    if(std::abs(vec[i] - val) > eps)
     return false;
   }
diff --git a/utils/test_utils.cpp b/utils/test_utils.cpp
index 68f3d49..22d3702 100644
--- a/utils/test_utils.cpp
+++ b/utils/test_utils.cpp
@@ -83,6 +83,8 @@ namespace sym_lib{
     return false;
   }
   for (int i = 0; i < A->nnz; ++i) {
+   if(std::isnan(A->x[i]) || std::isnan(B->x[i]))
+    return false;
    if(std::abs(A->x[i] -B->x[i]) > eps)
     return false;
   }
-- 
2.43.0


From 1c37855e0576e48220c38dd82df0bc32f5b503a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:26 +0000
Subject: [PATCH 34/53] fix: mult_size_t returned a wrapped product

---
 utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/utils.cpp b/utils/utils.cpp
index 427cb57..dfb87df 100644
--- a/utils/utils.cpp
+++ b/utils/utils.cpp
@@ -38,7 +38,7 @@ namespace sym_lib{
     (*ok) = (*ok) && (p >= a);
    }
    k = k / 2;
-   if (!k) return (p);
+   if (!k) return ((*ok) ? p : 0);
    s = a + a;
    (*ok) = (*ok) && (s >= a);
    a = s;
-- 
2.43.0


From 9c4b38d6b17619522d8f0ae8f0d1cf02c5903158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 35/53] Revert "fix: is_equal took NaN for equal"

This reverts commit 703c005e39a7598ba590215975dd929f5c64715d.
---
 include/aggregation/test_utils.h | 2 --
 utils/test_utils.cpp             | 2 --
 2 files changed, 4 deletions(-)

diff --git a/include/aggregation/test_utils.h b/include/aggregation/test_utils.h
index d2b43d2..0c2ad31 100644
--- a/include/aggregation/test_utils.h
+++ b/include/aggregation/test_utils.h
@@ -47,8 +47,6 @@ namespace sym_lib{
  template<class type>
  bool is_equal(int n, const type* vec, type val, double eps=1e-8){
   for (int i = 0; i < n; ++i) {
-   if(std::isnan(vec[i]) || std::isnan(val))
-    return false;
    if(std::abs(vec[i] - val) > eps)
     return false;
   }
diff --git a/utils/test_utils.cpp b/utils/test_utils.cpp
index 22d3702..68f3d49 100644
--- a/utils/test_utils.cpp
+++ b/utils/test_utils.cpp
@@ -83,8 +83,6 @@ namespace sym_lib{
     return false;
   }
   for (int i = 0; i < A->nnz; ++i) {
-   if(std::isnan(A->x[i]) || std::isnan(B->x[i]))
-    return false;
    if(std::abs(A->x[i] -B->x[i]) > eps)
     return false;
   }
-- 
2.43.0


From 54365b0da016d1d904fe62e0c7e0c4b99aaf060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:08 +0000
Subject: [PATCH 36/53] fix: Matrix Market pieces took what a failed read left
 of a line or value for the whole

---
 utils/external/mmio.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 7a9d83e..55ec36b 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -114,7 +114,8 @@ namespace sym_lib {
    line[len++] = c;
   }
   line[len] = '\0';
-  return 0;
+  /* what a failed read left of a line is not the line */
+  return ferror(f) ? MM_PREMATURE_EOF : 0;
  }
 
  int mm_read_banner(FILE *f, MM_typecode *matcode) {
@@ -230,7 +231,8 @@ namespace sym_lib {
 
   /* line[] is either blank or has M,N, nz */
   if (sscanf(line, "%ld %ld %ld", &m, &n, &k) != 3)
-   if (!mm_is_blank_line(line) || fscanf(f, "%ld %ld %ld", &m, &n, &k) != 3)
+   if (!mm_is_blank_line(line) || fscanf(f, "%ld %ld %ld", &m, &n, &k) != 3 ||
+       ferror(f))
     return MM_PREMATURE_EOF;
 
   if (m < 0 || n < 0 || k < 0 || m > INT_MAX || n > INT_MAX || k > INT_MAX)
@@ -254,7 +256,8 @@ namespace sym_lib {
 
   /* line[] is either blank or has M,N, nz */
   if (sscanf(line, "%ld %ld", &m, &n) != 2)
-   if (!mm_is_blank_line(line) || fscanf(f, "%ld %ld", &m, &n) != 2)
+   if (!mm_is_blank_line(line) || fscanf(f, "%ld %ld", &m, &n) != 2 ||
+       ferror(f))
     return MM_PREMATURE_EOF;
 
   if (m < 0 || n < 0 || m > INT_MAX || n > INT_MAX)
@@ -302,7 +305,7 @@ namespace sym_lib {
   } else
    return MM_UNSUPPORTED_TYPE;
 
-  return 0;
+  return ferror(f) ? MM_PREMATURE_EOF : 0;
 
  }
 
@@ -322,7 +325,7 @@ namespace sym_lib {
   } else
    return MM_UNSUPPORTED_TYPE;
 
-  return 0;
+  return ferror(f) ? MM_PREMATURE_EOF : 0;
 
  }
 
-- 
2.43.0


From 5e448adbfe8482d95f34aebe8d303bcc22543290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:43 +0000
Subject: [PATCH 37/53] fix: lbc_blocked kept one array per partition level

---
 src/lbc_blocked.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index e13e8fb..e103384 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -257,6 +257,7 @@ namespace sym_lib {
     newLeveledParList[i].erase(newLeveledParList[i].begin(), newLeveledParList[i].end());
    }
    newLeveledParList.erase(newLeveledParList.begin(), newLeveledParList.end());
+   delete[] isUniq;
 
   }
 
-- 
2.43.0


From ba530d33bdef5c9278d12e88e4822f9dbfd91d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:43 +0000
Subject: [PATCH 38/53] fix: bcsc_csc_bcsc_levelset kept its supernode map

---
 utils/sparse_inspector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 2f0cf22..3c602ef 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -727,6 +727,7 @@ namespace sym_lib {
   delete[]visited;
   delete[]degrees;
   delete[]inqueue;
+  delete[]supers;
 
   levelptr = new int[cur_level + 1];
   std::memcpy(levelptr, levelptr_, sizeof(int) * (cur_level + 1));
-- 
2.43.0


From 466663abc67dd9e13afffba2413368e7c76c6400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:43 +0000
Subject: [PATCH 39/53] fix: the symbolic analysis kept its two reordered
 copies of the matrix

---
 utils/lfactor_creation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/lfactor_creation.cpp b/utils/lfactor_creation.cpp
index f674077..a1fd624 100644
--- a/utils/lfactor_creation.cpp
+++ b/utils/lfactor_creation.cpp
@@ -422,8 +422,8 @@ namespace sym_lib{
   /// Build the L-factor pattern
   lfsi->L = build_L_pattern_from_col_counts(n, At_ord, col_count, parent,
     lfsi->accessed_nnz_per_col);
-  //delete A_ord;
-  //delete At_ord;
+  delete A_ord;
+  delete At_ord;
   delete []ws;
   delete []first;
   delete []level;
-- 
2.43.0


From ad09a726a00d2691d50a1d1793437bb6a6f1db2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 40/53] fix: transpose_symmetric took n for a valid index and
 kept its work arrays when it refused

---
 utils/sparse_utilities.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 60ab74c..0806343 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -306,7 +306,9 @@ namespace sym_lib {
       }
       for (k = 0; k < n; k++) {
        i = Perm[k];
-       if (i < 0 || i > n || Pinv[i] != EMPTY) {
+       if (i < 0 || i >= n || Pinv[i] != EMPTY) {
+        delete []Iwork;
+        delete F;
         return NULLPNTR;
        }
        Pinv[i] = k;
@@ -381,6 +383,8 @@ namespace sym_lib {
       Wi[i] = Fp[i];
      }
      if (p > F->nnz) {
+      delete []Iwork;
+      delete F;
       return NULLPNTR;
      }
 
-- 
2.43.0


From 48c4186518563711cbbef0cb092a524c51658a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 41/53] fix: CSC matrices without values or entries, and
 tree_to_csc's, kept their arrays when deleted

---
 include/aggregation/def.h  | 12 ++++--------
 utils/sparse_utilities.cpp |  1 +
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/aggregation/def.h b/include/aggregation/def.h
index 91eeb83..7fd597c 100644
--- a/include/aggregation/def.h
+++ b/include/aggregation/def.h
@@ -166,14 +166,10 @@ namespace sym_lib {
   }
 
   ~CSC() {
-   if (!pre_alloc) {
-    if (n > 0)
-     delete[]p;
-    if (nnz > 0) {
-     delete[]i;
-     if (!is_pattern)
-      delete[]x;
-    }
+   if (!pre_alloc) { // whatever is not there is NULL
+    delete[]p;
+    delete[]i;
+    delete[]x;
    }
   }
 
diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 0806343..4c36d94 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -156,6 +156,7 @@ namespace sym_lib {
      int *Ai = new int[n](), *Ap = new int[n+1](), *cnt = new int[n]();
      populate_children(n, tree, Ap, Ai, cnt);
      CSC *T = new CSC(n,n,n-1,Ap,Ai,0);
+     T->pre_alloc = false; // the arrays are the matrix's own
      delete []cnt;
      return T;
     }
-- 
2.43.0


From 7f82d775a0d871da18a8b73883b21a957a30356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:55 +0000
Subject: [PATCH 42/53] fix: merge_graphs kept only the first row of each block
 of the middle matrix

---
 utils/sparse_inspector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 3c602ef..4ae3d29 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -780,7 +780,7 @@ namespace sym_lib {
   // Count # nnz in B
   for (int i = 0; i < nodes; i++) {
    for (int r = 0; r < nB->nrows[i]; r++) {
-    int row = supers[nB->i[nB->p[i]]];
+    int row = supers[nB->i[nB->p[i] + r]];
     if (!inplace[row]) {
      inplace[row] = true;
      temp[count] = row;
@@ -844,7 +844,7 @@ namespace sym_lib {
    Mi[i] = j + nodes;
    i++;
    for (int r = 0; r < nB->nrows[j]; r++) {
-    int row = supers[nB->i[nB->p[j]]];
+    int row = supers[nB->i[nB->p[j] + r]];
     if (!inplace[row]) {
      inplace[row] = true;
      temp[count] = row;
-- 
2.43.0


From 7b7df4d83700741179a053630d00f84dcf814f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:55 +0000
Subject: [PATCH 43/53] fix: convert_to_one_based never copied the values

---
 utils/sparse_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index b393ede..e65cf97 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -138,7 +138,7 @@ namespace sym_lib {
   else
    for (int j = 0; j < A->nnz; ++j) {
     A_one->i[j] = A->i[j]+1;
-    A_one->x[j] = A_one->x[j];
+    A_one->x[j] = A->x[j];
    }
 
   for (int k = 0; k < A->n + 1; ++k) {
-- 
2.43.0


From 1f36d6155dddb1aa9aa37f6502ddb3e2bdb08e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:55 +0000
Subject: [PATCH 44/53] fix: computeNoneZeroPatternOfRowK unmarked a vertex it
 had not stored yet

---
 src/hdagg/hdagg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 51f514c..9f9216b 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -1333,7 +1333,7 @@ namespace HDAGG
             }
             while(len > 0) s[--top] = s[--len];
         }
-        for(int p = top; p < n; p++){
+        for(int p = top; p < n - 1; p++){
             w[s[p]] = false;
         }
         w[k] = false;
-- 
2.43.0


From 0a18d665769bc38c7a8d995bef65da5dd2c72cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:17 +0000
Subject: [PATCH 45/53] fix: BCSCMatrix::createFormat read an entry past the
 end before testing the bound

---
 utils/BCSCMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/BCSCMatrix.cpp b/utils/BCSCMatrix.cpp
index 6296ee7..3388ace 100644
--- a/utils/BCSCMatrix.cpp
+++ b/utils/BCSCMatrix.cpp
@@ -202,7 +202,7 @@ namespace sym_lib {
     for (p = 0; p < temp_cnt; p++) {
      int row_i = tempvec[p];
      M->i[counter] = row_i;
-     if (row_i == Ai[index] && index < Ap[j + 1]) {
+     if (index < Ap[j + 1] && row_i == Ai[index]) {
       M->x[counter] = Ax[index];
       index++;
      } else {
-- 
2.43.0


From c612445dd8f9960af513b19174d00ef659c9c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:11 +0000
Subject: [PATCH 46/53] fix: mm_read_mtx_crd returned unread integer matrices
 and kept the file and arrays on failure

---
 utils/external/mmio.cpp | 50 +++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 55ec36b..6d09e49 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -343,44 +343,46 @@ namespace sym_lib {
   int ret_code;
   FILE *f;
 
+  *I = *J = NULL;
+  *val = NULL;
+
   if (strcmp(fname, "stdin") == 0) f = stdin;
   else if ((f = fopen(fname, "r")) == NULL)
    return MM_COULD_NOT_READ_FILE;
 
 
-  if ((ret_code = mm_read_banner(f, matcode)) != 0)
-   return ret_code;
-
-  if (!(mm_is_valid(*matcode) && mm_is_sparse(*matcode) &&
+  if ((ret_code = mm_read_banner(f, matcode)) == 0 &&
+      !(mm_is_valid(*matcode) && mm_is_sparse(*matcode) &&
         mm_is_matrix(*matcode)))
-   return MM_UNSUPPORTED_TYPE;
-
-  if ((ret_code = mm_read_mtx_crd_size(f, M, N, nz)) != 0)
-   return ret_code;
+   ret_code = MM_UNSUPPORTED_TYPE;
 
+  if (ret_code == 0)
+   ret_code = mm_read_mtx_crd_size(f, M, N, nz);
 
-  *I = (int *) malloc(*nz * sizeof(int));
-  *J = (int *) malloc(*nz * sizeof(int));
-  *val = NULL;
+  if (ret_code == 0) {
+   *I = (int *) malloc(*nz * sizeof(int));
+   *J = (int *) malloc(*nz * sizeof(int));
+   if (mm_is_complex(*matcode))
+    *val = (double *) malloc(*nz * 2 * sizeof(double));
+   else if (mm_is_real(*matcode))
+    *val = (double *) malloc(*nz * sizeof(double));
 
-  if (mm_is_complex(*matcode)) {
-   *val = (double *) malloc(*nz * 2 * sizeof(double));
    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                                    *matcode);
-   if (ret_code != 0) return ret_code;
-  } else if (mm_is_real(*matcode)) {
-   *val = (double *) malloc(*nz * sizeof(double));
-   ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
-                                   *matcode);
-   if (ret_code != 0) return ret_code;
-  } else if (mm_is_pattern(*matcode)) {
-   ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
-                                   *matcode);
-   if (ret_code != 0) return ret_code;
+  }
+  if (ret_code == 0 && ferror(f))
+   ret_code = MM_COULD_NOT_READ_FILE;
+
+  if (ret_code != 0) {
+   free(*I);
+   free(*J);
+   free(*val);
+   *I = *J = NULL;
+   *val = NULL;
   }
 
   if (f != stdin) fclose(f);
-  return 0;
+  return ret_code;
  }
 
  int mm_write_banner(FILE *f, MM_typecode matcode) {
-- 
2.43.0


From 8e6ad1278147e5556b4bc6a57a871e1edb05c838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:11 +0000
Subject: [PATCH 47/53] fix: generate_matrices_from_mtx kept its ordering and
 reordered copies, and used a null ordering

---
 utils/FusionDemo.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/FusionDemo.cpp b/utils/FusionDemo.cpp
index 3314680..7638015 100644
--- a/utils/FusionDemo.cpp
+++ b/utils/FusionDemo.cpp
@@ -108,10 +108,10 @@ namespace sym_lib{
 
  void generate_matrices_from_mtx(CSC *L1_csc_in,
    CSR *&L2_csr, CSC *&B, CSR *&B_csr){
-  CSC *L1_csc = NULLPNTR;
+  CSC *L1_csc = L1_csc_in;
 #ifdef METIS
   //We only reorder L since dependency matters more in l-solve.
-  auto *perm = new int[L1_csc_in->n]();
+  int *perm = NULLPNTR;
   CSC *L1_csc_full = make_full(L1_csc_in);
   metis_perm_general(L1_csc_full, perm);
   L1_csc = make_half(L1_csc_full->n, L1_csc_full->p, L1_csc_full->i,
@@ -132,6 +132,8 @@ namespace sym_lib{
    B = diagonal(L1_csc->n,1.0);
    B_csr = csc_to_csr(B);
   }
+  if(L1_csc != L1_csc_in)
+   delete L1_csc;
  }
 
  void print_common_header(){
-- 
2.43.0


From 24969ff56c4cc4790b7360a49584b726bc78fa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:11 +0000
Subject: [PATCH 48/53] fix: print_common printed one value too few for a demo
 without a factor

---
 utils/FusionDemo.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/FusionDemo.cpp b/utils/FusionDemo.cpp
index 7638015..c6d3c14 100644
--- a/utils/FusionDemo.cpp
+++ b/utils/FusionDemo.cpp
@@ -148,6 +148,8 @@ namespace sym_lib{
   PRINT_CSV(B->nnz);
   if(L)
    PRINT_CSV(L->nnz);
+  else
+   PRINT_CSV("");
   PRINT_CSV(variant);
   PRINT_CSV(strategy);
 #ifdef METIS
-- 
2.43.0


From cb61b7eb7b556854b4955653ac4155c41703e5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:11 +0000
Subject: [PATCH 49/53] fix: metis_partitioning returned a partition METIS had
 not made

---
 utils/metis_interface.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 70ff3d2..832110f 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -33,7 +33,13 @@ namespace sym_lib {
   } else {
    A2 = copy_sparse(A);
   }
-  metis_part_func(A2, partition, npar);
+  if (metis_part_func(A2, partition, npar) != METIS_OK) {
+   // no partition
+   delete[]partition;
+   partition = nullptr;
+   delete (A2);
+   A2 = nullptr;
+  }
 
   delete[]perm;
   delete (A1);
-- 
2.43.0


From 79c2620cb8a5aae637c51fb3be81a9f034d7b472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:11 +0000
Subject: [PATCH 50/53] fix: save_vector crashed when the file could not be
 opened and hid write errors

---
 utils/sparse_utilities.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 4c36d94..20fb329 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -3,7 +3,9 @@
 //
 
 #include <cstring>
+#include <stdexcept>
 #include "aggregation/def.h"
+#include "aggregation/exceptions.h"
 #include <cassert>
 #include <cmath>
 #include "aggregation/sparse_utilities.h"
@@ -13,9 +15,11 @@ namespace sym_lib {
 
     void save_vector(char *fname, const double *vec, int length) {
      FILE *f = fopen(fname, "w");
+     if (!f) throw write_file_error(fname);
      for(int i = 0; i < length; i++)
       fprintf(f, "%f\n", vec[i]);
-     fclose(f);
+     int failed = ferror(f);
+     if (fclose(f) != 0 || failed) throw write_file_error(fname);
     }
 
     // TODO eventually use CSC / CSR class
-- 
2.43.0


From 36c2c745e695d9399bf67860899c83c9dc880647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:24 +0000
Subject: [PATCH 51/53] fix: mm_read_mtx_crd read into missing arrays when
 memory ran out

---
 utils/external/mmio.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 6d09e49..754af98 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -367,8 +367,11 @@ namespace sym_lib {
    else if (mm_is_real(*matcode))
     *val = (double *) malloc(*nz * sizeof(double));
 
-   ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
-                                   *matcode);
+   if (*nz > 0 && (!*I || !*J || (!*val && (mm_is_complex(*matcode) || mm_is_real(*matcode)))))
+    ret_code = MM_COULD_NOT_READ_FILE; /* out of memory */
+   else
+    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
+                                    *matcode);
   }
   if (ret_code == 0 && ferror(f))
    ret_code = MM_COULD_NOT_READ_FILE;
-- 
2.43.0


From 16a2daf02f93dea235b1707f84d516c207c3498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:50 +0000
Subject: [PATCH 52/53] fix: HDagg cut the last merged level by the chunks of
 the merge before it

When the last wavefront was merged into a level, the chunk sizes kept for
it were those of one wavefront earlier, when there were more and smaller
components: partitions came out uneven, the last ones often empty.
---
 src/hdagg/hdagg.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 9f9216b..c80bc6a 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -772,9 +772,8 @@ namespace HDAGG
                     WM_condidate = ub_level;
                     ub_level = std::min(ub_level + 1, nlevels);
                     if(prev_upper_bound == ub_level){
-                        if(iteration_counter == 1){
-                            chunk_sizes[WM.size() - 1] = chunk_array;
-                        }
+                        //The last wavefront was merged: its chunks, not those of the merge before it
+                        chunk_sizes[WM.size() - 1] = chunk_array;
                         done_flag = true;
                     }
                     prev_upper_bound = ub_level;
@@ -984,10 +983,8 @@ namespace HDAGG
                     WM_condidate = ub_level;
                     ub_level = std::min(ub_level + 1, nlevels);
                     if(prev_upper_bound == ub_level){
-                        if(iteration_counter == 1){
-                            chunk_sizes[WM.size() - 1] = chunk_array;
-                            node2partition_accepted = node2partition;
-                        }
+                        //The last wavefront was merged: its chunks, not those of the merge before it
+                        chunk_sizes[WM.size() - 1] = chunk_array;
                         done_flag = true;
                     }
                     node2partition_accepted = node2partition;
-- 
2.43.0


From d083f0b4e499db2fe21989aa03855716605c7419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:50 +0000
Subject: [PATCH 53/53] fix: LBC balanced levels by costs left over from other
 levels

Component and bin costs were never cleared between coarse levels, costs of
components that turned out to be one were not added up, bins beyond
INT_MAX were never the lightest, and parallel_cc added up costs from
several threads without synchronisation. Packing was therefore uneven, and
differed from run to run in the parallel version.
---
 src/lbc_blocked.cpp | 5 +++++
 src/lbc_csc.cpp     | 5 +++++
 src/lbc_csc_dag.cpp | 8 ++++++++
 src/lbc_utils.cpp   | 6 ++++--
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index e103384..b05cd4e 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -7,6 +7,7 @@
 
 
 
+#include <algorithm>
 #include "aggregation/sparse_utilities.h"
 #include "aggregation/sparse_inspector.h"
 #include "aggregation/lbc_utils.h"
@@ -108,6 +109,8 @@ namespace sym_lib {
    }
    //Iterating over non-visited leaf nodes to compute CCs
    //CC:connected component
+   //Costs of the previous level's components do not count here
+   std::fill_n(outCost, n, 0.0);
    int stackStart = 0, cc = 0;
    std::vector<int> needAliased;
    bool *isUniq = new bool[n]();
@@ -133,6 +136,8 @@ namespace sym_lib {
           node2partition[i] = minAliasedPar;
          }
         }
+        outCost[minAliasedPar] += outCost[tn];
+        outCost[tn] = 0.0;
        }
       }
       needAliased.erase(needAliased.begin(), needAliased.end());
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index e663f50..29122a2 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -5,6 +5,7 @@
 #ifndef CROSSKERNEL_LBC_CSC_H
 #define CROSSKERNEL_LBC_CSC_H
 
+#include <algorithm>
 #include "aggregation/sparse_utilities.h"
 #include "aggregation/sparse_inspector.h"
 #include "aggregation/lbc.h"
@@ -112,6 +113,8 @@ namespace sym_lib {
    }
    //Iterating over non-visited leaf nodes_ to compute CCs
    //CC:connected component
+   //Costs of the previous level's components do not count here
+   std::fill_n(outCost, n, 0.0);
    int stackStart = 0, cc = 0, max_cc=0;
    std::vector<int> needAliased;
    bool *isUniq = new bool[n]();
@@ -140,6 +143,8 @@ namespace sym_lib {
           node2partition[i] = minAliasedPar;
          }
         }
+        outCost[minAliasedPar] += outCost[tn];
+        outCost[tn] = 0.0;
        }
       }
       needAliased.clear();
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index e6beeec..678877c 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -3,6 +3,7 @@
 //
 
 #include "aggregation/lbc_utils.h"
+#include <algorithm>
 #include <cstring>
 #ifdef ENABLE_OPENMP
 #include <omp.h>
@@ -86,6 +87,7 @@ int parallel_cc(int *lC, int *lR, int dfsLevel, int ubLevel, int *node2Level,
  for (int i = 0; i < numNodes; ++i) {
   int node = nodes[i];
   int cc = node2partition[node];
+#pragma omp atomic
   outCost[cc] += nodeCost[node];
   max_cc = std::max(max_cc, cc + 1);
  }
@@ -103,6 +105,8 @@ void process_l_partition(
  std::vector<std::vector<std::vector<int>>> &mergedLeveledParListByL,
  bool binPacking, int numThreadsForCC, int &totalCC) {
  memset(inDegree, 0, n * sizeof(int));
+ // Costs of the previous level's components do not count here
+ std::fill_n(outCost, n, 0.0);
 
  int ubLevel = partition2Level[l + 1];
  int dfsLevel = partition2Level[l];
@@ -488,6 +492,8 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
   }
   // Iterating over non-visited leaf nodes to compute CCs
   // CC:connected component
+  // Costs of the previous level's components do not count here
+  std::fill_n(outCost, n, 0.0);
   int stackStart = 0, cc = 0;
   std::vector<int> needAliased;
   bool *isUniq = new bool[n]();
@@ -513,6 +519,8 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
          node2partition[i] = minAliasedPar;
         }
        }
+       outCost[minAliasedPar] += outCost[tn];
+       outCost[tn] = 0.0;
       }
      }
      needAliased.erase(needAliased.begin(), needAliased.end());
diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index 30d71a8..3f26e09 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -147,9 +147,9 @@ namespace sym_lib{
 
 
  int find_min(double *cost, int size) {
-  double min = INT_MAX;
+  double min = cost[0];
   int minBin = 0;
-  for (int i = 0; i < size; ++i) {
+  for (int i = 1; i < size; ++i) {
    if (cost[i] < min) {
     min = cost[i];
     minBin = i;
@@ -174,6 +174,8 @@ namespace sym_lib{
                                newLeveledParList[i].begin(), newLeveledParList[i].end());
   }
   std::sort(partList.begin(), partList.end(), cmp_cost);
+  //The bins are empty, whatever an earlier packing left in outCost
+  std::fill_n(outCost, numOfBins, 0.0);
   int minBin = 0;
   for (int i = 0; i < partNo; i++) {
    minBin = find_min(outCost, numOfBins);
-- 
2.43.0

