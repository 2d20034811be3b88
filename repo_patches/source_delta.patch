From 435d3d5413ab854be2410d590c5475856211e030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 001/140] fix: allocate arrays of process counts in
 initBranchUpdate

new int(nprocs) allocates one integer; the arrays are indexed up to nprocs-1.
---
 src/network/base_network.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index a878820..cca7a49 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -2230,8 +2230,8 @@ void initBranchUpdate(void)
     // Construct GA that can hold exchange data for all active branches
     int nprocs = GA_Pgroup_nnodes(grp);
     int me = GA_Pgroup_nodeid(grp);
-    int *totBranches = new int(nprocs);
-    int *distr = new int(nprocs);
+    int *totBranches = new int[nprocs];
+    int *distr = new int[nprocs];
     for (i=0; i<nprocs; i++) {
       if (me == i) {
         totBranches[i] = numBranches;
@@ -2302,8 +2302,8 @@ void initBranchUpdate(void)
         icnt++;
       }
     }
-    delete totBranches;
-    delete distr;
+    delete [] totBranches;
+    delete [] distr;
   }
   GA_Pgroup_sync(grp);
 }
-- 
2.43.0


From 8d5779685e29309122fcca58fd414aa128f8bcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 002/140] fix: ghost updates when a process owns no buses or
 branches

The exchange array was created with an irregular distribution that GA rejects
("Mapc entry outside array dimension limits") as soon as a process owns no
branch, e.g. for star shaped networks.
---
 src/network/base_network.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index cca7a49..f1b544c 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -2055,15 +2055,19 @@ void initBusUpdate(void)
     GA_Pgroup_igop(grp,totBuses,nprocs,plus);
     distr[0] = 0;
     p_busTotal = totBuses[0];
+    // GA cannot represent processes that own nothing in an irregular
+    // distribution, so use the default distribution in that case
+    bool irreg = totBuses[0] > 0;
     for (i=1; i<nprocs; i++) {
       distr[i] = distr[i-1] + totBuses[i-1];
       p_busTotal += totBuses[i];
+      if (totBuses[i] == 0) irreg = false;
     }
     p_busGA = GA_Create_handle();
     int one = 1;
     p_busXCBufType = NGA_Register_type(p_busXCBufSize);
     GA_Set_data(p_busGA, one, &p_busTotal, p_busXCBufType);
-    GA_Set_irreg_distr(p_busGA, distr, &nprocs);
+    if (irreg) GA_Set_irreg_distr(p_busGA, distr, &nprocs);
     GA_Set_pgroup(p_busGA, grp);
     GA_Allocate(p_busGA);
     p_busGASet = true;
@@ -2244,15 +2248,19 @@ void initBranchUpdate(void)
     GA_Pgroup_igop(grp,totBranches,nprocs,plus);
     distr[0] = 0;
     p_branchTotal = totBranches[0];
+    // GA cannot represent processes that own nothing in an irregular
+    // distribution, so use the default distribution in that case
+    bool irreg = totBranches[0] > 0;
     for (i=1; i<nprocs; i++) {
       distr[i] = distr[i-1] + totBranches[i-1];
       p_branchTotal += totBranches[i];
+      if (totBranches[i] == 0) irreg = false;
     }
     p_branchGA = GA_Create_handle();
     int one = 1;
     p_branchXCBufType = NGA_Register_type(p_branchXCBufSize);
     GA_Set_data(p_branchGA, one, &p_branchTotal, p_branchXCBufType);
-    GA_Set_irreg_distr(p_branchGA, distr, &nprocs);
+    if (irreg) GA_Set_irreg_distr(p_branchGA, distr, &nprocs);
     GA_Set_pgroup(p_branchGA, grp);
     GA_Allocate(p_branchGA);
     p_branchGASet = true;
-- 
2.43.0


From 37eca8fddce7b73e07f4530f68428eadec7b978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 003/140] fix: identifier lookups after BaseNetwork::clear and
 clean

Both changed the local indices but left the maps from original to local
indices as they were, so lookups returned indices of other or removed buses.
---
 src/network/base_network.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index f1b544c..a9e9a29 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -1382,6 +1382,8 @@ void clean(void)
   if (p_refBus != -1) {
     p_refBus = buses[p_refBus];
   }
+  // local indices have changed, so update maps from original to local indices
+  setMap();
 }
 
 /**
@@ -1685,6 +1687,8 @@ void clear(void)
   // Get rid of all buses and branches
   p_buses.clear();
   p_branches.clear();
+  p_busMap.clear();
+  p_branchMap.clear();
 
   //reset all internal parameters to their initial state
   p_refBus = -1;
-- 
2.43.0


From 7c51dde5effe83abd91e78c4514470c1f95192f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 004/140] fix: remove duplicate ghost bus destinations in the
 partitioner

std::unique does not shrink the vector, so a bus with several branches into the
same process was ghosted there more than once.
---
 src/partition/graph_partitioner_implementation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/partition/graph_partitioner_implementation.cpp b/src/partition/graph_partitioner_implementation.cpp
index 5c212e6..882de07 100644
--- a/src/partition/graph_partitioner_implementation.cpp
+++ b/src/partition/graph_partitioner_implementation.cpp
@@ -475,7 +475,8 @@ GraphPartitionerImplementation::partition(void)
       // there may be duplicates, so get rid of them
       if (tmpdest.size() > 1) {
         std::stable_sort(tmpdest.begin(), tmpdest.end());
-        std::unique(tmpdest.begin(), tmpdest.end());
+        tmpdest.erase(std::unique(tmpdest.begin(), tmpdest.end()),
+                      tmpdest.end());
       }
 
       p_ghost_node_destinations[n].reserve(tmpdest.size());
-- 
2.43.0


From 836ca9dead503368c7056204269cd2038d6a21a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 005/140] fix: component neighbor lists after partitioning a
 network again

Buses that stay on their process kept the neighbors of the previous partition,
so branches and buses were listed twice.
---
 src/network/base_network.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index a9e9a29..2a0aeb5 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -1189,6 +1189,9 @@ void partition(void)
     int lidx(0);
     for (BusIterator b = p_buses.begin(); b != p_buses.end(); ++b, ++lidx) {
       clearBranchNeighbors(lidx);
+      // components may still hold neighbors from an earlier partition
+      b->p_bus->clearBranches();
+      b->p_bus->clearBuses();
       busindexes[b->p_globalBusIndex] = lidx;
       if (b->p_activeBus) active_buses += 1;
     }
-- 
2.43.0


From 759d4060eeb66b031bf884f2e040c4b91ce6848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 006/140] fix: exchange buffers on processes without buses or
 branches

allocXCBus/allocXCBranch left the buffer size at zero on a process that holds
no buses (branches), which then skipped the collective part of
initBusUpdate/initBranchUpdate and left all other processes waiting.
---
 src/network/base_network.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index 2a0aeb5..d32a521 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -1748,7 +1748,7 @@ void allocXCBus(int size)
     p_busXCBufSize = 0;
   }
   // Allocate new buffers if size is greater than zero
-  if (size > 0 && nsize > 0) {
+  if (size > 0) {
     p_busXCBuffers = new void*[nsize];
     for (i=0; i<nsize; i++) {
       p_busXCBuffers[i] = static_cast<void*>(new char[size]);
@@ -1888,7 +1888,7 @@ void allocXCBranch(int size)
     p_external_branch = true;
   }
   // Allocate new buffers if size is greater than zero
-  if (size > 0 && nsize > 0) {
+  if (size > 0) {
     p_branchXCBuffers = new void*[nsize];
     for (i=0; i<nsize; i++) {
       p_branchXCBuffers[i] = static_cast<void*>(new char[size]);
-- 
2.43.0


From 4ffc0f687d6f3b02e5cf21190c2ae3f71270f755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 007/140] fix: GlobalIndexHashMap with few or no keys

With fewer keys than processes GA rejected the irregular distribution and
aborted; a query without keys leaked a global array (which made destroying the
communicator's process group fail) and left old values in the result; adding an
empty set of pairs kept the old pairs.
---
 src/parallel/index_hash.cpp | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/parallel/index_hash.cpp b/src/parallel/index_hash.cpp
index bf3ca94..b4ef6bd 100644
--- a/src/parallel/index_hash.cpp
+++ b/src/parallel/index_hash.cpp
@@ -18,6 +18,7 @@
 
 // -------------------------------------------------------------
 
+#include <algorithm>
 #include <ga.h>
 #include "index_hash.hpp"
 
@@ -174,12 +175,15 @@ void GlobalIndexHashMap::addPairs(std::vector<std::pair<int,int> > &pairs)
     r_offset[i] += totalVals;
     totalVals += numValues[i];
   }
-  if (totalVals == 0) return;
+  if (totalVals == 0) {
+    p_umap.clear();
+    return;
+  }
 
   // Create a global array that can hold all values
   int dtype = NGA_Register_type(sizeof(std::pair<int,int>));
   int g_data = GA_Create_handle();
-  dims = totalVals+1;
+  dims = std::max(totalVals+1,p_nprocs);
   GA_Set_data(g_data,one,&dims,dtype);
   GA_Set_pgroup(g_data,p_GAgrp);
   std::vector<int> mapc(p_nprocs);
@@ -361,12 +365,15 @@ void GlobalIndexHashMap::addPairs(std::vector<std::pair<std::pair<int,int>,int>
     r_offset[i] += totalVals;
     totalVals += numValues[i];
   }
-  if (totalVals == 0) return;
+  if (totalVals == 0) {
+    p_pmap.clear();
+    return;
+  }
 
   // Create a global array that can hold all values
   int dtype = NGA_Register_type(sizeof(std::pair<std::pair<int,int>,int>));
   int g_data = GA_Create_handle();
-  dims = totalVals+1;
+  dims = std::max(totalVals+1,p_nprocs);
   GA_Set_data(g_data,one,&dims,dtype);
   GA_Set_pgroup(g_data,p_GAgrp);
   std::vector<int> mapc(p_nprocs);
@@ -607,11 +614,16 @@ void GlobalIndexHashMap::getValues(std::vector<int> &keys, std::vector<int> &val
     r_offset[i] += totalVals;
     totalVals += 2*numValues[i];
   }
-  if (totalVals == 0) return;
+  if (totalVals == 0) {
+    GA_Destroy(g_offset);
+    keys.clear();
+    values.clear();
+    return;
+  }
 
   // Create a global array that can hold all key values
   int g_data = GA_Create_handle();
-  dims = totalVals+1;
+  dims = std::max(totalVals+1,p_nprocs);
   GA_Set_data(g_data,one,&dims,C_INT);
   GA_Set_pgroup(g_data,p_GAgrp);
   std::vector<int> mapc(p_nprocs);
@@ -727,7 +739,7 @@ void GlobalIndexHashMap::getValues(std::vector<int> &keys, std::vector<int> &val
 
   // Create a global array that can hold all key-value pairs
   g_data = GA_Create_handle();
-  dims = totalVals+1;
+  dims = std::max(totalVals+1,p_nprocs);
   GA_Set_data(g_data,one,&dims,C_INT);
   GA_Set_pgroup(g_data,p_GAgrp);
   mapc[0] = 0;
@@ -979,11 +991,16 @@ void GlobalIndexHashMap::getValues(std::vector<std::pair<int,int> > &keys,
     r_offset[i] += totalVals;
     totalVals += 3*numValues[i];
   }
-  if (totalVals == 0) return;
+  if (totalVals == 0) {
+    GA_Destroy(g_offset);
+    keys.clear();
+    values.clear();
+    return;
+  }
 
   // Create a global array that can hold all key values
   int g_data = GA_Create_handle();
-  dims = totalVals+1;
+  dims = std::max(totalVals+1,p_nprocs);
   GA_Set_data(g_data,one,&dims,C_INT);
   GA_Set_pgroup(g_data,p_GAgrp);
   std::vector<int> mapc(p_nprocs);
@@ -1104,7 +1121,7 @@ void GlobalIndexHashMap::getValues(std::vector<std::pair<int,int> > &keys,
 
   // Create a global array that can hold all key-value pairs
   g_data = GA_Create_handle();
-  dims = totalVals+1;
+  dims = std::max(totalVals+1,p_nprocs);
   GA_Set_data(g_data,one,&dims,C_INT);
   GA_Set_pgroup(g_data,p_GAgrp);
   mapc[0] = 0;
-- 
2.43.0


From 90836c30d0da893d80bdba51b1472b1a1855a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 008/140] fix: partition networks with fewer branches than
 processes

A process that holds no part of the edge array made the collection of edges
abort ("cannot locate region"); the loop over nodes already skips this case.
---
 src/partition/adjacency_list.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/partition/adjacency_list.cpp b/src/partition/adjacency_list.cpp
index 9ba2652..e5dcc25 100644
--- a/src/partition/adjacency_list.cpp
+++ b/src/partition/adjacency_list.cpp
@@ -266,6 +266,7 @@ AdjacencyList::ready(void)
     int iproc = (me+p)%nprocs;
     NGA_Distribution(g_edges,iproc,&lo,&hi);
     int size = hi - lo + 1;
+    if (size <= 0) continue;
     int *buf = new int[size];
     int ld = 1;
     NGA_Get(g_edges,&lo,&hi,buf,&ld);
-- 
2.43.0


From 6fbe593cbaef8b0841c332f99b225eff75069d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 009/140] fix: discard the cached normal deviate when reseeding

---
 src/parallel/random.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parallel/random.cpp b/src/parallel/random.cpp
index babd5cc..d6df6cb 100644
--- a/src/parallel/random.cpp
+++ b/src/parallel/random.cpp
@@ -76,6 +76,8 @@ void Random::Random::seed(int seed)
   if (seed < 0) seed = -seed;
   seed += GA_Nodeid();
   p_generator.seed(static_cast<unsigned int>(seed));
+  // discard normal deviate left over from previous seed
+  p_iset = 0;
 }
 
 /**
-- 
2.43.0


From 5787f314dc61fc0decc7539acf013870781b06ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 010/140] fix: GlobalStore with missing or empty vectors

---
 src/parallel/global_store.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parallel/global_store.hpp b/src/parallel/global_store.hpp
index 0857f49..30bc753 100644
--- a/src/parallel/global_store.hpp
+++ b/src/parallel/global_store.hpp
@@ -159,6 +159,7 @@ public:
 
     // Copy data to GA
     for (i=0; i<p_index.size(); i++) {
+      if (p_data[i].size() == 0) continue;
       int idx = p_index[i];
       int lo = p_begin[idx];
       int hi = p_end[idx]-1;
@@ -189,6 +190,11 @@ public:
     int lo = p_begin[idx];
     int hi = p_end[idx]-1;
     int size = p_end[idx]-p_begin[idx];
+    // No data was stored under this index
+    if (size == 0) {
+      vec.clear();
+      return;
+    }
     _data_type *dbuf = new _data_type[size];
     NGA_Get(p_GA,&lo,&hi,dbuf,&ld);
     // Copy results to vector
-- 
2.43.0


From 5d44cc9d51a217a979976554407f78699cc3e371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 011/140] fix: synchronize GlobalVector between zeroing and
 adding data

---
 src/parallel/global_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parallel/global_vector.hpp b/src/parallel/global_vector.hpp
index b0a6ba5..3220d7a 100644
--- a/src/parallel/global_vector.hpp
+++ b/src/parallel/global_vector.hpp
@@ -209,6 +209,8 @@ public:
       memset(dptr,'\0',ld*p_datasize);
       NGA_Release(p_GA,&ilo,&ihi);
     }
+    // No data can be added until all processes have zeroed out their portion
+    GA_Pgroup_sync(GAgrp);
 
     // Copy data to GA
     _data_type *data;
-- 
2.43.0


From 75ecfd2cd53a15bf066a36bb46cc84ec825bff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 012/140] fix: release the data type registered by GlobalStore

---
 src/parallel/global_store.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parallel/global_store.hpp b/src/parallel/global_store.hpp
index 30bc753..1929827 100644
--- a/src/parallel/global_store.hpp
+++ b/src/parallel/global_store.hpp
@@ -61,6 +61,7 @@ public:
     // Assume that if p_begin is allocated, other data objects are allocated
     if (p_uploaded) {
       GA_Destroy(p_GA);
+      NGA_Deregister_type(p_GA_Type);
     }
     if (p_begin != NULL) delete [] p_begin;
     if (p_end != NULL) delete [] p_end;
@@ -150,9 +151,9 @@ public:
 
     // Create a GA to hold data
     int one = 1;
-    int GA_type = NGA_Register_type(p_datasize);
+    p_GA_Type = NGA_Register_type(p_datasize);
     p_GA = GA_Create_handle();
-    GA_Set_data(p_GA, one, &ndata, GA_type);
+    GA_Set_data(p_GA, one, &ndata, p_GA_Type);
     int GAgrp = p_comm.getGroup();
     GA_Set_pgroup(p_GA, GAgrp);
     GA_Allocate(p_GA);
@@ -217,6 +218,9 @@ private:
   // global array handle for storing distributed data
   int p_GA;
 
+  // data type registered with GA
+  int p_GA_Type;
+
   // size of data type in bytes, processor configuration information,
   // total number stored vectors
   int p_datasize;
-- 
2.43.0


From 79cb4a5fe7051c67b125a4789e0509e268a332e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 013/140] fix: room for large element indices in DataCollection

---
 src/component/data_collection.cpp | 42 +++++++++++++++----------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/component/data_collection.cpp b/src/component/data_collection.cpp
index 63969d3..f347689 100644
--- a/src/component/data_collection.cpp
+++ b/src/component/data_collection.cpp
@@ -99,7 +99,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const int v
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_ints.insert(std::pair<std::string, int>(str,value));
@@ -110,7 +110,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const long
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_longs.insert(std::pair<std::string, long>(str,value));
@@ -121,7 +121,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const bool
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_bools.insert(std::pair<std::string, bool>(str,value));
@@ -132,7 +132,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const char
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   std::string val = value;
@@ -144,7 +144,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const float
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_floats.insert(std::pair<std::string, float>(str,value));
@@ -155,7 +155,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const doubl
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_doubles.insert(std::pair<std::string, double>(str,value));
@@ -166,7 +166,7 @@ void gridpack::component::DataCollection::addValue(const char *name,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_complexType.insert(std::pair<std::string, gridpack::ComplexType>(str,value));
@@ -315,7 +315,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const int v
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -337,7 +337,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const long
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -359,7 +359,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const bool
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -381,7 +381,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const char
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   std::string val = value;
@@ -404,7 +404,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const float
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -426,7 +426,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const doubl
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -448,7 +448,7 @@ bool gridpack::component::DataCollection::setValue(const char *name,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -607,7 +607,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, int *value,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -629,7 +629,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, long *value
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -651,7 +651,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, bool *value
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -673,7 +673,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, std::string
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -695,7 +695,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, float *valu
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -717,7 +717,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, double *val
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -739,7 +739,7 @@ bool gridpack::component::DataCollection::getValue(const char *name,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
-- 
2.43.0


From b99c0952f18a3a1faf608beec1f5fe6d767bd6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 014/140] fix: configuration from an empty list of lines on
 several processes

---
 src/configuration/configuration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/configuration/configuration.cpp b/src/configuration/configuration.cpp
index 59a28b9..c94f611 100644
--- a/src/configuration/configuration.cpp
+++ b/src/configuration/configuration.cpp
@@ -240,7 +240,7 @@ bool Configuration::initialize_internal(MPI_Comm comm) {
 	MPI_Comm_rank(comm,&rank);
 	int n ;
 	MPI_Bcast(&n, 1, MPI_INT, 0, comm);
-   if (n == 0) return false;
+   if (n <= 0) return false;
 	assert(n > 0 && n < (1<<30)); // sanity check that n is not too large (1<<n = 2^n)
 	char * buffer = new char[n+1];
 	MPI_Bcast(buffer, n, MPI_CHAR, 0, comm);
-- 
2.43.0


From bf2e21404d4940565eb8daf795c701d6b606c921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 015/140] fix: keep unquoted strings in StringUtils::trimQuotes

---
 src/utilities/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilities/string_utils.hpp b/src/utilities/string_utils.hpp
index 771b94d..058cafd 100644
--- a/src/utilities/string_utils.hpp
+++ b/src/utilities/string_utils.hpp
@@ -170,7 +170,7 @@ public:
       ntok1 = tag.find_first_not_of('\'',ntok1);
       ntok2 = tag.find('\'',ntok1);
     } else if (no_qt) {
-      ntok2 = tag.find_last_not_of(' ',ntok1)+1;
+      ntok2 = tag.find_last_not_of(' ')+1;
     } else {
       ntok1 = tag.find_first_not_of('\"',ntok1);
       ntok2 = tag.find('\"',ntok1);
-- 
2.43.0


From d113082326cd1da01fcc57afae8716d919403bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 016/140] fix: start reading a vector of strings at its first
 line

---
 src/stream/input_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream/input_stream.cpp b/src/stream/input_stream.cpp
index 12f1f87..a8aae60 100644
--- a/src/stream/input_stream.cpp
+++ b/src/stream/input_stream.cpp
@@ -52,6 +52,7 @@ bool gridpack::stream::InputStream::openStringVector(const std::vector<std::stri
 {
   if (fileVec.size() == 0) return false;
   p_fileVector = fileVec;
+  p_fileIterator = p_fileVector.begin();
   p_srcVector = true;
   p_isOpen = true;
   return true;
-- 
2.43.0


From eee27c69838071a5825a495b2e9910d8ef967567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 017/140] fix: read the last line of a file that does not end
 with a newline

---
 src/stream/input_stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stream/input_stream.cpp b/src/stream/input_stream.cpp
index a8aae60..01521e9 100644
--- a/src/stream/input_stream.cpp
+++ b/src/stream/input_stream.cpp
@@ -84,7 +84,8 @@ bool gridpack::stream::InputStream::nextLine(std::string &line)
   bool ret = false;
   if (p_isOpen) {
     if (p_srcFile) {
-      ret = std::getline(p_fout, line).good();
+      // the last line of the file may not be terminated by a newline
+      ret = !std::getline(p_fout, line).fail();
     } else {
       if (p_fileIterator != p_fileVector.end()) {
         line = *p_fileIterator;
-- 
2.43.0


From 708c8637e5ca8d014661dca11ce07f4284d23604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 018/140] fix: charTokenizer with no characters after the last
 separator

---
 src/utilities/string_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utilities/string_utils.hpp b/src/utilities/string_utils.hpp
index 058cafd..1955206 100644
--- a/src/utilities/string_utils.hpp
+++ b/src/utilities/string_utils.hpp
@@ -260,12 +260,12 @@ public:
     ntok1 = str.find_first_not_of(*sep,0);
     ntok2 = str.find(*sep,ntok1);
     if (ntok2 == std::string::npos) ntok2 = slen;
-    if (ntok1<=ntok2) ret.push_back(str.substr(ntok1,ntok2-ntok1));
+    if (ntok1 != std::string::npos) ret.push_back(str.substr(ntok1,ntok2-ntok1));
     while (ntok2 < slen-1 && ntok1 != std::string::npos) {
       ntok1 = str.find_first_not_of(*sep,ntok2);
       ntok2 = str.find(*sep,ntok1);
       if (ntok2 == std::string::npos) ntok2 = slen;
-      if (ntok1<=ntok2) ret.push_back(str.substr(ntok1,ntok2-ntok1));
+      if (ntok1 != std::string::npos) ret.push_back(str.substr(ntok1,ntok2-ntok1));
     }
     return ret;
   }
-- 
2.43.0


From 82e4f62d667c5f4fa257a2857896466abe4f473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 019/140] fix: blankTokenizer on a line without tokens

---
 src/utilities/string_utils.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utilities/string_utils.hpp b/src/utilities/string_utils.hpp
index 1955206..bfdc146 100644
--- a/src/utilities/string_utils.hpp
+++ b/src/utilities/string_utils.hpp
@@ -200,6 +200,7 @@ public:
     int ntok1, ntok2;
     std::vector<std::string> ret;
     ntok1 = strcpy.find_first_not_of(' ',0);
+    if (ntok1 == std::string::npos) return ret;
     if (strcpy[ntok1] == '\'') {
       ntok2 = strcpy.find('\'',ntok1+1);
       ntok2++;
-- 
2.43.0


From 4d4abbd901c36a428d649c44136c28122fcb6189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 020/140] fix: carriage return after a two-character tag

---
 src/utilities/string_utils.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/utilities/string_utils.hpp b/src/utilities/string_utils.hpp
index bfdc146..bd8f465 100644
--- a/src/utilities/string_utils.hpp
+++ b/src/utilities/string_utils.hpp
@@ -129,16 +129,15 @@ public:
     ntok2 = clean_tag.find(' ',ntok1);
     if (ntok2 == std::string::npos) ntok2 = clean_tag.length();
     tag = clean_tag.substr(ntok1,ntok2-ntok1);
+    // Some systems put \r if the id is at the end of the line. Remove it
+    if (tag.length() > 1 && tag[tag.length() - 1] == '\r')
+      tag.erase(tag.length() - 1);
     if (tag.length() == 1) {
       clean_tag = tag;
       clean_tag.append(" ");
     } else {
       clean_tag = tag;
     }
-    // Some systems put \r if the id is at the end of the line. Remove
-    // it and put a space.
-    if (clean_tag.size() == 2 && clean_tag[clean_tag.size() - 1] == '\r')
-      clean_tag[1] = ' ';
     return clean_tag;
   }
 
-- 
2.43.0


From 0b7c68e57c7b52b4d20aa4fbcb8619223418c1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 021/140] fix: blank fields of a PSS/E line that contain tabs

---
 src/parser/base_pti_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base_pti_parser.hpp b/src/parser/base_pti_parser.hpp
index d3f5532..ed5f333 100644
--- a/src/parser/base_pti_parser.hpp
+++ b/src/parser/base_pti_parser.hpp
@@ -2092,7 +2092,7 @@ class BasePTIParser : public BaseParser<_network>
      */
     bool isBlank(std::string string)
     {
-      int idx = string.find_first_not_of(' ',0);
+      int idx = string.find_first_not_of(" \t",0);
       if (idx != std::string::npos) return false;
       return true;
     } 
-- 
2.43.0


From 5be12b596115fb7d21f039ac3709cd3f633c0d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 022/140] fix: preallocate matrix rows of buses that only
 branches contribute to

---
 src/mapper/full_map.hpp | 42 +++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/mapper/full_map.hpp b/src/mapper/full_map.hpp
index f05b463..cf05211 100644
--- a/src/mapper/full_map.hpp
+++ b/src/mapper/full_map.hpp
@@ -566,9 +566,9 @@ void loadBusArrays(int * iSizeArray, int * jSizeArray,
 //    jSize = 0;
     status = p_network->getBus(i)->matrixDiagSize(&iSize, &jSize);
     int isave = iSize;
+    maxcol = 0;
+    p_network->getBus(i)->getMatVecIndex(&index);
     if (status) {
-      maxcol = 0;
-      p_network->getBus(i)->getMatVecIndex(&index);
       if (iSize > 0) {
         iSizeArray[*icount]     = iSize;
         *(iIndexArray[*icount])  = index;
@@ -580,35 +580,37 @@ void loadBusArrays(int * iSizeArray, int * jSizeArray,
         (*jcount)++;
       }
       maxcol += jSize;
-      branches.clear();
-      p_network->getBus(i)->getNeighborBranches(branches);
+    }
+    branches.clear();
+    p_network->getBus(i)->getNeighborBranches(branches);
 #ifdef NZ_PER_ROW
-//      bool addrow = false;
+//    bool addrow = false;
 #endif
-      // Since status is true, something is being added to matrix. Check to find
-      // extra contributions from branches
-      for(j = 0; j<branches.size(); j++) {
-        branches[j]->getMatVecIndices(&idx, &jdx);
-        if (index == idx) {
-          chk = branches[j]->matrixForwardSize(&iSize, &jSize);
-        } else {
-          chk = branches[j]->matrixReverseSize(&iSize, &jSize);
-        }
-        if (chk) maxcol += jSize;
+    // Check to find contributions from branches. Rows of the matrix can contain
+    // contributions from branches even if the bus does not contribute anything
+    for(j = 0; j<branches.size(); j++) {
+      branches[j]->getMatVecIndices(&idx, &jdx);
+      if (index == idx) {
+        chk = branches[j]->matrixForwardSize(&iSize, &jSize);
+      } else {
+        chk = branches[j]->matrixReverseSize(&iSize, &jSize);
+      }
+      if (chk) maxcol += jSize;
 #ifdef NZ_PER_ROW
-//        addrow = addrow || chk;
+//      addrow = addrow || chk;
 #endif
-      }
-      if (p_maxcol < maxcol) p_maxcol = maxcol;
+    }
+    if (p_maxcol < maxcol) p_maxcol = maxcol;
 #ifdef NZ_PER_ROW
-      // Add maxcol entry for each row in block
+    // Add maxcol entry for each row in block
+    if (status) {
 //      if (addrow) {
         for (j=0; j<isave; j++) {
           nz_per_row.push_back(maxcol);
         }
 //      }
-#endif
     }
+#endif
   }
 
 #ifdef NZ_PER_ROW
-- 
2.43.0


From 9d1009691a0ae6c22a25afbedc91bbcae3b3ba1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 023/140] fix: assemble matrices when a process owns no buses
 or branches

---
 src/mapper/full_map.hpp       | 22 ++++++++++++++++------
 src/mapper/gen_matrix_map.hpp | 13 +++++++++----
 src/mapper/gen_slab_map.hpp   |  9 +++++++--
 src/mapper/gen_vector_map.hpp |  9 +++++++--
 4 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/mapper/full_map.hpp b/src/mapper/full_map.hpp
index cf05211..6802c77 100644
--- a/src/mapper/full_map.hpp
+++ b/src/mapper/full_map.hpp
@@ -760,11 +760,14 @@ void setupOffsetArrays()
 //  printf("p[%d] (FullMatrixMap) minRow: %d maxRow: %d\n",p_me,p_minRowIndex,p_maxRowIndex);
   // Create array to hold information about desired rows
   int nRows = p_maxRowIndex-p_minRowIndex+1;
+  if (p_activeBuses == 0) nRows = 0;
   int *iSizes = new int[nRows]; 
   int *jSizes = new int[nRows]; 
   GA_Pgroup_sync(p_GAgrp);
-  NGA_Get(gaMatBlksI,&p_minRowIndex,&p_maxRowIndex,iSizes,&one);
-  NGA_Get(gaMatBlksJ,&p_minRowIndex,&p_maxRowIndex,jSizes,&one);
+  if (nRows > 0) {
+    NGA_Get(gaMatBlksI,&p_minRowIndex,&p_maxRowIndex,iSizes,&one);
+    NGA_Get(gaMatBlksJ,&p_minRowIndex,&p_maxRowIndex,jSizes,&one);
+  }
 
   // Calculate total number of elements associated with row block and column
   // block associated with this processor
@@ -823,6 +826,11 @@ void setupOffsetArrays()
   for (i=1; i<p_nNodes; i++) {
     mapc[i] = mapc[i-1] + offset[i-1];
   }
+  // An irregular distribution is only possible if every process has data
+  bool irreg = true;
+  for (i=0; i<p_nNodes; i++) {
+    if (offset[i] == 0) irreg = false;
+  }
 
   delete [] offset;
   delete [] itmp;
@@ -831,7 +839,7 @@ void setupOffsetArrays()
   // Create arrays that will hold final offsets
   gaOffsetI = GA_Create_handle();
   GA_Set_data(gaOffsetI, one, &p_totalBuses, C_INT);
-  GA_Set_irreg_distr(gaOffsetI, mapc, &p_nNodes);
+  if (irreg) GA_Set_irreg_distr(gaOffsetI, mapc, &p_nNodes);
   GA_Set_pgroup(gaOffsetI,p_GAgrp);
   if (!GA_Allocate(gaOffsetI)) {
     char buf[256];
@@ -843,7 +851,7 @@ void setupOffsetArrays()
 
   gaOffsetJ = GA_Create_handle();
   GA_Set_data(gaOffsetJ, one, &p_totalBuses, C_INT);
-  GA_Set_irreg_distr(gaOffsetJ, mapc, &p_nNodes);
+  if (irreg) GA_Set_irreg_distr(gaOffsetJ, mapc, &p_nNodes);
   GA_Set_pgroup(gaOffsetJ,p_GAgrp);
   if (!GA_Allocate(gaOffsetJ)) {
     char buf[256];
@@ -856,8 +864,10 @@ void setupOffsetArrays()
   // Evaluate offsets for this processor
   int *iOffsets = new int[nRows]; 
   int *jOffsets = new int[nRows]; 
-  iOffsets[0] = offsetArrayISize;
-  jOffsets[0] = offsetArrayJSize;
+  if (nRows > 0) {
+    iOffsets[0] = offsetArrayISize;
+    jOffsets[0] = offsetArrayJSize;
+  }
   for (i=1; i<nRows; i++) {
     iOffsets[i] = iOffsets[i-1] + iSizes[i-1];
     jOffsets[i] = jOffsets[i-1] + jSizes[i-1];
diff --git a/src/mapper/gen_matrix_map.hpp b/src/mapper/gen_matrix_map.hpp
index dd2c41b..c009ac6 100644
--- a/src/mapper/gen_matrix_map.hpp
+++ b/src/mapper/gen_matrix_map.hpp
@@ -386,11 +386,16 @@ void setOffsets(void)
   branchMap[0] = 0;
   int total_buses = t_busMap[0];
   int total_branches = t_branchMap[0];
+  // An irregular distribution is only possible if every process has data
+  bool irreg_bus = t_busMap[0] > 0;
+  bool irreg_branch = t_branchMap[0] > 0;
   for (i=1; i<p_nNodes; i++) {
     busMap[i] = busMap[i-1] + t_busMap[i-1];
     total_buses += t_busMap[i];
     branchMap[i] = branchMap[i-1] + t_branchMap[i-1];
     total_branches += t_branchMap[i];
+    if (t_busMap[i] == 0) irreg_bus = false;
+    if (t_branchMap[i] == 0) irreg_branch = false;
   }
   delete [] t_busMap;
   delete [] t_branchMap;
@@ -398,7 +403,7 @@ void setOffsets(void)
   int one = 1;
   g_bus_row_offsets = GA_Create_handle();
   GA_Set_data(g_bus_row_offsets, one, &total_buses, C_INT);
-  GA_Set_irreg_distr(g_bus_row_offsets, busMap, &p_nNodes);
+  if (irreg_bus) GA_Set_irreg_distr(g_bus_row_offsets, busMap, &p_nNodes);
   GA_Set_pgroup(g_bus_row_offsets, p_GAgrp);
   if (!GA_Allocate(g_bus_row_offsets)) {
     char buf[256];
@@ -410,7 +415,7 @@ void setOffsets(void)
 
   g_bus_column_offsets = GA_Create_handle();
   GA_Set_data(g_bus_column_offsets, one, &total_buses, C_INT);
-  GA_Set_irreg_distr(g_bus_column_offsets, busMap, &p_nNodes);
+  if (irreg_bus) GA_Set_irreg_distr(g_bus_column_offsets, busMap, &p_nNodes);
   GA_Set_pgroup(g_bus_column_offsets, p_GAgrp);
   if (!GA_Allocate(g_bus_column_offsets)) {
     char buf[256];
@@ -422,7 +427,7 @@ void setOffsets(void)
 
   g_branch_row_offsets = GA_Create_handle();
   GA_Set_data(g_branch_row_offsets, one, &total_branches, C_INT);
-  GA_Set_irreg_distr(g_branch_row_offsets, branchMap, &p_nNodes);
+  if (irreg_branch) GA_Set_irreg_distr(g_branch_row_offsets, branchMap, &p_nNodes);
   GA_Set_pgroup(g_branch_row_offsets, p_GAgrp);
   if (!GA_Allocate(g_branch_row_offsets)) {
     char buf[256];
@@ -434,7 +439,7 @@ void setOffsets(void)
 
   g_branch_column_offsets = GA_Create_handle();
   GA_Set_data(g_branch_column_offsets, one, &total_branches, C_INT);
-  GA_Set_irreg_distr(g_branch_column_offsets, branchMap, &p_nNodes);
+  if (irreg_branch) GA_Set_irreg_distr(g_branch_column_offsets, branchMap, &p_nNodes);
   GA_Set_pgroup(g_branch_column_offsets, p_GAgrp);
   if (!GA_Allocate(g_branch_column_offsets)) {
     char buf[256];
diff --git a/src/mapper/gen_slab_map.hpp b/src/mapper/gen_slab_map.hpp
index d6b5837..039ca7c 100644
--- a/src/mapper/gen_slab_map.hpp
+++ b/src/mapper/gen_slab_map.hpp
@@ -464,11 +464,16 @@ void setOffsets(void)
   branchMap[0] = 0;
   int total_buses = t_busMap[0];
   int total_branches = t_branchMap[0];
+  // An irregular distribution is only possible if every process has data
+  bool irreg_bus = t_busMap[0] > 0;
+  bool irreg_branch = t_branchMap[0] > 0;
   for (i=1; i<p_nNodes; i++) {
     busMap[i] = busMap[i-1] + t_busMap[i-1];
     total_buses += t_busMap[i];
     branchMap[i] = branchMap[i-1] + t_branchMap[i-1];
     total_branches += t_branchMap[i];
+    if (t_busMap[i] == 0) irreg_bus = false;
+    if (t_branchMap[i] == 0) irreg_branch = false;
   }
   delete [] t_busMap;
   delete [] t_branchMap;
@@ -476,7 +481,7 @@ void setOffsets(void)
   int one = 1;
   g_bus_offsets = GA_Create_handle();
   GA_Set_data(g_bus_offsets, one, &total_buses, C_INT);
-  GA_Set_irreg_distr(g_bus_offsets, busMap, &p_nNodes);
+  if (irreg_bus) GA_Set_irreg_distr(g_bus_offsets, busMap, &p_nNodes);
   GA_Set_pgroup(g_bus_offsets, p_GAgrp);
   if (!GA_Allocate(g_bus_offsets)) {
     char buf[256];
@@ -488,7 +493,7 @@ void setOffsets(void)
 
   g_branch_offsets = GA_Create_handle();
   GA_Set_data(g_branch_offsets, one, &total_branches, C_INT);
-  GA_Set_irreg_distr(g_branch_offsets, branchMap, &p_nNodes);
+  if (irreg_branch) GA_Set_irreg_distr(g_branch_offsets, branchMap, &p_nNodes);
   GA_Set_pgroup(g_branch_offsets, p_GAgrp);
   if (!GA_Allocate(g_branch_offsets)) {
     char buf[256];
diff --git a/src/mapper/gen_vector_map.hpp b/src/mapper/gen_vector_map.hpp
index 2eabdfc..33c77ed 100644
--- a/src/mapper/gen_vector_map.hpp
+++ b/src/mapper/gen_vector_map.hpp
@@ -342,11 +342,16 @@ void setOffsets(void)
   branchMap[0] = 0;
   int total_buses = t_busMap[0];
   int total_branches = t_branchMap[0];
+  // An irregular distribution is only possible if every process has data
+  bool irreg_bus = t_busMap[0] > 0;
+  bool irreg_branch = t_branchMap[0] > 0;
   for (i=1; i<p_nNodes; i++) {
     busMap[i] = busMap[i-1] + t_busMap[i-1];
     total_buses += t_busMap[i];
     branchMap[i] = branchMap[i-1] + t_branchMap[i-1];
     total_branches += t_branchMap[i];
+    if (t_busMap[i] == 0) irreg_bus = false;
+    if (t_branchMap[i] == 0) irreg_branch = false;
   }
   delete [] t_busMap;
   delete [] t_branchMap;
@@ -354,7 +359,7 @@ void setOffsets(void)
   int one = 1;
   g_bus_offsets = GA_Create_handle();
   GA_Set_data(g_bus_offsets, one, &total_buses, C_INT);
-  GA_Set_irreg_distr(g_bus_offsets, busMap, &p_nNodes);
+  if (irreg_bus) GA_Set_irreg_distr(g_bus_offsets, busMap, &p_nNodes);
   GA_Set_pgroup(g_bus_offsets, p_GAgrp);
   if (!GA_Allocate(g_bus_offsets)) {
     char buf[256];
@@ -366,7 +371,7 @@ void setOffsets(void)
 
   g_branch_offsets = GA_Create_handle();
   GA_Set_data(g_branch_offsets, one, &total_branches, C_INT);
-  GA_Set_irreg_distr(g_branch_offsets, branchMap, &p_nNodes);
+  if (irreg_branch) GA_Set_irreg_distr(g_branch_offsets, branchMap, &p_nNodes);
   GA_Set_pgroup(g_branch_offsets, p_GAgrp);
   if (!GA_Allocate(g_branch_offsets)) {
     char buf[256];
-- 
2.43.0


From e7ecfa1f9e7e70be44799e0878fb9b1b0ba04c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 024/140] fix: preallocate distributed matrices when a process
 has no rows

---
 src/math/petsc/petsc_matrix_wrapper.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/math/petsc/petsc_matrix_wrapper.cpp b/src/math/petsc/petsc_matrix_wrapper.cpp
index d87fbee..a85b958 100644
--- a/src/math/petsc/petsc_matrix_wrapper.cpp
+++ b/src/math/petsc/petsc_matrix_wrapper.cpp
@@ -232,9 +232,11 @@ PetscMatrixWrapper::p_set_sparse_matrix(const PetscInt *nz_by_row)
 {
   std::vector<PetscInt> diagnz;
   PetscInt lrows(this->localRows());
-  diagnz.reserve(lrows);
+  diagnz.reserve(lrows+1);
   std::copy(nz_by_row, nz_by_row+lrows, 
             std::back_inserter(diagnz));
+  // PETSc handles a NULL pointer differently, even if there are no local rows
+  diagnz.push_back(0);
 
   PetscErrorCode ierr(0);
   try {
@@ -246,9 +248,10 @@ PetscMatrixWrapper::p_set_sparse_matrix(const PetscInt *nz_by_row)
                                        &diagnz[0]); CHKERRXX(ierr);
     } else {
       std::vector<PetscInt> offdiagnz;
-      offdiagnz.reserve(lrows);
+      offdiagnz.reserve(lrows+1);
       std::copy(nz_by_row, nz_by_row+lrows, 
                 std::back_inserter(offdiagnz));
+      offdiagnz.push_back(0);
       ierr = MatSetType(p_matrix, MATMPIAIJ); CHKERRXX(ierr);
       ierr = MatMPIAIJSetPreallocation(p_matrix, 
                                        PETSC_DECIDE,
-- 
2.43.0


From 83d08cb1d1df815b62cd2ce7b609e6dd6ad83cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 025/140] fix: keep values that branches declare in columns of
 their own on other processes' rows

---
 src/mapper/gen_matrix_map.hpp | 44 ++++-------------------------------
 1 file changed, 5 insertions(+), 39 deletions(-)

diff --git a/src/mapper/gen_matrix_map.hpp b/src/mapper/gen_matrix_map.hpp
index c009ac6..4be5805 100644
--- a/src/mapper/gen_matrix_map.hpp
+++ b/src/mapper/gen_matrix_map.hpp
@@ -608,28 +608,14 @@ void numberNonZeros(void)
     nvals = p_network->getBranch(i)->matrixNumValues();
     if (nvals > p_maxValues) p_maxValues = nvals;
     if (nvals > 0) {
-      int ncols = p_network->getBranch(i)->matrixNumCols();
-      int rmin, rmax;
-      bool isActive = p_network->getActiveBranch(i);
-      if (ncols > 0) {
-        rmin = p_network->getBranch(i)->matrixGetRowIndex(0);
-        rmax = p_network->getBranch(i)->matrixGetRowIndex(ncols-1);
-      }
       gridpack::ComplexType *values = new gridpack::ComplexType[nvals];
       int *rows = new int[nvals];
       int *cols = new int[nvals];
       p_network->getBranch(i)->matrixGetValues(values, rows, cols);
       for (j=0; j<nvals; j++) {
+        // Each row belongs to exactly one process
         if (rows[j] >= p_minRowIndex && rows[j] <= p_maxRowIndex) {
-          if (ncols > 0) {
-            if (cols[j] >= rmin && cols[j] <= rmax) {
-              if (isActive) p_nz_per_row[rows[j]-p_minRowIndex]++;
-            } else {
-              p_nz_per_row[rows[j]-p_minRowIndex]++;
-            }
-          } else {
-            p_nz_per_row[rows[j]-p_minRowIndex]++;
-          }
+          p_nz_per_row[rows[j]-p_minRowIndex]++;
         }
       }
       delete [] rows;
@@ -682,33 +668,13 @@ void loadBranchData(gridpack::math::Matrix &matrix, bool flag)
   for (i=0; i<p_nBranches; i++) {
     nvals = p_network->getBranch(i)->matrixNumValues();
     if (nvals > 0) {
-      int ncols = p_network->getBranch(i)->matrixNumCols();
-      int rmin, rmax;
-      bool isActive = p_network->getActiveBranch(i);
-      if (ncols > 0) {
-        rmin = p_network->getBranch(i)->matrixGetRowIndex(0);
-        rmax = p_network->getBranch(i)->matrixGetRowIndex(ncols-1);
-      }
       p_network->getBranch(i)->matrixGetValues(values,rows,cols);
-      bool addElem;
       for (j=0; j<nvals; j++) {
         if (rows[j] >= p_minRowIndex && rows[j] <= p_maxRowIndex) {
-          addElem = false;
-          if (ncols > 0) {
-            if (cols[j] >= rmin && cols[j] <= rmax) {
-              if (isActive) addElem = true;
-            } else {
-              addElem = true;
-            }
+          if (flag) {
+            matrix.addElement(rows[j],cols[j],values[j]);
           } else {
-            addElem = true;
-          }
-          if (addElem) {
-            if (flag) {
-              matrix.addElement(rows[j],cols[j],values[j]);
-            } else {
-              matrix.setElement(rows[j],cols[j],values[j]);
-            }
+            matrix.setElement(rows[j],cols[j],values[j]);
           }
         }
       }
-- 
2.43.0


From d3f045e08627cf64085a3fa9f47dfd6d71c1bad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 026/140] fix: slab mapper on processes that contribute no rows

---
 src/mapper/gen_slab_map.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mapper/gen_slab_map.hpp b/src/mapper/gen_slab_map.hpp
index 039ca7c..8b59696 100644
--- a/src/mapper/gen_slab_map.hpp
+++ b/src/mapper/gen_slab_map.hpp
@@ -17,6 +17,7 @@
 #ifndef GENSLABMAP_HPP_
 #define GENSLABMAP_HPP_
 
+#include <limits.h>
 #include <boost/smart_ptr/shared_ptr.hpp>
 #include <ga.h>
 #include "gridpack/parallel/parallel.hpp"
@@ -330,8 +331,11 @@ void getDimensions(void)
   int maxCols, minCols;
   if (!okCols) {
     minCols = -1;
-  } else {
+  } else if (nRows > 0) {
     minCols = nCols;
+  } else {
+    // processes that do not contribute any rows accept any number of columns
+    minCols = INT_MAX;
   }
   char cmin[4];
   strcpy(cmin,"min");
@@ -340,15 +344,16 @@ void getDimensions(void)
   char cmax[4];
   strcpy(cmax,"max");
   GA_Pgroup_igop(p_GAgrp, &maxCols, 1, cmax);
-  if (maxCols != minCols) okCols = false;
-  if (!okCols && p_me == 0) {
+  if (minCols != INT_MAX && maxCols != minCols) okCols = false;
+  if (!okCols) {
+    delete [] sizebuf;
     char buf[512];
     sprintf(buf,"(GenSlabMap) Number of columns not uniform across all processors\n");
     throw gridpack::Exception(buf);
   }
   // Get total row dimension and evaluate offsets for processor
   p_Dim = sizebuf[0];
-  p_nColumns = nCols;
+  p_nColumns = maxCols;
   p_Offsets[0] = 0;
   for (i=1; i<p_nNodes; i++) {
     p_Dim += sizebuf[i];
-- 
2.43.0


From d5e98bd86815181771edb4f2044bb1bc9d97e013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 027/140] fix: dense matrices with a process that owns no rows

---
 src/math/petsc/petsc_matrix_implementation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/math/petsc/petsc_matrix_implementation.hpp b/src/math/petsc/petsc_matrix_implementation.hpp
index 91314e8..929d96a 100644
--- a/src/math/petsc/petsc_matrix_implementation.hpp
+++ b/src/math/petsc/petsc_matrix_implementation.hpp
@@ -137,8 +137,10 @@ public:
     try {
       PetscInt grow(global_rows > 0 ? global_rows : PETSC_DETERMINE);
       PetscInt gcol(global_cols > 0 ? global_cols : PETSC_DETERMINE);
-      PetscInt lrow(local_rows > 0 ? local_rows : PETSC_DECIDE);
-      PetscInt lcol(local_cols > 0 ? local_cols : PETSC_DECIDE);
+      // zero local rows (columns) are unspecified only if the global
+      // number of rows (columns) is known
+      PetscInt lrow(local_rows > 0 || global_rows <= 0 ? local_rows : PETSC_DECIDE);
+      PetscInt lcol(local_cols > 0 || global_cols <= 0 ? local_cols : PETSC_DECIDE);
 
       ierr = PetscSplitOwnership(comm, &lrow, &grow); CHKERRXX(ierr);
       ierr = PetscSplitOwnership(comm, &lcol, &gcol); CHKERRXX(ierr);
-- 
2.43.0


From a6df910676f147f3c7df58152b0581075f2b1c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:34 +0000
Subject: [PATCH 028/140] fix: opening a configuration file that does not exist
 reserves no memory for it

---
 src/configuration/configuration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/configuration/configuration.cpp b/src/configuration/configuration.cpp
index c94f611..16014c2 100644
--- a/src/configuration/configuration.cpp
+++ b/src/configuration/configuration.cpp
@@ -116,7 +116,7 @@ bool Configuration::open(const std::string & file) {
      std::cout<<"(Configuration::open) Could not open file "<<file<<std::endl;
    }
    int n = -1;
-	if(!input.bad()) {
+	if(input.is_open() && !input.bad()) {
 		input.seekg(0, std::ios::end);   
 		str.reserve((unsigned) input.tellg());
 		input.seekg(0, std::ios::beg);
-- 
2.43.0


From 519fedce54a8ecbfe39b8ac4e28e22b6dc356b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 029/140] fix: vector operands with another parallel
 distribution

---
 src/math/petsc/petsc_vector.cpp | 75 ++++++++++++++++++++++++++++++---
 1 file changed, 70 insertions(+), 5 deletions(-)

diff --git a/src/math/petsc/petsc_vector.cpp b/src/math/petsc/petsc_vector.cpp
index df04178..f94cdf2 100644
--- a/src/math/petsc/petsc_vector.cpp
+++ b/src/math/petsc/petsc_vector.cpp
@@ -16,6 +16,7 @@
  */
 // -------------------------------------------------------------
 
+#include <algorithm>
 #include <iostream>
 #include "vector.hpp"
 #include "complex_operators.hpp"
@@ -29,6 +30,66 @@ namespace math {
 // -------------------------------------------------------------
 // applyBinaryOperator
 // -------------------------------------------------------------
+// -------------------------------------------------------------
+//  class VectorOperand
+//
+// The operands of vector operations only need to have the same global
+// size.  This provides the second operand with the same parallel
+// distribution as the first.
+// -------------------------------------------------------------
+class VectorOperand
+  : private utility::Uncopyable
+{
+public:
+
+  /// Default constructor
+  VectorOperand(const Vec& y, const Vec& x)
+    : utility::Uncopyable(), p_x(x), p_copy(NULL)
+  {
+    PetscErrorCode ierr(0);
+    MPI_Comm comm;
+    int nproc;
+    const PetscInt *xrange, *yrange;
+    ierr = PetscObjectGetComm((PetscObject)y, &comm); CHKERRXX(ierr);
+    ierr = MPI_Comm_size(comm, &nproc); CHKERRXX(ierr);
+    ierr = VecGetOwnershipRanges(x, &xrange); CHKERRXX(ierr);
+    ierr = VecGetOwnershipRanges(y, &yrange); CHKERRXX(ierr);
+    if (!std::equal(xrange, xrange + nproc + 1, yrange)) {
+      PetscInt lo, hi;
+      IS indexes;
+      VecScatter scatter;
+      ierr = VecDuplicate(y, &p_copy); CHKERRXX(ierr);
+      ierr = VecGetOwnershipRange(p_copy, &lo, &hi); CHKERRXX(ierr);
+      ierr = ISCreateStride(comm, hi - lo, lo, 1, &indexes); CHKERRXX(ierr);
+      ierr = VecScatterCreate(x, indexes, p_copy, indexes, &scatter); CHKERRXX(ierr);
+      ierr = VecScatterBegin(scatter, x, p_copy, INSERT_VALUES, SCATTER_FORWARD); CHKERRXX(ierr);
+      ierr = VecScatterEnd(scatter, x, p_copy, INSERT_VALUES, SCATTER_FORWARD); CHKERRXX(ierr);
+      ierr = VecScatterDestroy(&scatter); CHKERRXX(ierr);
+      ierr = ISDestroy(&indexes); CHKERRXX(ierr);
+      p_x = p_copy;
+    }
+  }
+
+  /// Destructor
+  ~VectorOperand(void)
+  {
+    if (p_copy != NULL) {
+      VecDestroy(&p_copy);
+    }
+  }
+
+  /// Get the operand
+  const Vec *get(void) const
+  {
+    return &p_x;
+  }
+
+protected:
+
+  Vec p_x;                      /**< the vector to use */
+  Vec p_copy;                   /**< the redistributed vector, if any */
+};
+
 template <typename T>
 static void
 applyBinaryOperator(Vec *v1, const Vec *v2, 
@@ -112,14 +173,15 @@ VectorT<T, I>::add(const VectorT<T, I>& x, const VectorT<T, I>::TheType& scale)
   this->p_checkCompatible(x);
   
   PetscErrorCode ierr(0);
-  const Vec *xvec(PETScVector(x));
   Vec *yvec(PETScVector(*this));
   try {
+    VectorOperand operand(*yvec, *PETScVector(x));
+    const Vec *xvec(operand.get());
     if (PETScVectorImplementation<T, I>::useLibrary) {
       PetscScalar alpha =
         gridpack::math::equate<PetscScalar, TheType>(scale);
       // This call computes y = x + alpha*y. Where y is p_vector.  
-      ierr = VecAXPY(*yvec, alpha, *xvec);
+      ierr = VecAXPY(*yvec, alpha, *xvec); CHKERRXX(ierr);
     } else {
       scaleAdd2<T> op(scale);
       applyBinaryOperator<T>(yvec, xvec, op);
@@ -180,8 +242,9 @@ VectorT<T, I>::equate(const VectorT<T, I>& x)
   this->p_checkCompatible(x);
   PetscErrorCode ierr(0);
   Vec *yvec(PETScVector(*this));
-  const Vec *xvec(PETScVector(x));
   try {
+    VectorOperand operand(*yvec, *PETScVector(x));
+    const Vec *xvec(operand.get());
     ierr = VecCopy(*xvec, *yvec); CHKERRXX(ierr);
   } catch (const PETSC_EXCEPTION_TYPE& e) {
     throw PETScException(ierr, e);
@@ -200,9 +263,10 @@ VectorT<T, I>::elementMultiply(const VectorT<T, I>& x)
 {
   this->p_checkCompatible(x);
   Vec *vec(PETScVector(*this));
-  const Vec *xvec(PETScVector(x));
   PetscErrorCode ierr(0);
   try {
+    VectorOperand operand(*vec, *PETScVector(x));
+    const Vec *xvec(operand.get());
     if (PETScVectorImplementation<T, I>::useLibrary) {
       ierr = VecPointwiseMult(*vec, *vec, *xvec); CHKERRXX(ierr);
     } else {
@@ -226,9 +290,10 @@ VectorT<T, I>::elementDivide(const VectorT<T, I>& x)
 {
   this->p_checkCompatible(x);
   Vec *vec(PETScVector(*this));
-  const Vec *xvec(PETScVector(x));
   PetscErrorCode ierr(0);
   try {
+    VectorOperand operand(*vec, *PETScVector(x));
+    const Vec *xvec(operand.get());
     if (PETScVectorImplementation<T, I>::useLibrary) {
       ierr = VecPointwiseDivide(*vec, *vec, *xvec); CHKERRXX(ierr);
     } else {
-- 
2.43.0


From 92b3b278c4a9bdb5ffbc7bb8a4997f9e521797cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 030/140] fix: size of the vector allocated by
 transposeMultiply

---
 src/math/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/matrix.hpp b/src/math/matrix.hpp
index 3b4c58b..1c2f907 100644
--- a/src/math/matrix.hpp
+++ b/src/math/matrix.hpp
@@ -548,7 +548,7 @@ multiply(const MatrixT<T, I>& A, const VectorT<T, I>& x, VectorT<T, I>& result);
  * 
  * @param A 
  * @param x 
- * @param result same size and distribution as @c x
+ * @param result same size and distribution as the columns of @c A
  */
 template <typename T, typename I>
 void 
@@ -683,7 +683,7 @@ VectorT<T, I> *multiply(const MatrixT<T, I>& A, const VectorT<T, I>& x)
 template <typename T, typename I>
 VectorT<T, I> *transposeMultiply(const MatrixT<T, I>& A, const VectorT<T, I>& x)
 {
-  VectorT<T, I> *result(new VectorT<T, I>(x.communicator(), x.localSize()));
+  VectorT<T, I> *result(new VectorT<T, I>(x.communicator(), A.localCols()));
   transposeMultiply<T, I>(A, x, *result);
   return result;
 }
-- 
2.43.0


From 9063a62b9fd484ef73fff53fc03548410e2f393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:22 +0000
Subject: [PATCH 031/140] fix: accept vectors with the same processes in column
 and diagonal

---
 src/math/petsc/petsc_matrix_operations.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/math/petsc/petsc_matrix_operations.cpp b/src/math/petsc/petsc_matrix_operations.cpp
index 5236714..57def5f 100644
--- a/src/math/petsc/petsc_matrix_operations.cpp
+++ b/src/math/petsc/petsc_matrix_operations.cpp
@@ -30,6 +30,20 @@
 namespace gridpack {
 namespace math {
 
+// -------------------------------------------------------------
+// sameProcesses
+//
+// Matrices made by an operation have a communicator of their own, which
+// has the same processes as the communicator of the operands.
+// -------------------------------------------------------------
+static bool
+sameProcesses(const parallel::Communicator& a, const parallel::Communicator& b)
+{
+  int result(MPI_UNEQUAL);
+  MPI_Comm_compare(static_cast<MPI_Comm>(a), static_cast<MPI_Comm>(b), &result);
+  return (result == MPI_IDENT || result == MPI_CONGRUENT);
+}
+
 
 
 // -------------------------------------------------------------
@@ -206,7 +220,7 @@ template <typename T, typename I>
 void
 column(const MatrixT<T, I>& A, const int& cidx, VectorT<T, I>& result)
 {
-  if (result.communicator() != A.communicator()) {
+  if (!sameProcesses(result.communicator(), A.communicator())) {
     throw gridpack::Exception("incompatible: communicators do not match");
   }
 
@@ -250,7 +264,7 @@ template <typename T, typename I>
 void
 diagonal(const MatrixT<T, I>& A, VectorT<T, I>& result)
 {
-  if (result.communicator() != A.communicator()) {
+  if (!sameProcesses(result.communicator(), A.communicator())) {
     throw gridpack::Exception("incompatible: communicators do not match");
   }
 
-- 
2.43.0


From 1dcc5e1fcd010f54efb43b8f82a4317579e6888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 032/140] fix: copy all elements in repeated serial solves

The range given to setElementRange() excludes its end, so the last
element of the right hand side and of the initial guess was never
replaced when a ForceSerial solver was used again.
---
 src/math/linear_solver_implementation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/math/linear_solver_implementation.hpp b/src/math/linear_solver_implementation.hpp
index 1514e7d..89e3b80 100644
--- a/src/math/linear_solver_implementation.hpp
+++ b/src/math/linear_solver_implementation.hpp
@@ -199,7 +199,8 @@ protected:
       p_serialRHS.reset(b.localClone());
     } else {
       b.getAllElements(&p_valueBuffer[0]);
-      p_serialRHS->setElementRange(0, b.size() - 1, &p_valueBuffer[0]);
+      p_serialRHS->setElementRange(0, b.size(), &p_valueBuffer[0]);
+      p_serialRHS->ready();
     }
 
     // Collect the initial guess, if it's not zero
@@ -212,7 +213,8 @@ protected:
     } else {
       if (!p_guessZero) {
         x.getAllElements(&p_valueBuffer[0]);
-        p_serialSolution->setElementRange(0, x.size() - 1, &p_valueBuffer[0]);
+        p_serialSolution->setElementRange(0, x.size(), &p_valueBuffer[0]);
+        p_serialSolution->ready();
       }
     }
   }
-- 
2.43.0


From fcfe24dce1b4e21023379060b1db0a394b8104dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 033/140] fix: initialize the factorization options of the
 matrix solver

---
 src/math/petsc/petsc_linear_matrix_solver_impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/petsc/petsc_linear_matrix_solver_impl.hpp b/src/math/petsc/petsc_linear_matrix_solver_impl.hpp
index ae57717..acdefe5 100644
--- a/src/math/petsc/petsc_linear_matrix_solver_impl.hpp
+++ b/src/math/petsc/petsc_linear_matrix_solver_impl.hpp
@@ -230,6 +230,7 @@ protected:
 
       ierr = MatGetOrdering(*A, p_orderingType, &perm, &iperm); CHKERRXX(ierr);
       ierr = MatGetFactor(*A, p_solverPackage, p_factorType, &p_Fmat);CHKERRXX(ierr);
+      ierr = MatFactorInfoInitialize(&info); CHKERRXX(ierr);
       info.fill = p_fill;
       info.dtcol = (p_pivot ? 1 : 0);
 
-- 
2.43.0


From 584ca45355ab2dbe2d7ffb9019abc17ed0718e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 034/140] fix: report Newton-Raphson iterations that do not
 converge

The solver returned the last iterate as if it were a solution when the
iteration limit was reached or the iteration broke down (not a number).
Callers (nl_solve() in the power flow module) expect an exception.
---
 src/math/newton_raphson_solver_implementation.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/math/newton_raphson_solver_implementation.hpp b/src/math/newton_raphson_solver_implementation.hpp
index eefcb32..d9cf84f 100644
--- a/src/math/newton_raphson_solver_implementation.hpp
+++ b/src/math/newton_raphson_solver_implementation.hpp
@@ -21,7 +21,9 @@
 #define _newton_raphson_solver_implementation_hpp_
 
 #include <iostream>
+#include <boost/format.hpp>
 #include <boost/scoped_ptr.hpp>
+#include <gridpack/utilities/exception.hpp>
 #include "nonlinear_solver_functions.hpp"
 #include "nonlinear_solver_implementation.hpp"
 #include "linear_solver.hpp"
@@ -163,6 +165,12 @@ protected:
                   << std::endl;
       }
     }
+
+    // stol is not a number if the iteration broke down
+    if (!(stol <= this->p_solutionTolerance)) {
+      throw Exception(boost::str(boost::format("Newton-Raphson did not converge in %d iterations, "
+                                               "solution residual norm = %g") % iter % stol));
+    }
   }
 
 };
-- 
2.43.0


From 53dca7d6df1790e03a939b42e1023d5088a0b6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 035/140] fix: count the steps of each call of the DAE solver

solve() took its limit, and reported its number of steps, as counted
since the first call. A second call could stop at once.
---
 src/math/petsc/petsc_dae_solver_implementation.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/math/petsc/petsc_dae_solver_implementation.hpp b/src/math/petsc/petsc_dae_solver_implementation.hpp
index aa1334a..30a9887 100644
--- a/src/math/petsc/petsc_dae_solver_implementation.hpp
+++ b/src/math/petsc/petsc_dae_solver_implementation.hpp
@@ -211,7 +211,10 @@ protected:
   {
     PetscErrorCode ierr(0);
     try {
-      ierr = TSSetMaxSteps(p_ts, maxsteps); CHKERRXX(ierr);
+      // PETSc keeps counting steps over successive calls of TSSolve()
+      PetscInt nstep0;
+      ierr = TSGetStepNumber(p_ts, &nstep0); CHKERRXX(ierr);
+      ierr = TSSetMaxSteps(p_ts, maxsteps < PETSC_MAX_INT - nstep0 ? nstep0 + maxsteps : PETSC_MAX_INT); CHKERRXX(ierr);
       ierr = TSSetMaxTime(p_ts, maxtime); CHKERRXX(ierr);
       ierr = TSSetExactFinalTime(p_ts, TS_EXACTFINALTIME_MATCHSTEP); CHKERRXX(ierr); 
       ierr = TSSolve(p_ts, PETSC_NULL);
@@ -225,7 +228,7 @@ protected:
 
       PetscInt nstep;
       ierr = TSGetStepNumber(p_ts,&nstep);CHKERRXX(ierr);
-      maxsteps = nstep;
+      maxsteps = nstep - nstep0;
 
       if (reason >= 0) {
 
-- 
2.43.0


From 7c5335e8c54111719c3b12bd531181aa274d0fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 036/140] fix: keep the time step after an event of the DAE
 solver

---
 src/math/petsc/petsc_dae_solver_implementation.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/petsc/petsc_dae_solver_implementation.hpp b/src/math/petsc/petsc_dae_solver_implementation.hpp
index 30a9887..0b2db6e 100644
--- a/src/math/petsc/petsc_dae_solver_implementation.hpp
+++ b/src/math/petsc/petsc_dae_solver_implementation.hpp
@@ -197,6 +197,10 @@ protected:
     try {
       ierr = TSSetTime(p_ts, t0); CHKERRXX(ierr);
       ierr = TSSetTimeStep(p_ts, deltat0); CHKERRXX(ierr);
+      if (this->p_eventManager) {
+        // otherwise, the default step when the handler was set is used after events
+        ierr = TSSetPostEventIntervalStep(p_ts, deltat0); CHKERRXX(ierr);
+      }
       Vec *xvec(PETScVector(x0));
       ierr = TSSetSolution(p_ts, *xvec);
     } catch (const PETSC_EXCEPTION_TYPE& e) {
-- 
2.43.0


From 5680938ea9595679f837860b981805655bb31c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 037/140] fix: parse dynamic parameters from a vector of
 strings

PTI33/34/35_parser::parse(vector) calls getDS with the vector, for which there
was no overload, so the method could not be instantiated
---
 src/parser/base_pti_parser.hpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/parser/base_pti_parser.hpp b/src/parser/base_pti_parser.hpp
index ed5f333..205422d 100644
--- a/src/parser/base_pti_parser.hpp
+++ b/src/parser/base_pti_parser.hpp
@@ -24,6 +24,7 @@
 #include <string>
 #include <vector>
 #include <map>
+#include <sstream>
 #ifndef OLD_MAP
 #include <boost/unordered_map.hpp>
 #endif
@@ -394,6 +395,29 @@ class BasePTIParser : public BaseParser<_network>
 #endif
     }
 
+    /**
+     * This routine reads parameters for dynamic simulation from a vector of
+     * strings containing the lines of a .dyr file. It assumes that a .raw
+     * file has already been parsed
+     */
+    void getDS(const std::vector<std::string> & fileVec)
+    {
+      int t_ds = p_timer->createCategory("Parser:getDS");
+      p_timer->start(t_ds);
+      int me(p_network->communicator().rank());
+
+      if (me == 0) {
+        std::stringstream input;
+        int i;
+        int nlines = fileVec.size();
+        for (i=0; i<nlines; i++) {
+          input << fileVec[i] << std::endl;
+        }
+        find_ds_par(input);
+      }
+      p_timer->stop(t_ds);
+    }
+
     // Data structure to hold generator params
     struct gen_params{
       // Generator parameters
@@ -1517,7 +1541,7 @@ class BasePTIParser : public BaseParser<_network>
       return ret;
     }
 
-    void find_ds_par(std::ifstream & input)
+    void find_ds_par(std::istream & input)
     {
       std::string          line;
       gridpack::component::DataCollection *data;
-- 
2.43.0


From 1f32d715dd28406be020979d093fef1007dad900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 038/140] fix: keep one-character and blank quoted strings in
 raw files

check_string cleared a quoted string of one character (bus name 'A' was lost
and could not be used to refer to the bus) and remove_blanks read before the
start of a blank string and threw
---
 src/parser/block_parsers/base_block_parser.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parser/block_parsers/base_block_parser.cpp b/src/parser/block_parsers/base_block_parser.cpp
index 7c159e6..387947b 100644
--- a/src/parser/block_parsers/base_block_parser.cpp
+++ b/src/parser/block_parsers/base_block_parser.cpp
@@ -57,9 +57,12 @@ bool gridpack::parser::BaseBlockParser::check_comment(std::string &str) const
  */
 void gridpack::parser::BaseBlockParser::remove_blanks(std::string &str)
 {
-  int ntok1 = str.find_first_not_of(' ',0);
-  int ntok2 = str.length()-1;
-  while (str[ntok2] == ' ') {ntok2--;}
+  std::string::size_type ntok1 = str.find_first_not_of(' ',0);
+  if (ntok1 == std::string::npos) {
+    str.clear();
+    return;
+  }
+  std::string::size_type ntok2 = str.find_last_not_of(' ');
   str = str.substr(ntok1, ntok2-ntok1+1);
 }
 
@@ -106,10 +109,10 @@ bool gridpack::parser::BaseBlockParser::check_string(std::string &str)
   if (ntok1 != std::string::npos && str[ntok1] == '\'') {
     ntok1++;
     int ntok2 = str.find_first_of('\'',ntok1);
-    if (ntok2-ntok1 > 1 && ntok2 != std::string::npos) {
+    if (ntok2-ntok1 > 0 && ntok2 != std::string::npos) {
       ntok2--;
       str = str.substr(ntok1, ntok2-ntok1+1);
-    } else if (ntok2 == std::string::npos && str.length()-1 - ntok1 > 1) {
+    } else if (ntok2 == std::string::npos && ntok1 < str.length()) {
       ntok2 = str.length()-1;
       str = str.substr(ntok1, ntok2-ntok1+1);
     } else {
-- 
2.43.0


From 56fb5a24ff059cfa6f670bc20df37103b3874d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 039/140] fix: consider all quoted strings when removing
 comments from raw records

Only the first quoted string of a record was considered: a '/' in a later one
truncated the record, and a '/' in the first one kept a trailing comment
---
 .../block_parsers/base_block_parser.cpp       | 33 +++++++------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/parser/block_parsers/base_block_parser.cpp b/src/parser/block_parsers/base_block_parser.cpp
index 387947b..80a8bb9 100644
--- a/src/parser/block_parsers/base_block_parser.cpp
+++ b/src/parser/block_parsers/base_block_parser.cpp
@@ -166,28 +166,19 @@ void gridpack::parser::BaseBlockParser::parseBusName(
  */
 void gridpack::parser::BaseBlockParser::cleanComment(std::string &string)
 {
-  int idx = string.find_first_of('/',0);
-  if (idx != std::string::npos) {
-    // check to see if '/' character is between two quotes
-    bool squote = true;
-    int d1 = string.find_first_of('\'',0);
-    if (d1 == std::string::npos) {
-      d1 = string.find_first_of('\"',0);
-      if (d1 != std::string::npos) squote = false;
+  std::string::size_type i;
+  char quote = ' ';
+  for (i=0; i<string.length(); i++) {
+    if (quote != ' ') {
+      // inside a text string, look for matching quote
+      if (string[i] == quote) quote = ' ';
+    } else if (string[i] == '\'' || string[i] == '\"') {
+      // only treat this as the start of a text string if it is terminated
+      if (string.find(string[i],i+1) != std::string::npos) quote = string[i];
+    } else if (string[i] == '/') {
+      string.erase(i);
+      return;
     }
-    int d2 = d1;
-    if (d1 != std::string::npos) {
-      if (squote) {
-        if (string.length() > d1+1) d2 = string.find_first_of('\'',d1+1);
-      } else {
-        if (string.length() > d1+1) d2 = string.find_first_of('\"',d1+1);
-      }
-    }
-    // if '/' is between two quotes, return
-    if (d1 != std::string::npos && d2 != std::string::npos
-        && d1 < idx && idx < d2) return;
-    int len = string.length()-idx;
-    string.erase(idx,len);
   }
 }
 
-- 
2.43.0


From 6f03c38bab791eeb321fe477093514baf7aae586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 040/140] fix: skip comment lines within transformer records of
 raw files

---
 .../block_parsers/base_block_parser.cpp       | 14 +++++
 .../block_parsers/base_block_parser.hpp       |  9 ++++
 .../block_parsers/transformer_parser33.cpp    | 54 +++++--------------
 .../block_parsers/transformer_parser34.cpp    | 54 +++++--------------
 .../block_parsers/transformer_parser35.cpp    | 54 +++++--------------
 5 files changed, 62 insertions(+), 123 deletions(-)

diff --git a/src/parser/block_parsers/base_block_parser.cpp b/src/parser/block_parsers/base_block_parser.cpp
index 80a8bb9..1508497 100644
--- a/src/parser/block_parsers/base_block_parser.cpp
+++ b/src/parser/block_parsers/base_block_parser.cpp
@@ -51,6 +51,20 @@ bool gridpack::parser::BaseBlockParser::check_comment(std::string &str) const
   return false;
 }
 
+/**
+ * Read the next line of a record that extends over several lines. Comment
+ * lines are skipped
+ * @param stream input stream that feeds lines from RAW file
+ * @param line next line that is not a comment
+ */
+void gridpack::parser::BaseBlockParser::nextRecordLine(
+    gridpack::stream::InputStream &stream, std::string &line) const
+{
+  while (stream.nextLine(line) && check_comment(line)) {
+    // skip comments
+  }
+}
+
 /**
  * Remove leading and trailing blanks
  * @param str input string
diff --git a/src/parser/block_parsers/base_block_parser.hpp b/src/parser/block_parsers/base_block_parser.hpp
index d1cea2d..fb2faa5 100644
--- a/src/parser/block_parsers/base_block_parser.hpp
+++ b/src/parser/block_parsers/base_block_parser.hpp
@@ -53,6 +53,15 @@ class BaseBlockParser{
    */
   bool check_comment(std::string &str) const;
 
+  /**
+   * Read the next line of a record that extends over several lines. Comment
+   * lines are skipped
+   * @param stream input stream that feeds lines from RAW file
+   * @param line next line that is not a comment
+   */
+  void nextRecordLine(gridpack::stream::InputStream &stream,
+      std::string &line) const;
+
   /**
    * Remove leading and trailing blanks
    * @param str input string
diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index aa84a90..8345f6d 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -80,21 +80,17 @@ void gridpack::parser::TransformerParser33::parse(
     if (k != 0) {
       if (wind3X) {
         int o_idx3 = k;
-        stream.nextLine(line);
+        nextRecordLine(stream,line);
         std::vector<std::string>  split_line2;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
         this->cleanComment(line);
         split_line2 = this->splitPSSELine(line);
         // Check to see if transformer is active
         int stat;
         stat = atoi(split_line[11].c_str());
         if (split_line2.size() < 4 || stat == 0) {
-          stream.nextLine(line);
-          stream.nextLine(line);
-          stream.nextLine(line);
+          nextRecordLine(stream,line);
+          nextRecordLine(stream,line);
+          nextRecordLine(stream,line);
           stream.nextLine(line);
           continue;
         }
@@ -210,12 +206,8 @@ void gridpack::parser::TransformerParser33::parse(
         boost::shared_ptr<gridpack::component::DataCollection>
           data1(new gridpack::component::DataCollection);
         p_branchData.push_back(data1);
-        stream.nextLine(line);
+        nextRecordLine(stream,line);
         std::vector<std::string> split_line3;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
         this->cleanComment(line);
         split_line3 = this->splitPSSELine(line);
         double windv, ang, ratea, rateb, ratec;
@@ -249,12 +241,8 @@ void gridpack::parser::TransformerParser33::parse(
         boost::shared_ptr<gridpack::component::DataCollection>
           data2(new gridpack::component::DataCollection);
         p_branchData.push_back(data2);
-        stream.nextLine(line);
+        nextRecordLine(stream,line);
         std::vector<std::string> split_line4;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
         this->cleanComment(line);
         split_line4 = this->splitPSSELine(line);
         parse3WindXForm(split_line4, &windv, &ang, &ratea, &rateb, &ratec);
@@ -287,12 +275,8 @@ void gridpack::parser::TransformerParser33::parse(
         boost::shared_ptr<gridpack::component::DataCollection>
           data3(new gridpack::component::DataCollection);
         p_branchData.push_back(data3);
-        stream.nextLine(line);
+        nextRecordLine(stream,line);
         std::vector<std::string> split_line5;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
         this->cleanComment(line);
         split_line5 = this->splitPSSELine(line);
         parse3WindXForm(split_line5, &windv, &ang, &ratea, &rateb, &ratec);
@@ -321,38 +305,26 @@ void gridpack::parser::TransformerParser33::parse(
         }
       } else {
         // Skip 3-winding transformers (for now)
-        stream.nextLine(line);
-        stream.nextLine(line);
-        stream.nextLine(line);
+        nextRecordLine(stream,line);
+        nextRecordLine(stream,line);
+        nextRecordLine(stream,line);
         stream.nextLine(line);
         continue;
       }
     } else {
       int ntoken = split_line.size();
-      stream.nextLine(line);
+      nextRecordLine(stream,line);
       std::vector<std::string>  split_line2;
-      if (check_comment(line)) {
-        stream.nextLine(line);
-        continue;
-      }
       this->cleanComment(line);
       split_line2 = this->splitPSSELine(line);
 
-      stream.nextLine(line);
+      nextRecordLine(stream,line);
       std::vector<std::string>  split_line3;
-      if (check_comment(line)) {
-        stream.nextLine(line);
-        continue;
-      }
       this->cleanComment(line);
       split_line3 = this->splitPSSELine(line);
 
-      stream.nextLine(line);
+      nextRecordLine(stream,line);
       std::vector<std::string>  split_line4;
-      if (check_comment(line)) {
-        stream.nextLine(line);
-        continue;
-      }
       this->cleanComment(line);
       split_line4 = this->splitPSSELine(line);
       // find branch corresponding to this transformer line. If it doesn't
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 8669214..95b3b52 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -81,21 +81,17 @@ void gridpack::parser::TransformerParser34::parse(
     if (k != 0) {
       if (wind3X) {
         int o_idx3 = k;
-        stream.nextLine(line);
+        nextRecordLine(stream,line);
         std::vector<std::string>  split_line2;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
         this->cleanComment(line);
         split_line2 = this->splitPSSELine(line);
         // Check to see if transformer is active
         int stat;
         stat = atoi(split_line[11].c_str());
         if (split_line2.size() < 4 || stat == 0) {
-          stream.nextLine(line);
-          stream.nextLine(line);
-          stream.nextLine(line);
+          nextRecordLine(stream,line);
+          nextRecordLine(stream,line);
+          nextRecordLine(stream,line);
           stream.nextLine(line);
           continue;
         }
@@ -211,12 +207,8 @@ void gridpack::parser::TransformerParser34::parse(
         boost::shared_ptr<gridpack::component::DataCollection>
           data1(new gridpack::component::DataCollection);
         p_branchData.push_back(data1);
-        stream.nextLine(line);
+        nextRecordLine(stream,line);
         std::vector<std::string> split_line3;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
         this->cleanComment(line);
         split_line3 = this->splitPSSELine(line);
         double windv, ang, rate[12];
@@ -262,12 +254,8 @@ void gridpack::parser::TransformerParser34::parse(
         boost::shared_ptr<gridpack::component::DataCollection>
           data2(new gridpack::component::DataCollection);
         p_branchData.push_back(data2);
-        stream.nextLine(line);
+        nextRecordLine(stream,line);
         std::vector<std::string> split_line4;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
         this->cleanComment(line);
         split_line4 = this->splitPSSELine(line);
         parse3WindXForm(split_line4, &windv, &ang, rate);
@@ -312,12 +300,8 @@ void gridpack::parser::TransformerParser34::parse(
         boost::shared_ptr<gridpack::component::DataCollection>
           data3(new gridpack::component::DataCollection);
         p_branchData.push_back(data3);
-        stream.nextLine(line);
+        nextRecordLine(stream,line);
         std::vector<std::string> split_line5;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
         this->cleanComment(line);
         split_line5 = this->splitPSSELine(line);
         parse3WindXForm(split_line5, &windv, &ang, rate);
@@ -358,38 +342,26 @@ void gridpack::parser::TransformerParser34::parse(
         }
       } else {
         // Skip 3-winding transformers (for now)
-        stream.nextLine(line);
-        stream.nextLine(line);
-        stream.nextLine(line);
+        nextRecordLine(stream,line);
+        nextRecordLine(stream,line);
+        nextRecordLine(stream,line);
         stream.nextLine(line);
         continue;
       }
     } else {
       int ntoken = split_line.size();
-      stream.nextLine(line);
+      nextRecordLine(stream,line);
       std::vector<std::string>  split_line2;
-      if (check_comment(line)) {
-        stream.nextLine(line);
-        continue;
-      }
       this->cleanComment(line);
       split_line2 = this->splitPSSELine(line);
 
-      stream.nextLine(line);
+      nextRecordLine(stream,line);
       std::vector<std::string>  split_line3;
-      if (check_comment(line)) {
-        stream.nextLine(line);
-        continue;
-      }
       this->cleanComment(line);
       split_line3 = this->splitPSSELine(line);
 
-      stream.nextLine(line);
+      nextRecordLine(stream,line);
       std::vector<std::string>  split_line4;
-      if (check_comment(line)) {
-        stream.nextLine(line);
-        continue;
-      }
       this->cleanComment(line);
       split_line4 = this->splitPSSELine(line);
       // find branch corresponding to this transformer line. If it doesn't
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index db42c33..58cda26 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -80,21 +80,17 @@ void gridpack::parser::TransformerParser35::parse(
     if (k != 0) {
       if (wind3X) {
         int o_idx3 = k;
-        stream.nextLine(line);
+        nextRecordLine(stream,line);
         std::vector<std::string>  split_line2;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
         this->cleanComment(line);
         split_line2 = this->splitPSSELine(line);
         // Check to see if transformer is active
         int stat;
         stat = atoi(split_line[11].c_str());
         if (split_line2.size() < 4 || stat == 0) {
-          stream.nextLine(line);
-          stream.nextLine(line);
-          stream.nextLine(line);
+          nextRecordLine(stream,line);
+          nextRecordLine(stream,line);
+          nextRecordLine(stream,line);
           stream.nextLine(line);
           continue;
         }
@@ -210,12 +206,8 @@ void gridpack::parser::TransformerParser35::parse(
         boost::shared_ptr<gridpack::component::DataCollection>
           data1(new gridpack::component::DataCollection);
         p_branchData.push_back(data1);
-        stream.nextLine(line);
+        nextRecordLine(stream,line);
         std::vector<std::string> split_line3;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
         this->cleanComment(line);
         split_line3 = this->splitPSSELine(line);
         double windv, ang, rate[12];
@@ -261,12 +253,8 @@ void gridpack::parser::TransformerParser35::parse(
         boost::shared_ptr<gridpack::component::DataCollection>
           data2(new gridpack::component::DataCollection);
         p_branchData.push_back(data2);
-        stream.nextLine(line);
+        nextRecordLine(stream,line);
         std::vector<std::string> split_line4;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
         this->cleanComment(line);
         split_line4 = this->splitPSSELine(line);
         parse3WindXForm(split_line4, &windv, &ang, rate);
@@ -311,12 +299,8 @@ void gridpack::parser::TransformerParser35::parse(
         boost::shared_ptr<gridpack::component::DataCollection>
           data3(new gridpack::component::DataCollection);
         p_branchData.push_back(data3);
-        stream.nextLine(line);
+        nextRecordLine(stream,line);
         std::vector<std::string> split_line5;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
         this->cleanComment(line);
         split_line5 = this->splitPSSELine(line);
         parse3WindXForm(split_line5, &windv, &ang, rate);
@@ -357,38 +341,26 @@ void gridpack::parser::TransformerParser35::parse(
         }
       } else {
         // Skip 3-winding transformers (for now)
-        stream.nextLine(line);
-        stream.nextLine(line);
-        stream.nextLine(line);
+        nextRecordLine(stream,line);
+        nextRecordLine(stream,line);
+        nextRecordLine(stream,line);
         stream.nextLine(line);
         continue;
       }
     } else {
       int ntoken = split_line.size();
-      stream.nextLine(line);
+      nextRecordLine(stream,line);
       std::vector<std::string>  split_line2;
-      if (check_comment(line)) {
-        stream.nextLine(line);
-        continue;
-      }
       this->cleanComment(line);
       split_line2 = this->splitPSSELine(line);
 
-      stream.nextLine(line);
+      nextRecordLine(stream,line);
       std::vector<std::string>  split_line3;
-      if (check_comment(line)) {
-        stream.nextLine(line);
-        continue;
-      }
       this->cleanComment(line);
       split_line3 = this->splitPSSELine(line);
 
-      stream.nextLine(line);
+      nextRecordLine(stream,line);
       std::vector<std::string>  split_line4;
-      if (check_comment(line)) {
-        stream.nextLine(line);
-        continue;
-      }
       this->cleanComment(line);
       split_line4 = this->splitPSSELine(line);
       // find branch corresponding to this transformer line. If it doesn't
-- 
2.43.0


From e4a71198f87d05b0fc6c506a457665945a696724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 041/140] fix: store orientation and index of the branches of
 transformers

---
 src/parser/block_parsers/transformer_parser33.cpp | 12 ++++--------
 src/parser/block_parsers/transformer_parser34.cpp | 12 ++++--------
 src/parser/block_parsers/transformer_parser35.cpp | 12 ++++--------
 3 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index 8345f6d..9c4d5a8 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -58,9 +58,6 @@ void gridpack::parser::TransformerParser33::parse(
 
   std::pair<int, int>   branch_pair;
 
-  // Save current number of branches
-  int index = p_branchData.size();
-
   bool wind3X = true;
 
   while(test_end(line)) {
@@ -365,7 +362,7 @@ void gridpack::parser::TransformerParser33::parse(
       if (nelems == 0) {
         // BRANCH_INDEX                   integer
         p_branchData[l_idx]->addValue(BRANCH_INDEX,
-            index);
+            l_idx);
 
         // BRANCH_FROMBUS            "I"  integer
         p_branchData[l_idx]->addValue(BRANCH_FROMBUS,
@@ -375,12 +372,11 @@ void gridpack::parser::TransformerParser33::parse(
         p_branchData[l_idx]->addValue(BRANCH_TOBUS,
             o_idx2);
 
-        // add pair to branch map
-        p_branchMap->insert(std::pair<std::pair<int,int>,int >
-            (branch_pair, index));
-        index++;
       }
 
+      // BRANCH_SWITCHED
+      p_branchData[l_idx]->addValue(BRANCH_SWITCHED, switched, nelems);
+
       // Clean up 2 character tag
       gridpack::utility::StringUtils util;
       std::string tag = util.clean2Char(split_line[3]);
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 95b3b52..dfdc221 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -59,9 +59,6 @@ void gridpack::parser::TransformerParser34::parse(
 
   std::pair<int, int>   branch_pair;
 
-  // Save current number of branches
-  int index = p_branchData.size();
-
   bool wind3X = true;
 
   while(test_end(line)) {
@@ -402,7 +399,7 @@ void gridpack::parser::TransformerParser34::parse(
       if (nelems == 0) {
         // BRANCH_INDEX                   integer
         p_branchData[l_idx]->addValue(BRANCH_INDEX,
-            index);
+            l_idx);
 
         // BRANCH_FROMBUS            "I"  integer
         p_branchData[l_idx]->addValue(BRANCH_FROMBUS,
@@ -412,12 +409,11 @@ void gridpack::parser::TransformerParser34::parse(
         p_branchData[l_idx]->addValue(BRANCH_TOBUS,
             o_idx2);
 
-        // add pair to branch map
-        p_branchMap->insert(std::pair<std::pair<int,int>,int >
-            (branch_pair, index));
-        index++;
       }
 
+      // BRANCH_SWITCHED
+      p_branchData[l_idx]->addValue(BRANCH_SWITCHED, switched, nelems);
+
       // Clean up 2 character tag
       gridpack::utility::StringUtils util;
       std::string tag = util.clean2Char(split_line[3]);
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index 58cda26..9869126 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -58,9 +58,6 @@ void gridpack::parser::TransformerParser35::parse(
 
   std::pair<int, int>   branch_pair;
 
-  // Save current number of branches
-  int index = p_branchData.size();
-
   bool wind3X = true;
 
   while(test_end(line)) {
@@ -401,7 +398,7 @@ void gridpack::parser::TransformerParser35::parse(
       if (nelems == 0) {
         // BRANCH_INDEX                   integer
         p_branchData[l_idx]->addValue(BRANCH_INDEX,
-            index);
+            l_idx);
 
         // BRANCH_FROMBUS            "I"  integer
         p_branchData[l_idx]->addValue(BRANCH_FROMBUS,
@@ -411,12 +408,11 @@ void gridpack::parser::TransformerParser35::parse(
         p_branchData[l_idx]->addValue(BRANCH_TOBUS,
             o_idx2);
 
-        // add pair to branch map
-        p_branchMap->insert(std::pair<std::pair<int,int>,int >
-            (branch_pair, index));
-        index++;
       }
 
+      // BRANCH_SWITCHED
+      p_branchData[l_idx]->addValue(BRANCH_SWITCHED, switched, nelems);
+
       // Clean up 2 character tag
       gridpack::utility::StringUtils util;
       std::string tag = util.clean2Char(split_line[3]);
-- 
2.43.0


From 90b866fc03714d0fed13c83a4a3de0233fe91411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 042/140] fix: convert transformer impedances given on the
 winding base to the system base

---
 .../block_parsers/transformer_parser33.cpp    | 36 ++++++++++---------
 .../block_parsers/transformer_parser34.cpp    | 36 ++++++++++---------
 .../block_parsers/transformer_parser35.cpp    | 36 ++++++++++---------
 3 files changed, 60 insertions(+), 48 deletions(-)

diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index 9c4d5a8..b622945 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -175,6 +175,22 @@ void gridpack::parser::TransformerParser33::parse(
         r31 = atof(split_line2[6].c_str());
         x31 = atof(split_line2[7].c_str());
         sb31 = atof(split_line2[8].c_str());
+        // impedances are given on the winding base if CZ is 2. Convert them to
+        // the system base
+        if (atoi(split_line[5].c_str()) == 2) {
+          if (sb12 != p_case_sbase && sb12 != 0.0) {
+            r12 = r12*p_case_sbase/sb12;
+            x12 = x12*p_case_sbase/sb12;
+          }
+          if (sb23 != p_case_sbase && sb23 != 0.0) {
+            r23 = r23*p_case_sbase/sb23;
+            x23 = x23*p_case_sbase/sb23;
+          }
+          if (sb31 != p_case_sbase && sb31 != 0.0) {
+            r31 = r31*p_case_sbase/sb31;
+            x31 = x31*p_case_sbase/sb31;
+          }
+        }
         r1 = 0.5*(r12+r31-r23);
         x1 = 0.5*(x12+x31-x23);
         b1 = 0.0;
@@ -184,19 +200,6 @@ void gridpack::parser::TransformerParser33::parse(
         r3 = 0.5*(r23+r31-r12);
         x3 = 0.5*(x23+x31-x12);
         b3 = 0.0;
-        // correct R and X values, if necessary
-        if (sb12 != p_case_sbase && sb12 == 0.0) {
-          r1 = r1*p_case_sbase/sb12;
-          x1 = x1*p_case_sbase/sb12;
-        }
-        if (sb23 != p_case_sbase && sb23 == 0.0) {
-          r2 = r2*p_case_sbase/sb23;
-          x2 = x2*p_case_sbase/sb23;
-        }
-        if (sb31 != p_case_sbase && sb31 == 0.0) {
-          r3 = r3*p_case_sbase/sb31;
-          x3 = x3*p_case_sbase/sb31;
-        }
 
         // create branch between new bus and bus I
         int index = p_branchData.size();
@@ -396,8 +399,9 @@ void gridpack::parser::TransformerParser33::parse(
        * type: integer
        * TRANSFORMER_CZ
        */
+      int cz = atoi(split_line[5].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_CZ,
-          atoi(split_line[5].c_str()),nelems);
+          cz,nelems);
 
       /*
        * type: integer
@@ -533,7 +537,7 @@ void gridpack::parser::TransformerParser33::parse(
       double rval = atof(split_line2[0].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_R1_2,rval,nelems);
       rval  = rval * windv2 * windv2; // need to consider the wnd2 ratio to the req of the transformer
-      if (sbase2 == p_case_sbase || sbase2 == 0.0) {
+      if (cz != 2 || sbase2 == p_case_sbase || sbase2 == 0.0) {
         p_branchData[l_idx]->addValue(BRANCH_R,rval,nelems);
       } else {
         rval = rval*p_case_sbase/sbase2;
@@ -548,7 +552,7 @@ void gridpack::parser::TransformerParser33::parse(
       rval = atof(split_line2[1].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_X1_2,rval,nelems);
       rval  = rval * windv2 * windv2; // need to consider the wnd2 ratio to the xeq of the transformer
-      if (sbase2 == p_case_sbase || sbase2 == 0.0) {
+      if (cz != 2 || sbase2 == p_case_sbase || sbase2 == 0.0) {
         p_branchData[l_idx]->addValue(BRANCH_X,rval,nelems);
       } else {
         rval = rval*p_case_sbase/sbase2;
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index dfdc221..fd7051f 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -176,6 +176,22 @@ void gridpack::parser::TransformerParser34::parse(
         r31 = atof(split_line2[6].c_str());
         x31 = atof(split_line2[7].c_str());
         sb31 = atof(split_line2[8].c_str());
+        // impedances are given on the winding base if CZ is 2. Convert them to
+        // the system base
+        if (atoi(split_line[5].c_str()) == 2) {
+          if (sb12 != p_case_sbase && sb12 != 0.0) {
+            r12 = r12*p_case_sbase/sb12;
+            x12 = x12*p_case_sbase/sb12;
+          }
+          if (sb23 != p_case_sbase && sb23 != 0.0) {
+            r23 = r23*p_case_sbase/sb23;
+            x23 = x23*p_case_sbase/sb23;
+          }
+          if (sb31 != p_case_sbase && sb31 != 0.0) {
+            r31 = r31*p_case_sbase/sb31;
+            x31 = x31*p_case_sbase/sb31;
+          }
+        }
         r1 = 0.5*(r12+r31-r23);
         x1 = 0.5*(x12+x31-x23);
         b1 = 0.0;
@@ -185,19 +201,6 @@ void gridpack::parser::TransformerParser34::parse(
         r3 = 0.5*(r23+r31-r12);
         x3 = 0.5*(x23+x31-x12);
         b3 = 0.0;
-        // correct R and X values, if necessary
-        if (sb12 != p_case_sbase && sb12 == 0.0) {
-          r1 = r1*p_case_sbase/sb12;
-          x1 = x1*p_case_sbase/sb12;
-        }
-        if (sb23 != p_case_sbase && sb23 == 0.0) {
-          r2 = r2*p_case_sbase/sb23;
-          x2 = x2*p_case_sbase/sb23;
-        }
-        if (sb31 != p_case_sbase && sb31 == 0.0) {
-          r3 = r3*p_case_sbase/sb31;
-          x3 = x3*p_case_sbase/sb31;
-        }
 
         // create branch between new bus and bus I
         int index = p_branchData.size();
@@ -433,8 +436,9 @@ void gridpack::parser::TransformerParser34::parse(
        * type: integer
        * TRANSFORMER_CZ
        */
+      int cz = atoi(split_line[5].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_CZ,
-          atoi(split_line[5].c_str()),nelems);
+          cz,nelems);
 
       /*
        * type: integer
@@ -568,7 +572,7 @@ void gridpack::parser::TransformerParser34::parse(
       double rval = atof(split_line2[0].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_R1_2,rval,nelems);
       rval  = rval * windv2 * windv2; // need to consider the wnd2 ratio to the req of the transformer
-      if (sbase2 == p_case_sbase || sbase2 == 0.0) {
+      if (cz != 2 || sbase2 == p_case_sbase || sbase2 == 0.0) {
         p_branchData[l_idx]->addValue(BRANCH_R,rval,nelems);
       } else {
         rval = rval*p_case_sbase/sbase2;
@@ -583,7 +587,7 @@ void gridpack::parser::TransformerParser34::parse(
       rval = atof(split_line2[1].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_X1_2,rval,nelems);
       rval  = rval * windv2 * windv2; // need to consider the wnd2 ratio to the xeq of the transformer
-      if (sbase2 == p_case_sbase || sbase2 == 0.0) {
+      if (cz != 2 || sbase2 == p_case_sbase || sbase2 == 0.0) {
         p_branchData[l_idx]->addValue(BRANCH_X,rval,nelems);
       } else {
         rval = rval*p_case_sbase/sbase2;
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index 9869126..27bd0b7 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -175,6 +175,22 @@ void gridpack::parser::TransformerParser35::parse(
         r31 = atof(split_line2[6].c_str());
         x31 = atof(split_line2[7].c_str());
         sb31 = atof(split_line2[8].c_str());
+        // impedances are given on the winding base if CZ is 2. Convert them to
+        // the system base
+        if (atoi(split_line[5].c_str()) == 2) {
+          if (sb12 != p_case_sbase && sb12 != 0.0) {
+            r12 = r12*p_case_sbase/sb12;
+            x12 = x12*p_case_sbase/sb12;
+          }
+          if (sb23 != p_case_sbase && sb23 != 0.0) {
+            r23 = r23*p_case_sbase/sb23;
+            x23 = x23*p_case_sbase/sb23;
+          }
+          if (sb31 != p_case_sbase && sb31 != 0.0) {
+            r31 = r31*p_case_sbase/sb31;
+            x31 = x31*p_case_sbase/sb31;
+          }
+        }
         r1 = 0.5*(r12+r31-r23);
         x1 = 0.5*(x12+x31-x23);
         b1 = 0.0;
@@ -184,19 +200,6 @@ void gridpack::parser::TransformerParser35::parse(
         r3 = 0.5*(r23+r31-r12);
         x3 = 0.5*(x23+x31-x12);
         b3 = 0.0;
-        // correct R and X values, if necessary
-        if (sb12 != p_case_sbase && sb12 == 0.0) {
-          r1 = r1*p_case_sbase/sb12;
-          x1 = x1*p_case_sbase/sb12;
-        }
-        if (sb23 != p_case_sbase && sb23 == 0.0) {
-          r2 = r2*p_case_sbase/sb23;
-          x2 = x2*p_case_sbase/sb23;
-        }
-        if (sb31 != p_case_sbase && sb31 == 0.0) {
-          r3 = r3*p_case_sbase/sb31;
-          x3 = x3*p_case_sbase/sb31;
-        }
 
         // create branch between new bus and bus I
         int index = p_branchData.size();
@@ -432,8 +435,9 @@ void gridpack::parser::TransformerParser35::parse(
        * type: integer
        * TRANSFORMER_CZ
        */
+      int cz = atoi(split_line[5].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_CZ,
-          atoi(split_line[5].c_str()),nelems);
+          cz,nelems);
 
       /*
        * type: integer
@@ -567,7 +571,7 @@ void gridpack::parser::TransformerParser35::parse(
       double rval = atof(split_line2[0].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_R1_2,rval,nelems);
       rval  = rval * windv2 * windv2; // need to consider the wnd2 ratio to the req of the transformer
-      if (sbase2 == p_case_sbase || sbase2 == 0.0) {
+      if (cz != 2 || sbase2 == p_case_sbase || sbase2 == 0.0) {
         p_branchData[l_idx]->addValue(BRANCH_R,rval,nelems);
       } else {
         rval = rval*p_case_sbase/sbase2;
@@ -582,7 +586,7 @@ void gridpack::parser::TransformerParser35::parse(
       rval = atof(split_line2[1].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_X1_2,rval,nelems);
       rval  = rval * windv2 * windv2; // need to consider the wnd2 ratio to the xeq of the transformer
-      if (sbase2 == p_case_sbase || sbase2 == 0.0) {
+      if (cz != 2 || sbase2 == p_case_sbase || sbase2 == 0.0) {
         p_branchData[l_idx]->addValue(BRANCH_X,rval,nelems);
       } else {
         rval = rval*p_case_sbase/sbase2;
-- 
2.43.0


From 42edeff31926f729cc463db4b999c1592ad8401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 043/140] fix: winding ratios of transformers with voltages
 given in kV

---
 .../block_parsers/base_block_parser.cpp       | 24 +++++++++++++++++++
 .../block_parsers/base_block_parser.hpp       | 14 +++++++++++
 .../block_parsers/transformer_parser33.cpp    | 17 +++++++++++--
 .../block_parsers/transformer_parser34.cpp    | 17 +++++++++++--
 .../block_parsers/transformer_parser35.cpp    | 21 ++++++++++++----
 5 files changed, 85 insertions(+), 8 deletions(-)

diff --git a/src/parser/block_parsers/base_block_parser.cpp b/src/parser/block_parsers/base_block_parser.cpp
index 1508497..e46b870 100644
--- a/src/parser/block_parsers/base_block_parser.cpp
+++ b/src/parser/block_parsers/base_block_parser.cpp
@@ -264,3 +264,27 @@ int gridpack::parser::BaseBlockParser::getBusIndex(std::string str)
     return abs(atoi(str.c_str()));
   }
 }
+
+/**
+ * Convert winding voltage of a transformer that is given in kV to a ratio
+ * @param windv winding voltage (kV)
+ * @param nomv nominal voltage of winding (kV). If this is zero, the base
+ *             voltage of the bus is used
+ * @param idx index (in RAW file) of bus that winding is connected to
+ * @param busData vector of bus data collection objects
+ * @return winding voltage divided by nominal voltage
+ */
+double gridpack::parser::BaseBlockParser::getWindingRatio(double windv,
+    double nomv, int idx,
+    const std::vector<boost::shared_ptr<gridpack::component::DataCollection> >
+    &busData) const
+{
+  if (nomv == 0.0) {
+    std::map<int,int>::const_iterator it = p_busMap->find(idx);
+    if (it != p_busMap->end()) {
+      busData[it->second]->getValue(BUS_BASEKV,&nomv);
+    }
+  }
+  if (nomv == 0.0) return windv;
+  return windv/nomv;
+}
diff --git a/src/parser/block_parsers/base_block_parser.hpp b/src/parser/block_parsers/base_block_parser.hpp
index fb2faa5..27ad766 100644
--- a/src/parser/block_parsers/base_block_parser.hpp
+++ b/src/parser/block_parsers/base_block_parser.hpp
@@ -123,6 +123,20 @@ class BaseBlockParser{
    * quotes, find the corresponding index in the p_nameMap data structure
    */
   int getBusIndex(std::string str);
+
+  /**
+   * Convert winding voltage of a transformer that is given in kV to a ratio
+   * @param windv winding voltage (kV)
+   * @param nomv nominal voltage of winding (kV). If this is zero, the base
+   *             voltage of the bus is used
+   * @param idx index (in RAW file) of bus that winding is connected to
+   * @param busData vector of bus data collection objects
+   * @return winding voltage divided by nominal voltage
+   */
+  double getWindingRatio(double windv, double nomv,
+      int idx,
+      const std::vector<boost::shared_ptr<gridpack::component::DataCollection> >
+      &busData) const;
   
 protected:
   std::map<int,int> *p_busMap;
diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index b622945..e7b5777 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -156,6 +156,7 @@ void gridpack::parser::TransformerParser33::parse(
         data->addValue(BUS_VOLTAGE_ANG,rval);
 
         // parse remainder of line 1
+        int cw = atoi(split_line[4].c_str());
         double mag1, mag2;
         mag1 = atof(split_line[7].c_str());
         mag2 = atof(split_line[8].c_str());
@@ -212,6 +213,10 @@ void gridpack::parser::TransformerParser33::parse(
         split_line3 = this->splitPSSELine(line);
         double windv, ang, ratea, rateb, ratec;
         parse3WindXForm(split_line3, &windv, &ang, &ratea, &rateb, &ratec);
+        if (cw == 2) {
+          windv = getWindingRatio(windv,atof(split_line3[1].c_str()),
+              o_idx1,p_busData);
+        }
         data1->addValue(BRANCH_INDEX,index);
         data1->addValue(BRANCH_FROMBUS,o_idx1);
         data1->addValue(BRANCH_TOBUS,p_maxBusIndex);
@@ -246,6 +251,10 @@ void gridpack::parser::TransformerParser33::parse(
         this->cleanComment(line);
         split_line4 = this->splitPSSELine(line);
         parse3WindXForm(split_line4, &windv, &ang, &ratea, &rateb, &ratec);
+        if (cw == 2) {
+          windv = getWindingRatio(windv,atof(split_line4[1].c_str()),
+              o_idx2,p_busData);
+        }
         data2->addValue(BRANCH_INDEX,index);
         data2->addValue(BRANCH_FROMBUS,o_idx2);
         data2->addValue(BRANCH_TOBUS,p_maxBusIndex);
@@ -280,6 +289,10 @@ void gridpack::parser::TransformerParser33::parse(
         this->cleanComment(line);
         split_line5 = this->splitPSSELine(line);
         parse3WindXForm(split_line5, &windv, &ang, &ratea, &rateb, &ratec);
+        if (cw == 2) {
+          windv = getWindingRatio(windv,atof(split_line5[1].c_str()),
+              o_idx3,p_busData);
+        }
         data3->addValue(BRANCH_INDEX,index);
         data3->addValue(BRANCH_FROMBUS,o_idx3);
         data3->addValue(BRANCH_TOBUS,p_maxBusIndex);
@@ -520,8 +533,8 @@ void gridpack::parser::TransformerParser33::parse(
       if(cw == 2) {
         double nomv1 = atof(split_line3[1].c_str());
         double nomv2 = atof(split_line4[1].c_str());
-        windv1 = windv1/nomv1;
-        windv2 = windv2/nomv2;
+        windv1 = getWindingRatio(windv1,nomv1,o_idx1,p_busData);
+        windv2 = getWindingRatio(windv2,nomv2,o_idx2,p_busData);
       }
       double tap = windv1/windv2;
       
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index fd7051f..4651cc9 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -157,6 +157,7 @@ void gridpack::parser::TransformerParser34::parse(
         data->addValue(BUS_VOLTAGE_ANG,rval);
 
         // parse remainder of line 1
+        int cw = atoi(split_line[4].c_str());
         double mag1, mag2;
         mag1 = atof(split_line[7].c_str());
         mag2 = atof(split_line[8].c_str());
@@ -213,6 +214,10 @@ void gridpack::parser::TransformerParser34::parse(
         split_line3 = this->splitPSSELine(line);
         double windv, ang, rate[12];
         parse3WindXForm(split_line3, &windv, &ang, rate);
+        if (cw == 2) {
+          windv = getWindingRatio(windv,atof(split_line3[1].c_str()),
+              o_idx1,p_busData);
+        }
         data1->addValue(BRANCH_INDEX,index);
         data1->addValue(BRANCH_FROMBUS,o_idx1);
         data1->addValue(BRANCH_TOBUS,p_maxBusIndex);
@@ -259,6 +264,10 @@ void gridpack::parser::TransformerParser34::parse(
         this->cleanComment(line);
         split_line4 = this->splitPSSELine(line);
         parse3WindXForm(split_line4, &windv, &ang, rate);
+        if (cw == 2) {
+          windv = getWindingRatio(windv,atof(split_line4[1].c_str()),
+              o_idx2,p_busData);
+        }
         data2->addValue(BRANCH_INDEX,index);
         data2->addValue(BRANCH_FROMBUS,o_idx2);
         data2->addValue(BRANCH_TOBUS,p_maxBusIndex);
@@ -305,6 +314,10 @@ void gridpack::parser::TransformerParser34::parse(
         this->cleanComment(line);
         split_line5 = this->splitPSSELine(line);
         parse3WindXForm(split_line5, &windv, &ang, rate);
+        if (cw == 2) {
+          windv = getWindingRatio(windv,atof(split_line5[1].c_str()),
+              o_idx3,p_busData);
+        }
         data3->addValue(BRANCH_INDEX,index);
         data3->addValue(BRANCH_FROMBUS,o_idx3);
         data3->addValue(BRANCH_TOBUS,p_maxBusIndex);
@@ -556,8 +569,8 @@ void gridpack::parser::TransformerParser34::parse(
       if(cw == 2) {
         double nomv1 = atof(split_line3[1].c_str());
         double nomv2 = atof(split_line4[1].c_str());
-        windv1 = windv1/nomv1;
-        windv2 = windv2/nomv2;
+        windv1 = getWindingRatio(windv1,nomv1,o_idx1,p_busData);
+        windv2 = getWindingRatio(windv2,nomv2,o_idx2,p_busData);
       }
       double tap = windv1/windv2;
       p_branchData[l_idx]->addValue(BRANCH_TAP,tap,nelems);
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index 27bd0b7..ca8e51c 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -156,6 +156,7 @@ void gridpack::parser::TransformerParser35::parse(
         data->addValue(BUS_VOLTAGE_ANG,rval);
 
         // parse remainder of line 1
+        int cw = atoi(split_line[4].c_str());
         double mag1, mag2;
         mag1 = atof(split_line[7].c_str());
         mag2 = atof(split_line[8].c_str());
@@ -212,6 +213,10 @@ void gridpack::parser::TransformerParser35::parse(
         split_line3 = this->splitPSSELine(line);
         double windv, ang, rate[12];
         parse3WindXForm(split_line3, &windv, &ang, rate);
+        if (cw == 2) {
+          windv = getWindingRatio(windv,atof(split_line3[1].c_str()),
+              o_idx1,p_busData);
+        }
         data1->addValue(BRANCH_INDEX,index);
         data1->addValue(BRANCH_FROMBUS,o_idx1);
         data1->addValue(BRANCH_TOBUS,p_maxBusIndex);
@@ -258,6 +263,10 @@ void gridpack::parser::TransformerParser35::parse(
         this->cleanComment(line);
         split_line4 = this->splitPSSELine(line);
         parse3WindXForm(split_line4, &windv, &ang, rate);
+        if (cw == 2) {
+          windv = getWindingRatio(windv,atof(split_line4[1].c_str()),
+              o_idx2,p_busData);
+        }
         data2->addValue(BRANCH_INDEX,index);
         data2->addValue(BRANCH_FROMBUS,o_idx2);
         data2->addValue(BRANCH_TOBUS,p_maxBusIndex);
@@ -304,6 +313,10 @@ void gridpack::parser::TransformerParser35::parse(
         this->cleanComment(line);
         split_line5 = this->splitPSSELine(line);
         parse3WindXForm(split_line5, &windv, &ang, rate);
+        if (cw == 2) {
+          windv = getWindingRatio(windv,atof(split_line5[1].c_str()),
+              o_idx3,p_busData);
+        }
         data3->addValue(BRANCH_INDEX,index);
         data3->addValue(BRANCH_FROMBUS,o_idx3);
         data3->addValue(BRANCH_TOBUS,p_maxBusIndex);
@@ -553,10 +566,10 @@ void gridpack::parser::TransformerParser35::parse(
       double windv1 = atof(split_line3[0].c_str());
       double windv2 = atof(split_line4[0].c_str());
       if(cw == 2) {
-	double nomv1 = atof(split_line3[1].c_str());
-	double nomv2 = atof(split_line4[1].c_str());
-	windv1 = windv1/nomv1;
-	windv2 = windv2/nomv2;
+        double nomv1 = atof(split_line3[1].c_str());
+        double nomv2 = atof(split_line4[1].c_str());
+        windv1 = getWindingRatio(windv1,nomv1,o_idx1,p_busData);
+        windv2 = getWindingRatio(windv2,nomv2,o_idx2,p_busData);
       }
       double tap = windv1/windv2;
       p_branchData[l_idx]->addValue(BRANCH_TAP,tap,nelems);
-- 
2.43.0


From e1b348fb29bf78b8dc89b73ff6ebadc2bba85422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 044/140] fix: ratings of windings of transformers in version
 34 and 35 files

---
 .../block_parsers/transformer_parser34.cpp    | 60 +++++++++---------
 .../block_parsers/transformer_parser35.cpp    | 62 +++++++++----------
 2 files changed, 61 insertions(+), 61 deletions(-)

diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 4651cc9..defa969 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -276,21 +276,21 @@ void gridpack::parser::TransformerParser34::parse(
         data2->addValue(BRANCH_R,r2,0);
         data2->addValue(BRANCH_X,x2,0);
         data2->addValue(BRANCH_B,b2,0);
-        data1->addValue(BRANCH_RATING_A,rate[0],0);
-        data1->addValue(BRANCH_RATING_B,rate[1],0);
-        data1->addValue(BRANCH_RATING_C,rate[2],0);
-        data1->addValue(BRANCH_RATE1,rate[0],0);
-        data1->addValue(BRANCH_RATE2,rate[1],0);
-        data1->addValue(BRANCH_RATE3,rate[2],0);
-        data1->addValue(BRANCH_RATE4,rate[3],0);
-        data1->addValue(BRANCH_RATE5,rate[4],0);
-        data1->addValue(BRANCH_RATE6,rate[5],0);
-        data1->addValue(BRANCH_RATE7,rate[6],0);
-        data1->addValue(BRANCH_RATE8,rate[7],0);
-        data1->addValue(BRANCH_RATE9,rate[8],0);
-        data1->addValue(BRANCH_RATE10,rate[9],0);
-        data1->addValue(BRANCH_RATE11,rate[10],0);
-        data1->addValue(BRANCH_RATE12,rate[11],0);
+        data2->addValue(BRANCH_RATING_A,rate[0],0);
+        data2->addValue(BRANCH_RATING_B,rate[1],0);
+        data2->addValue(BRANCH_RATING_C,rate[2],0);
+        data2->addValue(BRANCH_RATE1,rate[0],0);
+        data2->addValue(BRANCH_RATE2,rate[1],0);
+        data2->addValue(BRANCH_RATE3,rate[2],0);
+        data2->addValue(BRANCH_RATE4,rate[3],0);
+        data2->addValue(BRANCH_RATE5,rate[4],0);
+        data2->addValue(BRANCH_RATE6,rate[5],0);
+        data2->addValue(BRANCH_RATE7,rate[6],0);
+        data2->addValue(BRANCH_RATE8,rate[7],0);
+        data2->addValue(BRANCH_RATE9,rate[8],0);
+        data2->addValue(BRANCH_RATE10,rate[9],0);
+        data2->addValue(BRANCH_RATE11,rate[10],0);
+        data2->addValue(BRANCH_RATE12,rate[11],0);
         data2->addValue(BRANCH_TAP,windv,0);
         data2->addValue(BRANCH_SHIFT,ang,0);
         data2->addValue(BRANCH_SWITCHED,false,0);
@@ -326,21 +326,21 @@ void gridpack::parser::TransformerParser34::parse(
         data3->addValue(BRANCH_R,r3,0);
         data3->addValue(BRANCH_X,x3,0);
         data3->addValue(BRANCH_B,b3,0);
-        data1->addValue(BRANCH_RATING_A,rate[0],0);
-        data1->addValue(BRANCH_RATING_B,rate[1],0);
-        data1->addValue(BRANCH_RATING_C,rate[2],0);
-        data1->addValue(BRANCH_RATE1,rate[0],0);
-        data1->addValue(BRANCH_RATE2,rate[1],0);
-        data1->addValue(BRANCH_RATE3,rate[2],0);
-        data1->addValue(BRANCH_RATE4,rate[3],0);
-        data1->addValue(BRANCH_RATE5,rate[4],0);
-        data1->addValue(BRANCH_RATE6,rate[5],0);
-        data1->addValue(BRANCH_RATE7,rate[6],0);
-        data1->addValue(BRANCH_RATE8,rate[7],0);
-        data1->addValue(BRANCH_RATE9,rate[8],0);
-        data1->addValue(BRANCH_RATE10,rate[9],0);
-        data1->addValue(BRANCH_RATE11,rate[10],0);
-        data1->addValue(BRANCH_RATE12,rate[11],0);
+        data3->addValue(BRANCH_RATING_A,rate[0],0);
+        data3->addValue(BRANCH_RATING_B,rate[1],0);
+        data3->addValue(BRANCH_RATING_C,rate[2],0);
+        data3->addValue(BRANCH_RATE1,rate[0],0);
+        data3->addValue(BRANCH_RATE2,rate[1],0);
+        data3->addValue(BRANCH_RATE3,rate[2],0);
+        data3->addValue(BRANCH_RATE4,rate[3],0);
+        data3->addValue(BRANCH_RATE5,rate[4],0);
+        data3->addValue(BRANCH_RATE6,rate[5],0);
+        data3->addValue(BRANCH_RATE7,rate[6],0);
+        data3->addValue(BRANCH_RATE8,rate[7],0);
+        data3->addValue(BRANCH_RATE9,rate[8],0);
+        data3->addValue(BRANCH_RATE10,rate[9],0);
+        data3->addValue(BRANCH_RATE11,rate[10],0);
+        data3->addValue(BRANCH_RATE12,rate[11],0);
         data3->addValue(BRANCH_TAP,windv,0);
         data3->addValue(BRANCH_SHIFT,ang,0);
         data3->addValue(BRANCH_SWITCHED,false,0);
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index ca8e51c..d837096 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -275,21 +275,21 @@ void gridpack::parser::TransformerParser35::parse(
         data2->addValue(BRANCH_R,r2,0);
         data2->addValue(BRANCH_X,x2,0);
         data2->addValue(BRANCH_B,b2,0);
-        data1->addValue(BRANCH_RATING_A,rate[0],0);
-        data1->addValue(BRANCH_RATING_B,rate[1],0);
-        data1->addValue(BRANCH_RATING_C,rate[2],0);
-        data1->addValue(BRANCH_RATE1,rate[0],0);
-        data1->addValue(BRANCH_RATE2,rate[1],0);
-        data1->addValue(BRANCH_RATE3,rate[2],0);
-        data1->addValue(BRANCH_RATE4,rate[3],0);
-        data1->addValue(BRANCH_RATE5,rate[4],0);
-        data1->addValue(BRANCH_RATE6,rate[5],0);
-        data1->addValue(BRANCH_RATE7,rate[6],0);
-        data1->addValue(BRANCH_RATE8,rate[7],0);
-        data1->addValue(BRANCH_RATE9,rate[8],0);
-        data1->addValue(BRANCH_RATE10,rate[9],0);
-        data1->addValue(BRANCH_RATE11,rate[10],0);
-        data1->addValue(BRANCH_RATE12,rate[11],0);
+        data2->addValue(BRANCH_RATING_A,rate[0],0);
+        data2->addValue(BRANCH_RATING_B,rate[1],0);
+        data2->addValue(BRANCH_RATING_C,rate[2],0);
+        data2->addValue(BRANCH_RATE1,rate[0],0);
+        data2->addValue(BRANCH_RATE2,rate[1],0);
+        data2->addValue(BRANCH_RATE3,rate[2],0);
+        data2->addValue(BRANCH_RATE4,rate[3],0);
+        data2->addValue(BRANCH_RATE5,rate[4],0);
+        data2->addValue(BRANCH_RATE6,rate[5],0);
+        data2->addValue(BRANCH_RATE7,rate[6],0);
+        data2->addValue(BRANCH_RATE8,rate[7],0);
+        data2->addValue(BRANCH_RATE9,rate[8],0);
+        data2->addValue(BRANCH_RATE10,rate[9],0);
+        data2->addValue(BRANCH_RATE11,rate[10],0);
+        data2->addValue(BRANCH_RATE12,rate[11],0);
         data2->addValue(BRANCH_TAP,windv,0);
         data2->addValue(BRANCH_SHIFT,ang,0);
         data2->addValue(BRANCH_SWITCHED,false,0);
@@ -325,21 +325,21 @@ void gridpack::parser::TransformerParser35::parse(
         data3->addValue(BRANCH_R,r3,0);
         data3->addValue(BRANCH_X,x3,0);
         data3->addValue(BRANCH_B,b3,0);
-        data1->addValue(BRANCH_RATING_A,rate[0],0);
-        data1->addValue(BRANCH_RATING_B,rate[1],0);
-        data1->addValue(BRANCH_RATING_C,rate[2],0);
-        data1->addValue(BRANCH_RATE1,rate[0],0);
-        data1->addValue(BRANCH_RATE2,rate[1],0);
-        data1->addValue(BRANCH_RATE3,rate[2],0);
-        data1->addValue(BRANCH_RATE4,rate[3],0);
-        data1->addValue(BRANCH_RATE5,rate[4],0);
-        data1->addValue(BRANCH_RATE6,rate[5],0);
-        data1->addValue(BRANCH_RATE7,rate[6],0);
-        data1->addValue(BRANCH_RATE8,rate[7],0);
-        data1->addValue(BRANCH_RATE9,rate[8],0);
-        data1->addValue(BRANCH_RATE10,rate[9],0);
-        data1->addValue(BRANCH_RATE11,rate[10],0);
-        data1->addValue(BRANCH_RATE12,rate[11],0);
+        data3->addValue(BRANCH_RATING_A,rate[0],0);
+        data3->addValue(BRANCH_RATING_B,rate[1],0);
+        data3->addValue(BRANCH_RATING_C,rate[2],0);
+        data3->addValue(BRANCH_RATE1,rate[0],0);
+        data3->addValue(BRANCH_RATE2,rate[1],0);
+        data3->addValue(BRANCH_RATE3,rate[2],0);
+        data3->addValue(BRANCH_RATE4,rate[3],0);
+        data3->addValue(BRANCH_RATE5,rate[4],0);
+        data3->addValue(BRANCH_RATE6,rate[5],0);
+        data3->addValue(BRANCH_RATE7,rate[6],0);
+        data3->addValue(BRANCH_RATE8,rate[7],0);
+        data3->addValue(BRANCH_RATE9,rate[8],0);
+        data3->addValue(BRANCH_RATE10,rate[9],0);
+        data3->addValue(BRANCH_RATE11,rate[10],0);
+        data3->addValue(BRANCH_RATE12,rate[11],0);
         data3->addValue(BRANCH_TAP,windv,0);
         data3->addValue(BRANCH_SHIFT,ang,0);
         data3->addValue(BRANCH_SWITCHED,false,0);
@@ -643,7 +643,7 @@ void gridpack::parser::TransformerParser35::parse(
           atof(split_line3[12].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE11,
           atof(split_line3[13].c_str()),nelems);
-      p_branchData[l_idx]->addValue(BRANCH_RATE11,
+      p_branchData[l_idx]->addValue(BRANCH_RATE12,
           atof(split_line3[14].c_str()),nelems);
 
       /*
-- 
2.43.0


From 5cc2c8a9c2af0835c17870be9763a7555e0947f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 045/140] fix: fractions of branch owners are not integers

---
 src/parser/block_parsers/branch_parser33.cpp      | 8 ++++----
 src/parser/block_parsers/branch_parser34.cpp      | 8 ++++----
 src/parser/block_parsers/transformer_parser33.cpp | 8 ++++----
 src/parser/block_parsers/transformer_parser34.cpp | 8 ++++----
 src/parser/block_parsers/transformer_parser35.cpp | 8 ++++----
 5 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/parser/block_parsers/branch_parser33.cpp b/src/parser/block_parsers/branch_parser33.cpp
index 47fffd5..b07dc6d 100644
--- a/src/parser/block_parsers/branch_parser33.cpp
+++ b/src/parser/block_parsers/branch_parser33.cpp
@@ -180,7 +180,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F1        "F1"                             float
     if (nstr > 17) p_branchData[l_idx]->addValue(BRANCH_F1,
-        atoi(split_line[17].c_str()), nelems);
+        atof(split_line[17].c_str()), nelems);
 
     // BRANCH_O2        "O2"                       integer
     if (nstr > 18) p_branchData[l_idx]->addValue(BRANCH_O2,
@@ -188,7 +188,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F2        "F2"                             float
     if (nstr > 19) p_branchData[l_idx]->addValue(BRANCH_F2,
-        atoi(split_line[19].c_str()), nelems);
+        atof(split_line[19].c_str()), nelems);
 
     // BRANCH_O3        "O3"                       integer
     if (nstr > 20) p_branchData[l_idx]->addValue(BRANCH_O3,
@@ -196,7 +196,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F3        "F3"                             float
     if (nstr > 21) p_branchData[l_idx]->addValue(BRANCH_F3,
-        atoi(split_line[21].c_str()), nelems);
+        atof(split_line[21].c_str()), nelems);
 
     // BRANCH_O4        "O4"                       integer
     if (nstr > 22) p_branchData[l_idx]->addValue(BRANCH_O4,
@@ -204,7 +204,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F4        "F4"                             float
     if (nstr > 23) p_branchData[l_idx]->addValue(BRANCH_F4,
-        atoi(split_line[23].c_str()), nelems);
+        atof(split_line[23].c_str()), nelems);
 
     // TODO: add variables MET, LEN, Oi, Fi
 
diff --git a/src/parser/block_parsers/branch_parser34.cpp b/src/parser/block_parsers/branch_parser34.cpp
index bd824d4..b3ce173 100644
--- a/src/parser/block_parsers/branch_parser34.cpp
+++ b/src/parser/block_parsers/branch_parser34.cpp
@@ -216,7 +216,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F1        "F1"                             float
     if (nstr > 27) p_branchData[l_idx]->addValue(BRANCH_F1,
-        atoi(split_line[27].c_str()), nelems);
+        atof(split_line[27].c_str()), nelems);
 
     // BRANCH_O2        "O2"                       integer
     if (nstr > 28) p_branchData[l_idx]->addValue(BRANCH_O2,
@@ -224,7 +224,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F2        "F2"                             float
     if (nstr > 29) p_branchData[l_idx]->addValue(BRANCH_F2,
-        atoi(split_line[29].c_str()), nelems);
+        atof(split_line[29].c_str()), nelems);
 
     // BRANCH_O3        "O3"                       integer
     if (nstr > 30) p_branchData[l_idx]->addValue(BRANCH_O3,
@@ -232,7 +232,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F3        "F3"                             float
     if (nstr > 31) p_branchData[l_idx]->addValue(BRANCH_F3,
-        atoi(split_line[31].c_str()), nelems);
+        atof(split_line[31].c_str()), nelems);
 
     // BRANCH_O4        "O4"                       integer
     if (nstr > 32) p_branchData[l_idx]->addValue(BRANCH_O4,
@@ -240,7 +240,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F4        "F4"                             float
     if (nstr > 33) p_branchData[l_idx]->addValue(BRANCH_F4,
-        atoi(split_line[33].c_str()), nelems);
+        atof(split_line[33].c_str()), nelems);
 
     // TODO: add variables MET, LEN, Oi, Fi
 
diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index e7b5777..f574c4c 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -466,7 +466,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F1
        */
       if (ntoken > 13) p_branchData[l_idx]->addValue(BRANCH_F1,
-          atoi(split_line[13].c_str()), nelems);
+          atof(split_line[13].c_str()), nelems);
 
       /*
        * type: integer
@@ -480,7 +480,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F2
        */
       if (ntoken > 15) p_branchData[l_idx]->addValue(BRANCH_F2,
-          atoi(split_line[15].c_str()), nelems);
+          atof(split_line[15].c_str()), nelems);
 
       /*
        * type: integer
@@ -494,7 +494,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F3
        */
       if (ntoken > 17) p_branchData[l_idx]->addValue(BRANCH_F3,
-          atoi(split_line[17].c_str()), nelems);
+          atof(split_line[17].c_str()), nelems);
 
       /*
        * type: integer
@@ -508,7 +508,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F4
        */
       if (ntoken > 19) p_branchData[l_idx]->addValue(BRANCH_F4,
-          atoi(split_line[19].c_str()), nelems);
+          atof(split_line[19].c_str()), nelems);
 
 
       // Add parameters from line 2
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index defa969..cc8e087 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -503,7 +503,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F1
        */
       if (ntoken > 13) p_branchData[l_idx]->addValue(BRANCH_F1,
-          atoi(split_line[13].c_str()), nelems);
+          atof(split_line[13].c_str()), nelems);
 
       /*
        * type: integer
@@ -517,7 +517,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F2
        */
       if (ntoken > 15) p_branchData[l_idx]->addValue(BRANCH_F2,
-          atoi(split_line[15].c_str()), nelems);
+          atof(split_line[15].c_str()), nelems);
 
       /*
        * type: integer
@@ -531,7 +531,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F3
        */
       if (ntoken > 17) p_branchData[l_idx]->addValue(BRANCH_F3,
-          atoi(split_line[17].c_str()), nelems);
+          atof(split_line[17].c_str()), nelems);
 
       /*
        * type: integer
@@ -545,7 +545,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F4
        */
       if (ntoken > 19) p_branchData[l_idx]->addValue(BRANCH_F4,
-          atoi(split_line[19].c_str()), nelems);
+          atof(split_line[19].c_str()), nelems);
 
 
       // Add parameters from line 2
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index d837096..291ae49 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -502,7 +502,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F1
        */
       if (ntoken > 13) p_branchData[l_idx]->addValue(BRANCH_F1,
-          atoi(split_line[13].c_str()), nelems);
+          atof(split_line[13].c_str()), nelems);
 
       /*
        * type: integer
@@ -516,7 +516,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F2
        */
       if (ntoken > 15) p_branchData[l_idx]->addValue(BRANCH_F2,
-          atoi(split_line[15].c_str()), nelems);
+          atof(split_line[15].c_str()), nelems);
 
       /*
        * type: integer
@@ -530,7 +530,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F3
        */
       if (ntoken > 17) p_branchData[l_idx]->addValue(BRANCH_F3,
-          atoi(split_line[17].c_str()), nelems);
+          atof(split_line[17].c_str()), nelems);
 
       /*
        * type: integer
@@ -544,7 +544,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F4
        */
       if (ntoken > 19) p_branchData[l_idx]->addValue(BRANCH_F4,
-          atoi(split_line[19].c_str()), nelems);
+          atof(split_line[19].c_str()), nelems);
 
 
       // Add parameters from line 2
-- 
2.43.0


From b1ad0915efc28c48809b744d9a47cd5a1d5a758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 046/140] fix: endless loops in sections of raw files

---
 src/parser/block_parsers/imped_corr_parser33.cpp    | 5 ++++-
 src/parser/block_parsers/imped_corr_parser34.cpp    | 5 ++++-
 src/parser/block_parsers/multi_section_parser33.cpp | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser/block_parsers/imped_corr_parser33.cpp b/src/parser/block_parsers/imped_corr_parser33.cpp
index 0baaec0..8971fbf 100644
--- a/src/parser/block_parsers/imped_corr_parser33.cpp
+++ b/src/parser/block_parsers/imped_corr_parser33.cpp
@@ -60,7 +60,10 @@ void gridpack::parser::ImpedCorrParser33::parse(
     int entries = nval-1;
     entries =  entries - entries%2;
     entries = entries/2;
-    if (entries == 0) continue;
+    if (entries == 0) {
+      stream.nextLine(line);
+      continue;
+    }
     boost::shared_ptr<gridpack::component::DataCollection>
       data(new gridpack::component::DataCollection);
 
diff --git a/src/parser/block_parsers/imped_corr_parser34.cpp b/src/parser/block_parsers/imped_corr_parser34.cpp
index d2861c2..a3eb413 100644
--- a/src/parser/block_parsers/imped_corr_parser34.cpp
+++ b/src/parser/block_parsers/imped_corr_parser34.cpp
@@ -79,7 +79,10 @@ void gridpack::parser::ImpedCorrParser34::parse(
     // Limit number of entries to version 33 format
     if (entries > 11) entries = 11;
 
-    if (entries == 0) continue;
+    if (entries == 0) {
+      stream.nextLine(line);
+      continue;
+    }
     boost::shared_ptr<gridpack::component::DataCollection>
       data(new gridpack::component::DataCollection);
 
diff --git a/src/parser/block_parsers/multi_section_parser33.cpp b/src/parser/block_parsers/multi_section_parser33.cpp
index dfff3ab..d5fdd90 100644
--- a/src/parser/block_parsers/multi_section_parser33.cpp
+++ b/src/parser/block_parsers/multi_section_parser33.cpp
@@ -82,7 +82,10 @@ void gridpack::parser::MultiSectParser33::parse(
     }
     nelems = split_line.size() - 3;
 
-    if (!found || nelems <= 0) continue;
+    if (!found || nelems <= 0) {
+      stream.nextLine(line);
+      continue;
+    }
 
     // Clean up 2 character tag
     gridpack::utility::StringUtils util;
-- 
2.43.0


From 88e813e1b5bb4b3039401becb0a0feb416d39ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 047/140] fix: read only the dummy buses that a multi-section
 line has

---
 src/parser/block_parsers/multi_section_parser33.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/block_parsers/multi_section_parser33.cpp b/src/parser/block_parsers/multi_section_parser33.cpp
index d5fdd90..889a95b 100644
--- a/src/parser/block_parsers/multi_section_parser33.cpp
+++ b/src/parser/block_parsers/multi_section_parser33.cpp
@@ -109,7 +109,7 @@ void gridpack::parser::MultiSectParser33::parse(
 
     int i;
     char buf[32];
-    for (i=0; i<9; i++) {
+    for (i=0; i<9 && i+4<static_cast<int>(split_line.size()); i++) {
       sprintf(buf,"MULTI_SEC_LINE_DUM%d",i+1);
       p_branchData[l_idx]->addValue(buf,atoi(split_line[i+4].c_str()));
     }
-- 
2.43.0


From 0b701e37c286a949f76ea2bfee60f7979505f775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 048/140] fix: impedance correction tables of version 34 and 35
 files

---
 src/parser/block_parsers/imped_corr_parser34.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/block_parsers/imped_corr_parser34.cpp b/src/parser/block_parsers/imped_corr_parser34.cpp
index a3eb413..088ece7 100644
--- a/src/parser/block_parsers/imped_corr_parser34.cpp
+++ b/src/parser/block_parsers/imped_corr_parser34.cpp
@@ -75,7 +75,8 @@ void gridpack::parser::ImpedCorrParser34::parse(
     int nval = split_line.size();
     int entries = nval-1;
     entries =  entries - entries%3;
-    entries = entries/2;
+    // each entry has scaling factor with real and imaginary part
+    entries = entries/3;
     // Limit number of entries to version 33 format
     if (entries > 11) entries = 11;
 
@@ -101,14 +102,14 @@ void gridpack::parser::ImpedCorrParser34::parse(
        * #define XFMR_CORR_TABLE_Ti "XFMR_CORR_TABLE_Ti"
        */
       sprintf(buf,"XFMR_CORR_TABLE_T%d",i+1);
-      data->addValue(buf, atof(split_line[1+2*i].c_str()));
+      data->addValue(buf, atof(split_line[1+3*i].c_str()));
 
       /*
        * type: real float
        * #define XFMR_CORR_TABLE_Fi "XFMR_CORR_TABLE_Fi"
        */
       sprintf(buf,"XFMR_CORR_TABLE_F%d",i+1);
-      data->addValue(buf, atof(split_line[2+2*i].c_str()));
+      data->addValue(buf, atof(split_line[2+3*i].c_str()));
     }
 
     p_imp_corr_table.insert(std::pair<int,
-- 
2.43.0


From da7a09ae4bfc321a4df7afd040ee81747349a8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 049/140] fix: buses of switched shunts given by name or with
 negative numbers

---
 src/parser/block_parsers/switched_shunt_parser33.cpp | 4 ++--
 src/parser/block_parsers/switched_shunt_parser34.cpp | 6 +++---
 src/parser/block_parsers/switched_shunt_parser35.cpp | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/parser/block_parsers/switched_shunt_parser33.cpp b/src/parser/block_parsers/switched_shunt_parser33.cpp
index ecb7655..e9510e3 100644
--- a/src/parser/block_parsers/switched_shunt_parser33.cpp
+++ b/src/parser/block_parsers/switched_shunt_parser33.cpp
@@ -61,7 +61,7 @@ void gridpack::parser::SwitchedShuntParser33::parse(
      * #define SWSHUNT_BUSNUMBER "SWSHUNT_BUSNUMBER"
      */
     int l_idx, o_idx;
-    l_idx = atoi(split_line[0].c_str());
+    l_idx = getBusIndex(split_line[0]);
     std::map<int, int>::iterator it;
     it = p_busMap->find(l_idx);
     if (it != p_busMap->end()) {
@@ -72,7 +72,7 @@ void gridpack::parser::SwitchedShuntParser33::parse(
     }
     int nval = split_line.size();
 
-    p_busData[o_idx]->addValue(SWSHUNT_BUSNUMBER, atoi(split_line[0].c_str()));
+    p_busData[o_idx]->addValue(SWSHUNT_BUSNUMBER, l_idx);
 
     /*
      * type: integer
diff --git a/src/parser/block_parsers/switched_shunt_parser34.cpp b/src/parser/block_parsers/switched_shunt_parser34.cpp
index fea7793..f682f4a 100644
--- a/src/parser/block_parsers/switched_shunt_parser34.cpp
+++ b/src/parser/block_parsers/switched_shunt_parser34.cpp
@@ -61,7 +61,7 @@ void gridpack::parser::SwitchedShuntParser34::parse(
      * #define SWSHUNT_BUSNUMBER "SWSHUNT_BUSNUMBER"
      */
     int l_idx, o_idx;
-    l_idx = atoi(split_line[0].c_str());
+    l_idx = getBusIndex(split_line[0]);
     std::map<int, int>::iterator it;
     it = p_busMap->find(l_idx);
     if (it != p_busMap->end()) {
@@ -73,8 +73,8 @@ void gridpack::parser::SwitchedShuntParser34::parse(
     int nval = split_line.size();
 
     if (!p_busData[o_idx]->setValue(SWSHUNT_BUSNUMBER,
-          atoi(split_line[0].c_str()))) {
-      p_busData[o_idx]->addValue(SWSHUNT_BUSNUMBER, atoi(split_line[0].c_str()));
+          l_idx)) {
+      p_busData[o_idx]->addValue(SWSHUNT_BUSNUMBER, l_idx);
     }
 
     // Currently ignoring the shunt ID. Assume one switched shunt per bus
diff --git a/src/parser/block_parsers/switched_shunt_parser35.cpp b/src/parser/block_parsers/switched_shunt_parser35.cpp
index 286c0bc..54817ad 100644
--- a/src/parser/block_parsers/switched_shunt_parser35.cpp
+++ b/src/parser/block_parsers/switched_shunt_parser35.cpp
@@ -61,7 +61,7 @@ void gridpack::parser::SwitchedShuntParser35::parse(
      * #define SWSHUNT_BUSNUMBER "SWSHUNT_BUSNUMBER"
      */
     int l_idx, o_idx;
-    l_idx = atoi(split_line[0].c_str());
+    l_idx = getBusIndex(split_line[0]);
     std::map<int, int>::iterator it;
     it = p_busMap->find(l_idx);
     if (it != p_busMap->end()) {
@@ -73,8 +73,8 @@ void gridpack::parser::SwitchedShuntParser35::parse(
     int nval = split_line.size();
 
     if (!p_busData[o_idx]->setValue(SWSHUNT_BUSNUMBER,
-          atoi(split_line[0].c_str()))) {
-      p_busData[o_idx]->addValue(SWSHUNT_BUSNUMBER, atoi(split_line[0].c_str()));
+          l_idx)) {
+      p_busData[o_idx]->addValue(SWSHUNT_BUSNUMBER, l_idx);
     }
 
     // Currently ignoring the shunt ID. Assume one switched shunt per bus
-- 
2.43.0


From 384d65c0a20aaee551c246607737edd4c8c0ac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 050/140] fix: read switched shunts of version 34 files with
 their own parser and store NREG and BASLOD as integers

---
 src/parser/PTI34_parser.hpp                          | 4 ++--
 src/parser/block_parsers/generator_parser35.cpp      | 2 +-
 src/parser/block_parsers/switched_shunt_parser34.cpp | 2 +-
 src/parser/block_parsers/switched_shunt_parser35.cpp | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/PTI34_parser.hpp b/src/parser/PTI34_parser.hpp
index b74e3e4..d12e24e 100644
--- a/src/parser/PTI34_parser.hpp
+++ b/src/parser/PTI34_parser.hpp
@@ -47,7 +47,7 @@
 #include "gridpack/parser/block_parsers/interarea_parser33.hpp"
 #include "gridpack/parser/block_parsers/owner_parser33.hpp"
 #include "gridpack/parser/block_parsers/facts_parser33.hpp"
-#include "gridpack/parser/block_parsers/switched_shunt_parser35.hpp"
+#include "gridpack/parser/block_parsers/switched_shunt_parser34.hpp"
 
 #define TERM_CHAR '0'
 // SOURCE: http://www.ee.washington.edu/research/pstca/formats/pti.txt
@@ -291,7 +291,7 @@ class PTI34_parser : public BasePTIParser<_network>
         gridpack::parser::FACTSParser33 facts_parser(&p_busMap,
             &p_nameMap, &p_branchMap);
         facts_parser.parse(p_istream);
-        gridpack::parser::SwitchedShuntParser35 switched_shunt_parser(&p_busMap,
+        gridpack::parser::SwitchedShuntParser34 switched_shunt_parser(&p_busMap,
             &p_nameMap, &p_branchMap);
         switched_shunt_parser.parse(p_istream,p_busData);
 
diff --git a/src/parser/block_parsers/generator_parser35.cpp b/src/parser/block_parsers/generator_parser35.cpp
index f0b94ed..83e0a9c 100644
--- a/src/parser/block_parsers/generator_parser35.cpp
+++ b/src/parser/block_parsers/generator_parser35.cpp
@@ -148,7 +148,7 @@ void gridpack::parser::GeneratorParser35::parse(
 
     // GENERATOR_BASLOD              "BASLOD"            integer 
     if (nstr > 19) p_busData[l_idx]->addValue(GENERATOR_BASLOD,
-        atof(split_line[19].c_str()), ngen);
+        atoi(split_line[19].c_str()), ngen);
 
     // TODO: add variables Oi, Fi, WMOD, WPF
     // There may be between 0 and 4 owner pairs.
diff --git a/src/parser/block_parsers/switched_shunt_parser34.cpp b/src/parser/block_parsers/switched_shunt_parser34.cpp
index f682f4a..1b7c8d4 100644
--- a/src/parser/block_parsers/switched_shunt_parser34.cpp
+++ b/src/parser/block_parsers/switched_shunt_parser34.cpp
@@ -343,7 +343,7 @@ void gridpack::parser::SwitchedShuntParser34::parse(
     if (nval > 26) {
       if (!p_busData[o_idx]->setValue(SHUNT_NREG,
             atoi(split_line[26].c_str()))) {
-        p_busData[o_idx]->addValue(SHUNT_NREG, atof(split_line[26].c_str()));
+        p_busData[o_idx]->addValue(SHUNT_NREG, atoi(split_line[26].c_str()));
       }
     }
 
diff --git a/src/parser/block_parsers/switched_shunt_parser35.cpp b/src/parser/block_parsers/switched_shunt_parser35.cpp
index 54817ad..5249a31 100644
--- a/src/parser/block_parsers/switched_shunt_parser35.cpp
+++ b/src/parser/block_parsers/switched_shunt_parser35.cpp
@@ -138,7 +138,7 @@ void gridpack::parser::SwitchedShuntParser35::parse(
      */
     if (!p_busData[o_idx]->setValue(SHUNT_NREG,
           atoi(split_line[8].c_str()))) {
-      p_busData[o_idx]->addValue(SHUNT_SWREG, atoi(split_line[8].c_str()));
+      p_busData[o_idx]->addValue(SHUNT_NREG, atoi(split_line[8].c_str()));
     }
 
     /*
-- 
2.43.0


From 14e118c0b42aaa508751fdf4a8c03ad5985faef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 051/140] fix: case line of raw files and unmatched
 transformers of version 23 files

---
 src/parser/PTI23_parser.hpp                | 3 ++-
 src/parser/block_parsers/case_parser33.cpp | 3 +--
 src/parser/block_parsers/case_parser34.cpp | 3 +--
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/parser/PTI23_parser.hpp b/src/parser/PTI23_parser.hpp
index 069c6af..d9e4c26 100644
--- a/src/parser/PTI23_parser.hpp
+++ b/src/parser/PTI23_parser.hpp
@@ -202,7 +202,7 @@ class PTI23_parser : public BasePTIParser<_network>
       std::vector<std::string>  split_line;
 
       this->cleanComment(line);
-      boost::algorithm::split(split_line, line, boost::algorithm::is_any_of(" "), boost::token_compress_on);
+      split_line = this->splitPSSELine(line);
 
       // CASE_ID             "IC"                   ranged integer
       p_case_id = atoi(split_line[0].c_str());
@@ -690,6 +690,7 @@ class PTI23_parser : public BasePTIParser<_network>
         if (idx == -1) {
           printf("No match for transformer from %d to %d\n",
               fromBus,toBus);
+          std::getline(input, line);
           continue;
         }
 
diff --git a/src/parser/block_parsers/case_parser33.cpp b/src/parser/block_parsers/case_parser33.cpp
index 4d31aed..b7caf2a 100644
--- a/src/parser/block_parsers/case_parser33.cpp
+++ b/src/parser/block_parsers/case_parser33.cpp
@@ -54,8 +54,7 @@ void gridpack::parser::CaseParser33::parse(
   std::vector<std::string>  split_line;
 
   this->cleanComment(line);
-  boost::algorithm::split(split_line, line, boost::algorithm::is_any_of(","),
-      boost::token_compress_off);
+  split_line = this->splitPSSELine(line);
 
   // CASE_ID             "IC"                   ranged integer
   id = atoi(split_line[0].c_str());
diff --git a/src/parser/block_parsers/case_parser34.cpp b/src/parser/block_parsers/case_parser34.cpp
index 91a7c37..bb5d1db 100644
--- a/src/parser/block_parsers/case_parser34.cpp
+++ b/src/parser/block_parsers/case_parser34.cpp
@@ -54,8 +54,7 @@ void gridpack::parser::CaseParser34::parse(
   std::vector<std::string>  split_line;
 
   this->cleanComment(line);
-  boost::algorithm::split(split_line, line, boost::algorithm::is_any_of(","),
-      boost::token_compress_off);
+  split_line = this->splitPSSELine(line);
 
   // CASE_ID             "IC"                   ranged integer
   id = atoi(split_line[0].c_str());
-- 
2.43.0


From e0aadc7da6859b64b3187eb9fdc92712e28b54bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 052/140] fix: continuation lines of impedance correction
 tables

---
 src/parser/block_parsers/base_block_parser.cpp   | 3 ++-
 src/parser/block_parsers/imped_corr_parser34.cpp | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/block_parsers/base_block_parser.cpp b/src/parser/block_parsers/base_block_parser.cpp
index e46b870..2b37d38 100644
--- a/src/parser/block_parsers/base_block_parser.cpp
+++ b/src/parser/block_parsers/base_block_parser.cpp
@@ -88,7 +88,8 @@ void gridpack::parser::BaseBlockParser::remove_blanks(std::string &str)
 bool gridpack::parser::BaseBlockParser::test_end(std::string &str) const
 {
   if (str[0] == TERM_CHAR) {
-    return false;
+    // values smaller than one do not terminate a section
+    return str.length() > 1 && str[1] == '.';
   }
   int len = str.length();
   int i=0;
diff --git a/src/parser/block_parsers/imped_corr_parser34.cpp b/src/parser/block_parsers/imped_corr_parser34.cpp
index 088ece7..da66c0e 100644
--- a/src/parser/block_parsers/imped_corr_parser34.cpp
+++ b/src/parser/block_parsers/imped_corr_parser34.cpp
@@ -69,7 +69,10 @@ void gridpack::parser::ImpedCorrParser34::parse(
         int n = tmp_list.size();
         for (i=0; i<n; i++) split_line.push_back(tmp_list[i]);
       }
-      if (!end_table) stream.nextLine(line);
+      if (!end_table) {
+        nextRecordLine(stream,line);
+        this->cleanComment(line);
+      }
     }
 
     int nval = split_line.size();
-- 
2.43.0


From aff0c50fa24a342b9ae2d159df13124eb733bb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 053/140] fix: short generator records of version 23 files

---
 src/parser/PTI23_parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/PTI23_parser.hpp b/src/parser/PTI23_parser.hpp
index d9e4c26..31d9298 100644
--- a/src/parser/PTI23_parser.hpp
+++ b/src/parser/PTI23_parser.hpp
@@ -415,12 +415,12 @@ class PTI23_parser : public BasePTIParser<_network>
             atof(split_line[8].c_str()), ngen);
 
         // GENERATOR_ZSOURCE                                complex
-        if (nstr > 9) p_busData[l_idx]->addValue(GENERATOR_ZSOURCE,
+        if (nstr > 10) p_busData[l_idx]->addValue(GENERATOR_ZSOURCE,
             gridpack::ComplexType(atof(split_line[9].c_str()),
               atof(split_line[10].c_str())), ngen);
 
         // GENERATOR_XTRAN                              complex
-        if (nstr > 11) p_busData[l_idx]->addValue(GENERATOR_XTRAN,
+        if (nstr > 12) p_busData[l_idx]->addValue(GENERATOR_XTRAN,
             gridpack::ComplexType(atof(split_line[11].c_str()),
               atof(split_line[12].c_str())), ngen);
 
-- 
2.43.0


From 8f38979ba0254ca2fe10446e632eb813c15c8a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 054/140] fix: dynamic model records store each field under its
 own name

Several model parsers took a field from a neighbouring column or stored it
under a neighbouring name, some only when the record replaces an earlier one
(the setValue branch), so the two ways of reading a .dyr file disagreed.
---
 src/parser/parser_classes/acmtblu1.hpp | 16 +++++-----
 src/parser/parser_classes/cim6bl.hpp   |  8 ++---
 src/parser/parser_classes/cmldblu1.hpp | 10 +++---
 src/parser/parser_classes/distr1.hpp   |  4 +--
 src/parser/parser_classes/gdform.hpp   |  5 +--
 src/parser/parser_classes/genrou.hpp   |  2 +-
 src/parser/parser_classes/ieelbl.hpp   |  2 +-
 src/parser/parser_classes/psssim.hpp   | 42 +++++++++++++-------------
 src/parser/parser_classes/reeca1.hpp   |  2 +-
 src/parser/parser_classes/repca1.hpp   |  2 +-
 src/parser/parser_classes/wsieg1.hpp   |  6 ++--
 11 files changed, 50 insertions(+), 49 deletions(-)

diff --git a/src/parser/parser_classes/acmtblu1.hpp b/src/parser/parser_classes/acmtblu1.hpp
index 863fc61..fbe3bcd 100644
--- a/src/parser/parser_classes/acmtblu1.hpp
+++ b/src/parser/parser_classes/acmtblu1.hpp
@@ -144,9 +144,9 @@ template <class _data_struct> class Acmtblu1Parser
 
       // LOAD_NQ1
       if (!data->getValue(LOAD_NQ1,&rval,l_id)) {
-        data->addValue(LOAD_NQ1, data_struct.kq1, l_id);
+        data->addValue(LOAD_NQ1, data_struct.nq1, l_id);
       } else {
-        data->setValue(LOAD_NQ1, data_struct.kq1, l_id);
+        data->setValue(LOAD_NQ1, data_struct.nq1, l_id);
       }
 
       // LOAD_KP2
@@ -172,9 +172,9 @@ template <class _data_struct> class Acmtblu1Parser
 
       // LOAD_NQ2
       if (!data->getValue(LOAD_NQ2,&rval,l_id)) {
-        data->addValue(LOAD_NQ2, data_struct.kq2, l_id);
+        data->addValue(LOAD_NQ2, data_struct.nq2, l_id);
       } else {
-        data->setValue(LOAD_NQ2, data_struct.kq2, l_id);
+        data->setValue(LOAD_NQ2, data_struct.nq2, l_id);
       }
 
       // LOAD_VBRK
@@ -626,12 +626,12 @@ template <class _data_struct> class Acmtblu1Parser
         }
       }
 
-      // LOAD_UVTR1
+      // LOAD_UVTR2
       if (nstr > 44) {
-        if (!data->getValue(LOAD_UVTR1,&rval,l_id)) {
-          data->addValue(LOAD_UVTR1, atof(split_line[44].c_str()), l_id);
+        if (!data->getValue(LOAD_UVTR2,&rval,l_id)) {
+          data->addValue(LOAD_UVTR2, atof(split_line[44].c_str()), l_id);
         } else {
-          data->setValue(LOAD_UVTR1, atof(split_line[44].c_str()), l_id);
+          data->setValue(LOAD_UVTR2, atof(split_line[44].c_str()), l_id);
         }
       }
 
diff --git a/src/parser/parser_classes/cim6bl.hpp b/src/parser/parser_classes/cim6bl.hpp
index cefec2d..fdb3535 100644
--- a/src/parser/parser_classes/cim6bl.hpp
+++ b/src/parser/parser_classes/cim6bl.hpp
@@ -88,9 +88,9 @@ template <class _data_struct> class Cim6blParser
 
       // LOAD_X1
       if (!data->getValue(LOAD_X1,&rval,l_id)) {
-        data->addValue(LOAD_X1, data_struct.r1, l_id);
+        data->addValue(LOAD_X1, data_struct.x1, l_id);
       } else {
-        data->setValue(LOAD_X1, data_struct.r1, l_id);
+        data->setValue(LOAD_X1, data_struct.x1, l_id);
       }
 
       // LOAD_R2
@@ -123,9 +123,9 @@ template <class _data_struct> class Cim6blParser
 
       // LOAD_E2
       if (!data->getValue(LOAD_E2,&rval,l_id)) {
-        data->addValue(LOAD_E2, data_struct.se2, l_id);
+        data->addValue(LOAD_E2, data_struct.e2, l_id);
       } else {
-        data->setValue(LOAD_E2, data_struct.se2, l_id);
+        data->setValue(LOAD_E2, data_struct.e2, l_id);
       }
 
       // LOAD_SE2
diff --git a/src/parser/parser_classes/cmldblu1.hpp b/src/parser/parser_classes/cmldblu1.hpp
index 76f9bd2..4ce4b08 100644
--- a/src/parser/parser_classes/cmldblu1.hpp
+++ b/src/parser/parser_classes/cmldblu1.hpp
@@ -963,16 +963,16 @@ template <class _data_struct> class Cmldblu1Parser
 
       // LOAD_TTR1
       if (!data->getValue(LOAD_TTR1,&rval,l_id)) {
-        data->addValue(LOAD_TTR1, data_struct.ttr2, l_id);
+        data->addValue(LOAD_TTR1, data_struct.ttr1, l_id);
       } else {
-        data->setValue(LOAD_TTR1, data_struct.ttr2, l_id);
+        data->setValue(LOAD_TTR1, data_struct.ttr1, l_id);
       }
 
       // LOAD_UVTR2
       if (!data->getValue(LOAD_UVTR2,&rval,l_id)) {
         data->addValue(LOAD_UVTR2, data_struct.uvtr2, l_id);
       } else {
-        data->setValue(LOAD_VC2ON, data_struct.uvtr2, l_id);
+        data->setValue(LOAD_UVTR2, data_struct.uvtr2, l_id);
       }
 
       // LOAD_TTR2
@@ -1549,7 +1549,7 @@ template <class _data_struct> class Cmldblu1Parser
       }
 
       // LOAD_RSB
-      if (nstr > 71) {
+      if (nstr > 70) {
         if (!data->getValue(LOAD_RSB,&rval,l_id)) {
           data->addValue(LOAD_RSB, atof(split_line[70].c_str()), l_id);
         } else {
@@ -1558,7 +1558,7 @@ template <class _data_struct> class Cmldblu1Parser
       }
 
       // LOAD_LSB
-      if (nstr > 72) {
+      if (nstr > 71) {
         if (!data->getValue(LOAD_LSB,&rval,l_id)) {
           data->addValue(LOAD_LSB, atof(split_line[71].c_str()), l_id);
         } else {
diff --git a/src/parser/parser_classes/distr1.hpp b/src/parser/parser_classes/distr1.hpp
index 007e325..7afc8ce 100644
--- a/src/parser/parser_classes/distr1.hpp
+++ b/src/parser/parser_classes/distr1.hpp
@@ -208,9 +208,9 @@ template <class _data_struct> class Distr1Parser
 
       // RELAY_ZONE3_TIME
       if (!data->getValue(RELAY_ZONE3_TIME,&rval,r_id)) {
-        data->addValue(RELAY_ZONE3_TIME, data_struct.zone2_time, r_id);
+        data->addValue(RELAY_ZONE3_TIME, data_struct.zone3_time, r_id);
       } else {
-        data->setValue(RELAY_ZONE3_TIME, data_struct.zone2_time, r_id);
+        data->setValue(RELAY_ZONE3_TIME, data_struct.zone3_time, r_id);
       }
 
       // RELAY_ZONE3_REACH
diff --git a/src/parser/parser_classes/gdform.hpp b/src/parser/parser_classes/gdform.hpp
index 6e83f1f..4c7f292 100644
--- a/src/parser/parser_classes/gdform.hpp
+++ b/src/parser/parser_classes/gdform.hpp
@@ -196,6 +196,7 @@ template <class _data_struct> class GdformParser
         gridpack::component::DataCollection *data, int g_id)
     {
       double rval;
+      int ival;
       int nstr = split_line.size();
       // GENERATOR_MODEL              "MODEL"                  string
       std::string stmp, model;
@@ -240,7 +241,7 @@ template <class _data_struct> class GdformParser
         if (!data->getValue(GENERATOR_MP,&rval,g_id)) {
           data->addValue(GENERATOR_MP, atof(split_line[6].c_str()), g_id);
         } else {
-          data->setValue(GENERATOR_MP, atof(split_line[10].c_str()), g_id);
+          data->setValue(GENERATOR_MP, atof(split_line[6].c_str()), g_id);
         }
       } 
 
@@ -373,7 +374,7 @@ template <class _data_struct> class GdformParser
 
       // GENERATOR_VFLAG
       if (nstr > 21) {
-        if (!data->getValue(GENERATOR_VFLAG,&rval,g_id)) {
+        if (!data->getValue(GENERATOR_VFLAG,&ival,g_id)) {
           data->addValue(GENERATOR_VFLAG,
               atoi(split_line[21].c_str()), g_id);
         } else {
diff --git a/src/parser/parser_classes/genrou.hpp b/src/parser/parser_classes/genrou.hpp
index 3475803..903e58e 100644
--- a/src/parser/parser_classes/genrou.hpp
+++ b/src/parser/parser_classes/genrou.hpp
@@ -278,7 +278,7 @@ template <class _data_struct> class GenrouParser
               atof(split_line[10].c_str()), g_id);
         } else {
           data->setValue(GENERATOR_XQ,
-              atof(split_line[9].c_str()), g_id);
+              atof(split_line[10].c_str()), g_id);
         }
       } 
 
diff --git a/src/parser/parser_classes/ieelbl.hpp b/src/parser/parser_classes/ieelbl.hpp
index 829f327..f8fb94c 100644
--- a/src/parser/parser_classes/ieelbl.hpp
+++ b/src/parser/parser_classes/ieelbl.hpp
@@ -177,7 +177,7 @@ template <class _data_struct> class IeelblParser
 
       // LOAD_A1
       if (nstr > 3) {
-        if (!data->getValue(LOAD_A1,&ival,l_id)) {
+        if (!data->getValue(LOAD_A1,&rval,l_id)) {
           data->addValue(LOAD_A1, atof(split_line[3].c_str()), l_id);
         } else {
           data->setValue(LOAD_A1, atof(split_line[3].c_str()), l_id);
diff --git a/src/parser/parser_classes/psssim.hpp b/src/parser/parser_classes/psssim.hpp
index 43b4466..e6e7fa8 100644
--- a/src/parser/parser_classes/psssim.hpp
+++ b/src/parser/parser_classes/psssim.hpp
@@ -201,10 +201,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 3) {
         if (!data->getValue(PSSSIM_INPUTTYPE,&ival,g_id)) {
           data->addValue(PSSSIM_INPUTTYPE,
-              atof(split_line[3].c_str()), g_id);
+              atoi(split_line[3].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_INPUTTYPE,
-              atof(split_line[3].c_str()), g_id);
+              atoi(split_line[3].c_str()), g_id);
         }
       } 
 
@@ -212,10 +212,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 4) {
         if (!data->getValue(PSSSIM_BUS1,&ival,g_id)) {
           data->addValue(PSSSIM_BUS1,
-              atof(split_line[4].c_str()), g_id);
+              atoi(split_line[4].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_BUS1,
-              atof(split_line[4].c_str()), g_id);
+              atoi(split_line[4].c_str()), g_id);
         }
       } 
 
@@ -223,10 +223,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 5) {
         if (!data->getValue(PSSSIM_BUS2,&ival,g_id)) {
           data->addValue(PSSSIM_BUS2,
-              atof(split_line[5].c_str()), g_id);
+              atoi(split_line[5].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_BUS2,
-              atof(split_line[5].c_str()), g_id);
+              atoi(split_line[5].c_str()), g_id);
         }
       } 
 
@@ -234,10 +234,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 6) {
         if (!data->getValue(PSSSIM_BUS3,&ival,g_id)) {
           data->addValue(PSSSIM_BUS3,
-              atof(split_line[6].c_str()), g_id);
+              atoi(split_line[6].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_BUS3,
-              atof(split_line[6].c_str()), g_id);
+              atoi(split_line[6].c_str()), g_id);
         }
       } 
 
@@ -245,10 +245,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 7) {
         if (!data->getValue(PSSSIM_BUS4,&ival,g_id)) {
           data->addValue(PSSSIM_BUS4,
-              atof(split_line[7].c_str()), g_id);
+              atoi(split_line[7].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_BUS4,
-              atof(split_line[7].c_str()), g_id);
+              atoi(split_line[7].c_str()), g_id);
         }
       } 
 
@@ -256,10 +256,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 8) {
         if (!data->getValue(PSSSIM_BUS5,&ival,g_id)) {
           data->addValue(PSSSIM_BUS5,
-              atof(split_line[8].c_str()), g_id);
+              atoi(split_line[8].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_BUS5,
-              atof(split_line[8].c_str()), g_id);
+              atoi(split_line[8].c_str()), g_id);
         }
       } 
 
@@ -267,10 +267,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 9) {
         if (!data->getValue(PSSSIM_BUS6,&ival,g_id)) {
           data->addValue(PSSSIM_BUS6,
-              atof(split_line[9].c_str()), g_id);
+              atoi(split_line[9].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_BUS6,
-              atof(split_line[9].c_str()), g_id);
+              atoi(split_line[9].c_str()), g_id);
         }
       }
 
@@ -391,37 +391,37 @@ template <class _data_struct> class PsssimParser
       int nstr = split_line.size();
       // PSSSIM_INPUTTYPE
       if (nstr > 3) {
-        data.psssim_inputtype= atof(split_line[3].c_str());
+        data.psssim_inputtype= atoi(split_line[3].c_str());
       }
 
       // PSSSIM_BUS1
       if (nstr > 4) {
-        data.psssim_bus1= atof(split_line[4].c_str());
+        data.psssim_bus1= atoi(split_line[4].c_str());
       }
 
       // PSSSIM_BUS2
       if (nstr > 5) {
-        data.psssim_bus2 = atof(split_line[5].c_str());
+        data.psssim_bus2 = atoi(split_line[5].c_str());
       }
 
       // PSSSIM_BUS3
       if (nstr > 6) {
-        data.psssim_bus3 = atof(split_line[6].c_str());
+        data.psssim_bus3 = atoi(split_line[6].c_str());
       }
 
       // PSSSIM_BUS4
       if (nstr > 7) {
-        data.psssim_bus4 = atof(split_line[7].c_str());
+        data.psssim_bus4 = atoi(split_line[7].c_str());
       }
 
       // PSSSIM_BUS5
       if (nstr > 8) {
-        data.psssim_bus5 = atof(split_line[8].c_str());
+        data.psssim_bus5 = atoi(split_line[8].c_str());
       }
 
       // PSSSIM_BUS6
       if (nstr > 9) {
-        data.psssim_bus6 = atof(split_line[9].c_str());
+        data.psssim_bus6 = atoi(split_line[9].c_str());
       }
 
       // PSSSIM_GAINK
diff --git a/src/parser/parser_classes/reeca1.hpp b/src/parser/parser_classes/reeca1.hpp
index 1d517be..25ff3c8 100644
--- a/src/parser/parser_classes/reeca1.hpp
+++ b/src/parser/parser_classes/reeca1.hpp
@@ -644,7 +644,7 @@ template <class _data_struct> class Reeca1Parser
         if (!data->getValue(GENERATOR_REECA_TIQ,&rval,g_id)) {
           data->addValue(GENERATOR_REECA_TIQ, atof(split_line[ 31].c_str()), g_id);
         } else {
-          data->setValue(GENERATOR_REECA_TIQ, atof(split_line[ 32].c_str()), g_id);
+          data->setValue(GENERATOR_REECA_TIQ, atof(split_line[ 31].c_str()), g_id);
         }
       } 
 	  
diff --git a/src/parser/parser_classes/repca1.hpp b/src/parser/parser_classes/repca1.hpp
index 340c16d..b75055b 100644
--- a/src/parser/parser_classes/repca1.hpp
+++ b/src/parser/parser_classes/repca1.hpp
@@ -551,7 +551,7 @@ template <class _data_struct> class Repca1Parser
         if (!data->getValue(GENERATOR_REPCA_FEMIN,&rval,g_id)) {
           data->addValue(GENERATOR_REPCA_FEMIN, atof(split_line[ 31].c_str()), g_id);
         } else {
-          data->setValue(GENERATOR_REPCA_FEMIN, atof(split_line[ 32].c_str()), g_id);
+          data->setValue(GENERATOR_REPCA_FEMIN, atof(split_line[ 31].c_str()), g_id);
         }
       } 
 	  
diff --git a/src/parser/parser_classes/wsieg1.hpp b/src/parser/parser_classes/wsieg1.hpp
index dc61689..9794fa8 100644
--- a/src/parser/parser_classes/wsieg1.hpp
+++ b/src/parser/parser_classes/wsieg1.hpp
@@ -95,7 +95,7 @@ template <class _data_struct> class Wsieg1Parser
 
       // GOVERNOR_T3
       if (!data->getValue(GOVERNOR_T3,&rval,g_id)) {
-        data->addValue(GOVERNOR_T3, data_struct.gv_t2, g_id);
+        data->addValue(GOVERNOR_T3, data_struct.gv_t3, g_id);
       } else {
         data->setValue(GOVERNOR_T3, data_struct.gv_t3, g_id);
       }
@@ -711,7 +711,7 @@ template <class _data_struct> class Wsieg1Parser
           data->addValue(GOVERNOR_GV5,
               atof(split_line[36].c_str()), g_id);
         } else {
-          data->setValue(GOVERNOR_GV4,
+          data->setValue(GOVERNOR_GV5,
               atof(split_line[36].c_str()), g_id);
         }
       } 
@@ -730,7 +730,7 @@ template <class _data_struct> class Wsieg1Parser
       // GOVERNOR_IBLOCK
       if (nstr > 38) {
         if (!data->getValue(GOVERNOR_IBLOCK,&ival,g_id)) {
-          data->addValue(GOVERNOR_PGV5,
+          data->addValue(GOVERNOR_IBLOCK,
               atoi(split_line[38].c_str()), g_id);
         } else {
           data->setValue(GOVERNOR_IBLOCK,
-- 
2.43.0


From 5ef6bc38015a2548d27965638f1aa2c4aa1b716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 055/140] fix: read ESST4B exciters given together with the raw
 file

---
 src/parser/base_pti_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base_pti_parser.hpp b/src/parser/base_pti_parser.hpp
index 205422d..9644376 100644
--- a/src/parser/base_pti_parser.hpp
+++ b/src/parser/base_pti_parser.hpp
@@ -1655,7 +1655,7 @@ class BasePTIParser : public BaseParser<_network>
             } else if (sval == "ESST1A") {
               Esst1aParser<gen_params> parser;
               parser.parse(split_line, data, g_id);
-            } else if (sval == "ESST4A") {
+            } else if (sval == "ESST4B") {
               Esst4bParser<gen_params> parser;
               parser.parse(split_line, data, g_id);
             } else if (sval == "GGOV1") {
-- 
2.43.0


From a699c1c6f0ea4c9ac6cc9dab93394a0c4b01ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 056/140] fix: attach DISTR1 relays to the branch they name

---
 src/parser/base_pti_parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/base_pti_parser.hpp b/src/parser/base_pti_parser.hpp
index 9644376..3edbf75 100644
--- a/src/parser/base_pti_parser.hpp
+++ b/src/parser/base_pti_parser.hpp
@@ -1781,6 +1781,8 @@ class BasePTIParser : public BaseParser<_network>
           } else {
             continue;
           }
+          data = dynamic_cast<gridpack::component::DataCollection*>
+            (p_network->getBranchData(l_idx).get());
           if (sval == "DISTR1") {
             Distr1Parser<gen_params> parser;
             parser.parse(split_line, data);
@@ -1979,7 +1981,7 @@ class BasePTIParser : public BaseParser<_network>
           int from_idx, to_idx;
           if (sval == "DISTR1") {
             from_idx = atoi(split_line[0].c_str());
-            to_idx = atoi(split_line[3].c_str());
+            to_idx = atoi(split_line[2].c_str());
             data.from_bus = from_idx;
             data.to_bus = to_idx;
             Distr1Parser<branch_relay_params> parser;
-- 
2.43.0


From 28a676d47a9186f20c643b6db527bdfbde3720f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 057/140] fix: ignore dynamic records of loads that do not
 exist

---
 src/parser/base_pti_parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/base_pti_parser.hpp b/src/parser/base_pti_parser.hpp
index 3edbf75..c595dca 100644
--- a/src/parser/base_pti_parser.hpp
+++ b/src/parser/base_pti_parser.hpp
@@ -1753,6 +1753,7 @@ class BasePTIParser : public BaseParser<_network>
               }
             }
           }
+          if (l_id == -1) continue;
           if (sval == "CIM6BL") {
             Cim6blParser<load_params> parser;
             parser.parse(split_line, data, l_id);
-- 
2.43.0


From e665f00b084b958a9eca00fd6152a370835c6a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 058/140] fix: dynamic model records may be split anywhere
 between two lines

A line end in a record joined the tokens on either side of it, a comment or
an empty line with a carriage return was taken for a record, and a record
without terminating slash at the end of the file was never finished.
---
 src/parser/base_pti_parser.hpp | 73 ++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 35 deletions(-)

diff --git a/src/parser/base_pti_parser.hpp b/src/parser/base_pti_parser.hpp
index c595dca..2439385 100644
--- a/src/parser/base_pti_parser.hpp
+++ b/src/parser/base_pti_parser.hpp
@@ -20,6 +20,7 @@
 
 #define OLD_MAP
 
+#include <algorithm>
 #include <iostream>
 #include <string>
 #include <vector>
@@ -1541,26 +1542,42 @@ class BasePTIParser : public BaseParser<_network>
       return ret;
     }
 
+    /**
+     * Assemble a dynamic model record. Records end with a '/' character and can
+     * extend over several lines
+     * @param input stream of lines from .dyr file
+     * @param line first line of record
+     * @param split_line list of tokens in the record
+     * @return false if line is blank or a comment, or if the record is too
+     * short to describe a device
+     */
+    bool getRecord(std::istream & input, std::string line,
+        std::vector<std::string> &split_line)
+    {
+      // Some systems use \r\n for line ends
+      std::string::size_type idx = line.find_first_not_of(" \t\r");
+      if (idx == std::string::npos || line[idx] == '/') return false;
+      std::string record = line;
+      idx = record.find('/');
+      while (idx == std::string::npos && std::getline(input,line)) {
+        // end of line also ends the last token on the line
+        record.append(" ");
+        record.append(line);
+        idx = record.find('/');
+      }
+      if (idx != std::string::npos) record.erase(idx);
+      std::replace(record.begin(),record.end(),'\r',' ');
+      split_line = splitPSSELine(record);
+      return split_line.size() > 2;
+    }
+
     void find_ds_par(std::istream & input)
     {
       std::string          line;
       gridpack::component::DataCollection *data;
       while(std::getline(input,line)) {
-        // Check to see if line is blank
-        int idx = line.find_first_not_of(' ');
-        if (idx == std::string::npos) continue;
-
-        std::string record = line;
-        idx = line.find('/');
-        while (idx == std::string::npos) {
-          std::getline(input,line);
-          idx = line.find('/');
-          record.append(line);
-        }
-        idx = record.find('/');
-        if (idx != std::string::npos) record.erase(idx,record.length()-idx);
         std::vector<std::string>  split_line;
-        split_line = splitPSSELine(record);
+        if (!getRecord(input,line,split_line)) continue;
 
         std::string sval;
         // MODEL TYPE              "MODEL"                  string
@@ -1568,6 +1585,9 @@ class BasePTIParser : public BaseParser<_network>
         sval = util.trimQuotes(split_line[1]);
         util.toUpper(sval);
 
+        // Only generator models can do without parameters
+        if (split_line.size() < 4 && !onGenerator(sval)) continue;
+
         if (onGenerator(sval)) {
           // GENERATOR_BUSNUMBER               "I"                   integer
           int l_idx, o_idx;
@@ -1801,33 +1821,16 @@ class BasePTIParser : public BaseParser<_network>
       std::string          line;
       gen_vector->clear();
       while(std::getline(input,line)) {
-        // Check to see if line is blank
-        int idx = line.find_first_not_of(' ');
-	int idx2 = line.find_first_not_of('\r'); // Some systems use \r\n for line ends.
-        if (idx == std::string::npos || idx2 == std::string::npos) continue;
-        // Check to see if line is a comment
-        if (line[idx] == '/') {
-          if (line.length() > idx+2 && line[idx+1] == '/') {
-            continue;
-          }
-        }
-
-        std::string record = line;
-        idx = line.find('/');
-        while (idx == std::string::npos) {
-          std::getline(input,line);
-          idx = line.find('/');
-          record.append(line);
-        }
-        idx = record.find('/');
-        if (idx != std::string::npos) record.erase(idx,record.length()-idx);
         std::vector<std::string>  split_line;
-        split_line = splitPSSELine(record);
+        if (!getRecord(input,line,split_line)) continue;
         std::string sval;
         gridpack::utility::StringUtils util;
         sval = util.trimQuotes(split_line[1]);
         util.toUpper(sval);
 
+        // Only generator models can do without parameters
+        if (split_line.size() < 4 && !onGenerator(sval)) continue;
+
         if (onGenerator(sval)) {
           gen_params data;
 
-- 
2.43.0


From 420de798f76b49579de1f2a4a6b3daa6a763c218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 059/140] fix: fields missing from a dynamic model record are
 zero, not garbage

---
 src/parser/base_pti_parser.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/base_pti_parser.hpp b/src/parser/base_pti_parser.hpp
index 2439385..38d9d1e 100644
--- a/src/parser/base_pti_parser.hpp
+++ b/src/parser/base_pti_parser.hpp
@@ -1832,7 +1832,7 @@ class BasePTIParser : public BaseParser<_network>
         if (split_line.size() < 4 && !onGenerator(sval)) continue;
 
         if (onGenerator(sval)) {
-          gen_params data;
+          gen_params data = gen_params();
 
           // GENERATOR_BUSNUMBER               "I"                   integer
           int o_idx;
@@ -1938,14 +1938,14 @@ class BasePTIParser : public BaseParser<_network>
           // RELAY_BUSNUMBER               "I"                   integer
           int o_idx;
           if (sval == "LVSHBL") {
-            bus_relay_params data;
+            bus_relay_params data = bus_relay_params();
             o_idx = atoi(split_line[0].c_str());
             data.bus_id = o_idx;
             LvshblParser<bus_relay_params> parser;
             parser.store(split_line,data);
             bus_relay_vector->push_back(data);
           } else if (sval == "FRQTPAT") {
-            bus_relay_params data;
+            bus_relay_params data = bus_relay_params();
             o_idx = atoi(split_line[3].c_str());
             data.bus_id = o_idx;
             FrqtpatParser<bus_relay_params> parser;
@@ -1954,7 +1954,7 @@ class BasePTIParser : public BaseParser<_network>
           }
         } else if (onLoad(sval)) {
           // ID of bus that owns load
-          load_params data;
+          load_params data = load_params();
           int o_idx = atoi(split_line[0].c_str());
           data.bus_id = o_idx;
 
@@ -1980,7 +1980,7 @@ class BasePTIParser : public BaseParser<_network>
           }
           load_vector->push_back(data);
         } else if (onBranch(sval)) {
-          branch_relay_params data;
+          branch_relay_params data = branch_relay_params();
 
           int from_idx, to_idx;
           if (sval == "DISTR1") {
@@ -2006,7 +2006,7 @@ class BasePTIParser : public BaseParser<_network>
         std::vector<std::string>  split_line;
         split_line = splitPSSELine(line);
 
-        uc_params data;
+        uc_params data = uc_params();
 
         int nstr = split_line.size();
         if (nstr > 1) {
-- 
2.43.0


From 3bad666ba48e7e772586c02a2752a5759c4b3b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 060/140] fix: read the maximum operating generation from the
 .uc file

---
 src/parser/base_pti_parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/base_pti_parser.hpp b/src/parser/base_pti_parser.hpp
index 38d9d1e..c5a76bf 100644
--- a/src/parser/base_pti_parser.hpp
+++ b/src/parser/base_pti_parser.hpp
@@ -1394,9 +1394,9 @@ class BasePTIParser : public BaseParser<_network>
         }
 
         if (!data->getValue("GENERATOR_MAX_OP_GEN",&rval,g_id)) {
-          data->addValue("GENERATOR_MAX_OP_GEN", uc_data[i].max_gen, g_id);
+          data->addValue("GENERATOR_MAX_OP_GEN", uc_data[i].max_oper, g_id);
         } else {
-          data->setValue("GENERATOR_MAX_OP_GEN", uc_data[i].max_gen, g_id);
+          data->setValue("GENERATOR_MAX_OP_GEN", uc_data[i].max_oper, g_id);
         }
         if (!data->getValue("GENERATOR_MIN_UP",&rval,g_id)) {
           data->addValue("GENERATOR_MIN_UP", uc_data[i].min_up, g_id);
-- 
2.43.0


From 77edbebace7c6e3faf6a0152818600d107bc3344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 061/140] fix: read dynamic model files with the version 33, 34
 and 35 parsers

The maps used to find buses and branches were never set by these parsers.
---
 src/parser/PTI33_parser.hpp | 1 +
 src/parser/PTI34_parser.hpp | 1 +
 src/parser/PTI35_parser.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/parser/PTI33_parser.hpp b/src/parser/PTI33_parser.hpp
index 59116e6..2bf99c8 100644
--- a/src/parser/PTI33_parser.hpp
+++ b/src/parser/PTI33_parser.hpp
@@ -68,6 +68,7 @@ class PTI33_parser : public BasePTIParser<_network>
       : p_network(network), p_maxBusIndex(-1)
     {
       this->setNetwork(network);
+      this->setMaps(&p_busMap, &p_branchMap);
       p_network_data = network->getNetworkData();
     }
 
diff --git a/src/parser/PTI34_parser.hpp b/src/parser/PTI34_parser.hpp
index d12e24e..2de5812 100644
--- a/src/parser/PTI34_parser.hpp
+++ b/src/parser/PTI34_parser.hpp
@@ -70,6 +70,7 @@ class PTI34_parser : public BasePTIParser<_network>
       : p_network(network), p_maxBusIndex(-1)
     {
       this->setNetwork(network);
+      this->setMaps(&p_busMap, &p_branchMap);
       p_network_data = network->getNetworkData();
     }
 
diff --git a/src/parser/PTI35_parser.hpp b/src/parser/PTI35_parser.hpp
index d14dbc8..cc2da03 100644
--- a/src/parser/PTI35_parser.hpp
+++ b/src/parser/PTI35_parser.hpp
@@ -70,6 +70,7 @@ class PTI35_parser : public BasePTIParser<_network>
       : p_network(network), p_maxBusIndex(-1)
     {
       this->setNetwork(network);
+      this->setMaps(&p_busMap, &p_branchMap);
       p_network_data = network->getNetworkData();
     }
 
-- 
2.43.0


From 0acb41cb8d21ce866e21ed206dc5ce29d409769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 062/140] fix: shunts of lines given against the direction of
 their branch belong to the other bus

---
 .../components/y_matrix/ymatrix_components.cpp           | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/applications/components/y_matrix/ymatrix_components.cpp b/src/applications/components/y_matrix/ymatrix_components.cpp
index be851a3..06a3e1c 100644
--- a/src/applications/components/y_matrix/ymatrix_components.cpp
+++ b/src/applications/components/y_matrix/ymatrix_components.cpp
@@ -15,6 +15,7 @@
  */
 // -------------------------------------------------------------
 
+#include <algorithm>
 #include <vector>
 #include <iostream>
 #include <stdio.h>
@@ -603,10 +604,14 @@ gridpack::ymatrix::YMBranch::getShunt(gridpack::ymatrix::YMBus *bus)
         tmpr = 0.0;
       }
       // HACK: pointer comparison, maybe could handle this better
-      if (bus == getBus1().get()) {
+      bool isFrom = (bus == getBus1().get());
+      bool isTo = (bus == getBus2().get());
+      // ends of the element are reversed if it is switched
+      if (p_switched[i]) std::swap(isFrom,isTo);
+      if (isFrom) {
         tmpr += p_shunt_admt_g1[i];
         tmpi += p_shunt_admt_b1[i];
-      } else if (bus == getBus2().get()) {
+      } else if (isTo) {
         tmpr += p_shunt_admt_g2[i];
         tmpi += p_shunt_admt_b2[i];
       } else {
-- 
2.43.0


From ffeb1368ae72ec791cdb90a3f2cdb04f1d4b7120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 063/140] fix: closing a line between buses without other lines
 in service adds it to the Y-matrix

---
 src/applications/components/y_matrix/ymatrix_components.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/applications/components/y_matrix/ymatrix_components.cpp b/src/applications/components/y_matrix/ymatrix_components.cpp
index 06a3e1c..322d388 100644
--- a/src/applications/components/y_matrix/ymatrix_components.cpp
+++ b/src/applications/components/y_matrix/ymatrix_components.cpp
@@ -777,6 +777,7 @@ bool gridpack::ymatrix::YMBranch::setLineStatus(std::string tag,
   for (i=0; i<p_elems; i++) {
     if (tag == p_tag[i]) {
       p_branch_status[i] = status;
+      if (status) p_active = true;
       found = true;
       break;
     }
-- 
2.43.0


From 327468849c6ac0fcfe0a252a35e01be17d8b9993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 064/140] fix: all fixed and switched shunts in service count
 in the Y-matrix

---
 .../y_matrix/ymatrix_components.cpp           | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/applications/components/y_matrix/ymatrix_components.cpp b/src/applications/components/y_matrix/ymatrix_components.cpp
index 322d388..06c2e00 100644
--- a/src/applications/components/y_matrix/ymatrix_components.cpp
+++ b/src/applications/components/y_matrix/ymatrix_components.cpp
@@ -146,20 +146,34 @@ void gridpack::ymatrix::YMBus::load(
 {
   double sbase;
   data->getValue(CASE_SBASE, &sbase);
-  p_shunt = true;
+  p_shunt = false;
+  p_shunt_gs = 0.0;
+  p_shunt_bs = 0.0;
+  // add up all fixed shunts that are in service
+  int nshunt = 1;
+  data->getValue(SHUNT_NUMBER, &nshunt);
+  for (int i=0; i<nshunt; i++) {
+    double gl, bl;
+    int status = 1;
+    data->getValue(SHUNT_STATUS, &status, i);
+    if (status != 0 && data->getValue(BUS_SHUNT_GL, &gl, i)
+        && data->getValue(BUS_SHUNT_BL, &bl, i)) {
+      p_shunt = true;
+      p_shunt_gs += gl;
+      p_shunt_bs += bl;
+    }
+  }
+  // add switched shunt
   double shunt_binit;
-  p_shunt = p_shunt && data->getValue(BUS_SHUNT_GL, &p_shunt_gs,0);
-  p_shunt = p_shunt && data->getValue(BUS_SHUNT_BL, &p_shunt_bs,0);
-  bool binit = data->getValue(SHUNT_BINIT, &shunt_binit);
-  if (binit) p_shunt = true;
+  int swch_stat = 1;
+  data->getValue(SHUNT_SWCH_STAT, &swch_stat);
+  if (swch_stat != 0 && data->getValue(SHUNT_BINIT, &shunt_binit)) {
+    p_shunt = true;
+    p_shunt_bs += shunt_binit;
+  }
 
   p_shunt_gs /= sbase;
   p_shunt_bs /= sbase;
-  // update shunt based on shunt table 
-  if (binit) {
-    shunt_binit /= sbase; 
-    p_shunt_bs = shunt_binit;
-  }
   // Check to see if bus is reference bus
   int itype;
   data->getValue(BUS_TYPE, &itype);
-- 
2.43.0


From 7f688a909d308191fc63cdbfcb08628daee74ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 065/140] fix: branches to isolated buses do not contribute to
 the Y-matrix

---
 src/applications/components/y_matrix/ymatrix_components.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/applications/components/y_matrix/ymatrix_components.cpp b/src/applications/components/y_matrix/ymatrix_components.cpp
index 06c2e00..7298f6d 100644
--- a/src/applications/components/y_matrix/ymatrix_components.cpp
+++ b/src/applications/components/y_matrix/ymatrix_components.cpp
@@ -101,6 +101,12 @@ void gridpack::ymatrix::YMBus::setYBus(void)
   for (i=0; i<size; i++) {
     gridpack::ymatrix::YMBranch *branch
       = dynamic_cast<gridpack::ymatrix::YMBranch*>(branches[i].get());
+    // off-diagonal terms of isolated buses are not part of the matrix
+    gridpack::ymatrix::YMBus *bus1
+      = dynamic_cast<gridpack::ymatrix::YMBus*>(branch->getBus1().get());
+    gridpack::ymatrix::YMBus *bus2
+      = dynamic_cast<gridpack::ymatrix::YMBus*>(branch->getBus2().get());
+    if (bus1->isIsolated() || bus2->isIsolated()) continue;
     ret -= branch->getAdmittance();
     ret -= branch->getTransformer(this);
     ret += branch->getShunt(this);
-- 
2.43.0


From 94e2bb8e2adb62e80a5b038aa6cd0988481e7629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:04 +0000
Subject: [PATCH 066/140] fix: power flow results written over the original
 data use the case's own base and the generators' own outputs

---
 .../components/pf_matrix/pf_components.cpp    | 72 +++----------------
 1 file changed, 11 insertions(+), 61 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index e251986..efd3652 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -1252,72 +1252,22 @@ void gridpack::powerflow::PFBus::saveData(
 void gridpack::powerflow::PFBus::saveDataAlsotoOrg(
     boost::shared_ptr<gridpack::component::DataCollection> data)
 {
+  saveData(data);
+  // also modify the original values of the bus voltage and of the generators
   double rval;
-  int i;
-  if (!data->setValue("BUS_PF_VMAG",*p_vMag_ptr)) {
-    data->addValue("BUS_PF_VMAG",*p_vMag_ptr);
-  }
-  data->setValue(BUS_VOLTAGE_MAG,*p_vMag_ptr);  //also modify the original BUS_VOLTAGE_MAG 
-  
-  rval = *p_vAng_ptr;
-  double pi = 4.0*atan(1.0);
-  rval = 180.0*rval/pi;
-  if (!data->setValue("BUS_PF_VANG",rval)) {
-    data->addValue("BUS_PF_VANG",rval);
-  }
-  data->setValue(BUS_VOLTAGE_ANG,rval); //also modify the original BUS_VOLTAGE_ANG 
-  
-  
-  if (!data->setValue("BUS_TYPE",p_type)) {
-    data->addValue("BUS_TYPE",p_type);
+  data->setValue(BUS_VOLTAGE_MAG,*p_vMag_ptr);
+  if (data->getValue("BUS_PF_VANG",&rval)) {
+    data->setValue(BUS_VOLTAGE_ANG,rval);
   }
-  int ngen=p_pFac.size();
-  // Evalate p_Pinj and p_Qinj if bus is reference bus. This is skipped when
-  // evaluating matrix elements.
-#ifndef LARGE_MATRIX
-  if (getReferenceBus() || isIsolated()) {
-    std::vector<boost::shared_ptr<BaseComponent> > branches;
-    getNeighborBranches(branches);
-    int size = branches.size();
-    double P, Q, p, q;
-    P = 0.0;
-    Q = 0.0;
-    for (i=0; i<size; i++) {
-      gridpack::powerflow::PFBranch *branch
-        = dynamic_cast<gridpack::powerflow::PFBranch*>(branches[i].get());
-      branch->getPQ(this, &p, &q);
-      P += p;
-      Q += q;
+  int ngen = p_pFac.size();
+  for (int i=0; i<ngen; i++) {
+    if (data->getValue("GENERATOR_PF_PGEN",&rval,i)) {
+      data->setValue(GENERATOR_PG,rval*p_sbase,i);
     }
-    // Also add bus i's own Pi, Qi
-    P += p_v*p_v*p_ybusr;
-    Q += p_v*p_v*(-p_ybusi);
-    p_Pinj = P;
-    p_Qinj = Q;
-  }
-#endif
-  double pl=0.0;
-  double ql=0.0;
-  for (i=0; i<p_pl.size(); i++) {
-    if (p_lstatus[i] == 1) {
-      pl += p_pl[i];
-      ql += p_ql[i];
+    if (data->getValue("GENERATOR_PF_QGEN",&rval,i)) {
+      data->setValue(GENERATOR_QG,rval*p_sbase,i);
     }
   }
-  for (i=0; i<ngen; i++) {
-    rval = p_pFac[i]*(p_Pinj+pl/p_sbase);
-    if (!data->setValue("GENERATOR_PF_PGEN",rval,i)) {
-      data->addValue("GENERATOR_PF_PGEN",rval,i);
-    }
-	data->setValue(GENERATOR_PG,rval*100.0,i); //also modify the original GENERATOR_PG 
-	
-    rval = p_pFac[i]*(p_Qinj+ql/p_sbase);
-    if (!data->setValue("GENERATOR_PF_QGEN",rval,i)) {
-      data->addValue("GENERATOR_PF_QGEN",rval,i);
-    }
-	data->setValue(GENERATOR_QG,rval*100.0,i); //also modify the original GENERATOR_QG 
-	
-  }
 }
 
 /**
-- 
2.43.0


From e96e3b9f3a4d544cecba0197d3c84a1701456a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 067/140] fix: transmission elements out of service or ending
 at isolated buses carry no power

---
 src/applications/components/pf_matrix/pf_components.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index efd3652..bbacafd 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -2195,6 +2195,10 @@ gridpack::ComplexType gridpack::powerflow::PFBranch::getComplexPower(
   gridpack::powerflow::PFBus *bus2 =
     dynamic_cast<gridpack::powerflow::PFBus*>(getBus2().get());
   vj = bus2->getComplexVoltage();
+  // No flow on elements that are out of service or end at an isolated bus
+  if (!getBranchStatus(tag) || bus1->isIsolated() || bus2->isIsolated()) {
+    return s;
+  }
   getLineElements(tag,&Yii,&Yij);
   s = vi*conj(Yii*vi+Yij*vj)*p_sbase;
   return s;
-- 
2.43.0


From bd5f738414fc077bc0b5ee3210dbb6a231d91769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 068/140] fix: generators in service share the output of their
 bus whatever the status and capacity of the others

---
 .../components/pf_matrix/pf_components.cpp    | 51 ++++++++++++-------
 .../components/pf_matrix/pf_components.hpp    |  6 +++
 2 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index bbacafd..aac1ac0 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -479,7 +479,6 @@ void gridpack::powerflow::PFBus::load(
   int ngen = 0;
   p_ngen = 0;
   if (data->getValue(GENERATOR_NUMBER, &ngen)) {
-    double pcaptot = 0.0;
     for (i=0; i<ngen; i++) {
       lgen = true;
       lgen = lgen && data->getValue(GENERATOR_PG, &pg,i);
@@ -509,13 +508,8 @@ void gridpack::powerflow::PFBus::load(
         p_qmin_orig.push_back(qmin);
         p_pt.push_back(pt);
         p_pb.push_back(pb);
-	if(gstatus) {
-	  p_pFac.push_back(pt - pb);
-	  pcaptot += pt - pb;
-	} else {
-	  p_pFac.push_back(0.0);
-	}
-	p_pFac_orig.push_back(pt - pb);
+        p_pFac.push_back(0.0);
+        p_pFac_orig.push_back(pt - pb);
 
         if (gstatus == 1) {
           p_v = vs; //reset initial PV voltage to set voltage
@@ -527,15 +521,7 @@ void gridpack::powerflow::PFBus::load(
         p_ngen++;
       }
     }
-    if (pcaptot != 0.0 && p_ngen > 1) {
-      for (i=0; i<p_ngen; i++) {
-        p_pFac[i] = p_pFac[i]/pcaptot;
-        p_pFac_orig[i] = p_pFac[i];
-      }
-    } else {
-      p_pFac[0] = 1.0;
-      p_pFac_orig[0] = p_pFac[0];
-    }
+    p_updateParticipation();
   }
   p_saveisPV = p_isPV;
 
@@ -590,6 +576,33 @@ void gridpack::powerflow::PFBus::load(
   }
 }
 
+/**
+ * Evaluate the participation factors of generators from the capacities
+ * of the generators that are in service
+ */
+void gridpack::powerflow::PFBus::p_updateParticipation()
+{
+  int i;
+  int non = 0;
+  double pcaptot = 0.0;
+  int ngen = static_cast<int>(p_pFac.size());
+  for (i=0; i<ngen; i++) {
+    if (p_gstatus[i]) {
+      pcaptot += p_pFac_orig[i];
+      non++;
+    }
+  }
+  for (i=0; i<ngen; i++) {
+    if (!p_gstatus[i]) {
+      p_pFac[i] = 0.0;
+    } else if (pcaptot != 0.0 && non > 1) {
+      p_pFac[i] = p_pFac_orig[i]/pcaptot;
+    } else {
+      p_pFac[i] = 1.0/static_cast<double>(non);
+    }
+  }
+}
+
 /**
  * Set values of YBus matrix. These can then be used in subsequent
  * calculations
@@ -741,14 +754,13 @@ void gridpack::powerflow::PFBus::setGenStatus(std::string gen_id, bool status)
     if (gen_id == p_gid[i]) {
       p_gstatus[i] = status;
       if (status == 0) {
-        p_pFac[i] = 0.0;
         p_qmax[i] = 0.0;
         p_qmin[i] = 0.0;
       } else {
-        p_pFac[i] = p_pFac_orig[i];
         p_qmax[i] = p_qmax_orig[i];
         p_qmin[i] = p_qmin_orig[i];
       }
+      p_updateParticipation();
       return;
     }
   }
@@ -1616,6 +1628,7 @@ void gridpack::powerflow::PFBus::setGeneratorStatus(
       data->setValue(GENERATOR_PG,0.0,idx);
       data->setValue(GENERATOR_QG,0.0,idx);
     }
+    p_updateParticipation();
     // Check PV status and change it if all generators are off
     p_isPV = p_gstatus[0];
     for (i=1; i<p_ngen; i++) {
diff --git a/src/applications/components/pf_matrix/pf_components.hpp b/src/applications/components/pf_matrix/pf_components.hpp
index 993171f..1c3fb5e 100644
--- a/src/applications/components/pf_matrix/pf_components.hpp
+++ b/src/applications/components/pf_matrix/pf_components.hpp
@@ -438,6 +438,12 @@ class PFBus
     void setScale(double scale);
 
   private:
+    /**
+     * Evaluate the participation factors of generators from the capacities
+     * of the generators that are in service
+     */
+    void p_updateParticipation();
+
     double p_shunt_gs;
     double p_shunt_bs;
     bool p_shunt;
-- 
2.43.0


From 68f6894a9e281a44e6523082cfb7712ea96edb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 069/140] fix: generators taken out of service have no output
 in power flow results

---
 .../components/pf_matrix/pf_components.cpp         | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index aac1ac0..78d042a 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -1040,11 +1040,12 @@ bool gridpack::powerflow::PFBus::serialWrite(char *string, const int bufsize,
       if(getReferenceBus()) {
 	pval = p_pFac[i]*(p_Pinj*p_sbase+pl);
 	qval = p_pFac[i]*(p_Qinj*p_sbase+ql);
+      } else if (!p_gstatus[i]) {
+	pval = 0.0;
+	qval = 0.0;
       } else if (p_isPV) {
 	pval = p_pg[i];
-	if(p_gstatus[i]) {
-	  qval = p_pFac[i]*(p_Qinj*p_sbase+ql);
-	}
+	qval = p_pFac[i]*(p_Qinj*p_sbase+ql);
       } else {
 	pval = p_pg[i];
 	qval = p_qg[i];
@@ -1233,6 +1234,13 @@ void gridpack::powerflow::PFBus::saveData(
       if (!data->setValue("GENERATOR_PF_QGEN",rval,i)) {
 	data->addValue("GENERATOR_PF_QGEN",rval,i);
       }
+    } else if (!p_gstatus[i]) {
+      if (!data->setValue("GENERATOR_PF_PGEN",0.0,i)) {
+	data->addValue("GENERATOR_PF_PGEN",0.0,i);
+      }
+      if (!data->setValue("GENERATOR_PF_QGEN",0.0,i)) {
+	data->addValue("GENERATOR_PF_QGEN",0.0,i);
+      }
     } else if (p_isPV) {
       if (!data->setValue("GENERATOR_PF_PGEN",p_pg[i]/p_sbase,i)) {
 	data->addValue("GENERATOR_PF_PGEN",p_pg[i]/p_sbase,i);
-- 
2.43.0


From 8db99145399a9f6007ef8552e8ee2c194bc8006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 070/140] fix: loading power flow buses again replaces the
 saved generation and load

---
 src/applications/components/pf_matrix/pf_components.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 78d042a..608b5a2 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -430,6 +430,9 @@ void gridpack::powerflow::PFBus::load(
 
   // This routine may be called more than once, so clear all vectors
   p_pg.clear();
+  p_savePg.clear();
+  p_savePl.clear();
+  p_saveQl.clear();
   p_qg.clear();
   p_pFac.clear();
   p_pFac_orig.clear();
-- 
2.43.0


From 15cd33633129ff8432d4b81b6115d3fa4bff2041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 071/140] fix: a power flow iteration that broke down is not
 reported as converged

---
 src/applications/modules/powerflow/pf_app_module.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_app_module.cpp b/src/applications/modules/powerflow/pf_app_module.cpp
index be03a61..1e2e5fb 100644
--- a/src/applications/modules/powerflow/pf_app_module.cpp
+++ b/src/applications/modules/powerflow/pf_app_module.cpp
@@ -530,8 +530,9 @@ bool gridpack::powerflow::PFAppModule::solve()
       }
     }
 
-    if (iter >= p_max_iteration) ret = false;
-    if (p_qlim == 0) {
+    // the tolerance is not a number if the iteration broke down
+    if (!(real(tol) <= p_tolerance)) ret = false;
+    if (p_qlim == 0 || !ret) {
       repeat = false;
     } else {
       if (p_factory->checkQlimViolations()) {
-- 
2.43.0


From de38cc382faae92dc77f35df6ac1b321e6172245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 072/140] fix: generator reactive power is reported for the
 final voltages of the power flow

---
 src/applications/modules/powerflow/pf_app_module.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/applications/modules/powerflow/pf_app_module.cpp b/src/applications/modules/powerflow/pf_app_module.cpp
index 1e2e5fb..f6ef203 100644
--- a/src/applications/modules/powerflow/pf_app_module.cpp
+++ b/src/applications/modules/powerflow/pf_app_module.cpp
@@ -555,6 +555,9 @@ bool gridpack::powerflow::PFAppModule::solve()
     timer->start(t_updt);
     p_network->updateBuses();
     timer->stop(t_updt);
+
+    // Evaluate injections at final voltages
+    p_factory->setPQ();
   }
   timer->stop(t_total);
   return ret;
@@ -610,6 +613,8 @@ bool gridpack::powerflow::PFAppModule::nl_solve()
     solver->configure(cursor);
     solver->solve(*helper.X);
     helper.update(*helper.X);
+    // Evaluate injections at final voltages
+    p_factory->setPQ();
   } catch (const Exception& e) {
     std::cerr << e.what() << std::endl;
     timer->stop(t_lsolv);
-- 
2.43.0


From c3b5b716482649c9dbe4198e73783d003fc23252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 073/140] fix: reactive limits are checked at the final
 voltages, after these are back on the buses

---
 .../modules/powerflow/pf_app_module.cpp       | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_app_module.cpp b/src/applications/modules/powerflow/pf_app_module.cpp
index f6ef203..da73223 100644
--- a/src/applications/modules/powerflow/pf_app_module.cpp
+++ b/src/applications/modules/powerflow/pf_app_module.cpp
@@ -532,18 +532,6 @@ bool gridpack::powerflow::PFAppModule::solve()
 
     // the tolerance is not a number if the iteration broke down
     if (!(real(tol) <= p_tolerance)) ret = false;
-    if (p_qlim == 0 || !ret) {
-      repeat = false;
-    } else {
-      if (p_factory->checkQlimViolations()) {
-        repeat =false;
-      } else {
-        if (!p_no_print) {
-          sprintf (ioBuf,"There are Qlim violations at iter =%d\n", iter);
-          p_busIO->header(ioBuf);
-        }
-      }
-    }
     // Push final result back onto buses
     timer->start(t_bmap);
     p_factory->setMode(RHS);
@@ -558,6 +546,21 @@ bool gridpack::powerflow::PFAppModule::solve()
 
     // Evaluate injections at final voltages
     p_factory->setPQ();
+
+    // Check Q limits at final voltages. This may change the number of unknowns
+    // on buses, so it must be done after results have been pushed to buses
+    if (p_qlim == 0 || !ret) {
+      repeat = false;
+    } else {
+      if (p_factory->checkQlimViolations()) {
+        repeat =false;
+      } else {
+        if (!p_no_print) {
+          sprintf (ioBuf,"There are Qlim violations at iter =%d\n", iter);
+          p_busIO->header(ioBuf);
+        }
+      }
+    }
   }
   timer->stop(t_total);
   return ret;
-- 
2.43.0


From ad34dc4a417e5b298a954ebf14a8f75d8bd0f968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 074/140] fix: generators reaching a reactive limit are held
 there, and lifting the limits restores the bus

---
 .../components/pf_matrix/pf_components.cpp    | 129 +++++++-----------
 .../components/pf_matrix/pf_components.hpp    |   8 +-
 .../modules/powerflow/pf_factory_module.cpp   |   2 +-
 3 files changed, 52 insertions(+), 87 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 608b5a2..8fe5bab 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -58,6 +58,15 @@ gridpack::powerflow::PFBus::PFBus(void)
   p_ngen = 0;
   p_data = NULL;
   p_ignore = false;
+  p_vset = 0.0;
+  p_atQlim = false;
+  p_isPV = false;
+  p_saveisPV = false;
+  p_source = false;
+  p_sink = false;
+  p_original_isolated = false;
+  p_Pinj = 0.0;
+  p_Qinj = 0.0;
   p_vMag_ptr = NULL;
   p_vAng_ptr = NULL;
   p_PV_ptr = NULL;
@@ -232,89 +241,42 @@ bool gridpack::powerflow::PFBus::vectorValues(RealType *values)
  */
 bool gridpack::powerflow::PFBus::chkQlim(void)
 {
-  if (p_isPV) {
-    double qmax, qmin, ppl;
-    qmax = 0.0;
-    qmin = 0.0;
-    ppl = 0.0;
-    for (int i=0; i<p_gstatus.size(); i++) {
-      if (p_gstatus[i] == 1) {
-        qmax += p_qmax[i];
-        qmin += p_qmin[i];
-        ppl  += p_pg[i];
-      }
+  if (!p_isPV || getReferenceBus() || isIsolated()) return false;
+  double qmax = 0.0;
+  double qmin = 0.0;
+  for (int i=0; i<p_gstatus.size(); i++) {
+    if (p_gstatus[i] == 1) {
+      qmax += p_qmax[i];
+      qmin += p_qmin[i];
     }
-    std::vector<boost::shared_ptr<BaseComponent> > branches;
-    getNeighborBranches(branches);
-    int size = branches.size();
-    double P, Q, p, q;
-    int ngen=p_pFac.size();
-    double pl =0.0;
-    double ql =0.0;
-    for (int i=0; i<p_lstatus.size(); i++) {
-      if (p_lstatus[i] == 1) {
-        pl += p_pl[i];
-        ql += p_ql[i];
-      }
+  }
+  double ql = 0.0;
+  for (int i=0; i<p_lstatus.size(); i++) {
+    if (p_lstatus[i] == 1) {
+      ql += p_ql[i];
     }
-    p_save2isPV = p_isPV;
-    double pval = p_Pinj*p_sbase+pl;
-    double qval = p_Qinj*p_sbase+ql;
+  }
+  double qval = p_Qinj*p_sbase+ql;
 
 //  If qval exceeds the total generator Q capacity, perform PV->PQ
 //
-    if (qval > qmax ) {
-      printf("\nWarning: Gen(s) at bus %d exceeds the QMAX %8.3f vs %8.3f, converted to PQ bus\n", getOriginalIndex(),qval, qmax);  
-      ql = ql-qmax;
-      p_save2isPV = p_isPV;
-      p_isPV = false;
-      *p_PV_ptr = false;
-      pl -= ppl;
-    //p_gstatus.clear();
-      for (int i=0; i<p_gstatus.size(); i++) {
-        p_gstatus_save.push_back(p_gstatus[i]);
-        p_gstatus[i] = 0;
-        p_qg[i] = p_qmax[i];
-      }
-      for (int i=0; i<p_lstatus.size(); i++) {
-        if (p_lstatus[i] == 1) {
-          p_pl[i] = pl;
-          p_ql[i] = ql;
-        }
-      }
-      if (p_PV_ptr) *p_PV_ptr = p_isPV;
-      return true;
-    } else if (qval < qmin) {
-      printf("\nWarning: Gen(s) at bus %d exceeds the QMIN %8.3f vs %8.3f, converted to PQ bus\n", getOriginalIndex(),qval, qmin);  
-      ql = ql-qmin;
-      p_save2isPV = p_isPV;
-      p_isPV = false;
-      pl -= ppl;
-    //  p_gstatus.clear();
-      for (int i=0; i<p_gstatus.size(); i++) {
-        p_gstatus_save.push_back(p_gstatus[i]);
-        p_gstatus[i] = 0;
-        p_qg[i] = p_qmin[i];
-      }
-      for (int i=0; i<p_lstatus.size(); i++) {
-        if (p_lstatus[i] == 1) {
-          p_pl[i] = pl;
-          p_ql[i] = ql;
-        }
-      }
-
-      if (p_PV_ptr) *p_PV_ptr = p_isPV;
-      return true;
-    } else {
-       if (p_PV_ptr) *p_PV_ptr = p_isPV;
-       return false;
-    }
+  if (qval > qmax) {
+    printf("\nWarning: Gen(s) at bus %d exceeds the QMAX %8.3f vs %8.3f, converted to PQ bus\n", getOriginalIndex(),qval, qmax);  
+  } else if (qval < qmin) {
+    printf("\nWarning: Gen(s) at bus %d exceeds the QMIN %8.3f vs %8.3f, converted to PQ bus\n", getOriginalIndex(),qval, qmin);  
   } else {
-    if (p_PV_ptr) *p_PV_ptr = p_isPV;
     return false;
-  } 
+  }
+  p_saveQg = p_qg;
+  for (int i=0; i<p_gstatus.size(); i++) {
+    if (p_gstatus[i] == 1) {
+      p_qg[i] = qval > qmax ? p_qmax[i] : p_qmin[i];
+    }
+  }
+  p_atQlim = true;
+  p_isPV = false;
   if (p_PV_ptr) *p_PV_ptr = p_isPV;
-  return false;
+  return true;
 }
 
 /**
@@ -323,13 +285,12 @@ bool gridpack::powerflow::PFBus::chkQlim(void)
  */
 void gridpack::powerflow::PFBus::clearQlim()
 {
-  int size = p_gstatus_save.size();
-  p_gstatus.clear();
-  int i;
-  for (i=0; i<size; i++) {
-    p_gstatus.push_back(p_gstatus_save[i]);
-  }
-  p_isPV = p_save2isPV;
+  if (!p_atQlim) return;
+  p_qg = p_saveQg;
+  p_atQlim = false;
+  p_isPV = true;
+  p_v = p_vset;
+  if (p_vMag_ptr) *p_vMag_ptr = p_v;
   if (p_PV_ptr) *p_PV_ptr = p_isPV;
 }
 
@@ -437,7 +398,8 @@ void gridpack::powerflow::PFBus::load(
   p_pFac.clear();
   p_pFac_orig.clear();
   p_gstatus.clear();
-  p_gstatus_save.clear();
+  p_saveQg.clear();
+  p_atQlim = false;
   p_qmin.clear();
   p_qmax.clear();
   p_qmin_orig.clear();
@@ -527,6 +489,7 @@ void gridpack::powerflow::PFBus::load(
     p_updateParticipation();
   }
   p_saveisPV = p_isPV;
+  p_vset = p_v;
 
 // Add load
   int lstatus;
diff --git a/src/applications/components/pf_matrix/pf_components.hpp b/src/applications/components/pf_matrix/pf_components.hpp
index 1c3fb5e..ba39eb7 100644
--- a/src/applications/components/pf_matrix/pf_components.hpp
+++ b/src/applications/components/pf_matrix/pf_components.hpp
@@ -459,11 +459,13 @@ class PFBus
     double p_P0, p_Q0; //double p_sbusr, p_sbusi;
     double p_angle;   // initial bus angle read from parser
     double p_voltage; // initial bus voltage read from parser
+    double p_vset;    // initial voltage or set point of generators
     // newly added priavate variables:
     std::vector<double> p_pg, p_qg, p_pFac;
     std::vector<double> p_savePg;
     std::vector<int> p_gstatus;
-    std::vector<int> p_gstatus_save;
+    std::vector<double> p_saveQg;
+    bool p_atQlim; // generators are held at their Q limits
     std::vector<double> p_qmax,p_qmin;
     std::vector<double> p_qmax_orig, p_qmin_orig, p_pFac_orig;
     std::vector<double> p_vs;
@@ -478,7 +480,7 @@ class PFBus
     double p_sbase;
     double p_Pinj, p_Qinj;
     double p_vmin, p_vmax;
-    bool p_isPV, p_saveisPV, p_save2isPV;
+    bool p_isPV, p_saveisPV;
     bool *p_PV_ptr;
     int p_ngen;
     int p_nload;
@@ -519,7 +521,7 @@ private:
       & p_v & p_a & p_theta
       & p_ybusr & p_ybusi
       & p_P0 & p_Q0
-      & p_angle & p_voltage
+      & p_angle & p_voltage & p_vset
       & p_pg & p_qg & p_pFac & p_qmin & p_qmax
       & p_qmin_orig & p_qmax_orig & p_pFac_orig
       & p_gstatus
diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 38d9a29..01e26d8 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -638,7 +638,7 @@ bool gridpack::powerflow::PFFactoryModule::checkQlimViolations(int area)
         dynamic_cast<gridpack::powerflow::PFBus*>
         (p_network->getBus(i).get());
       if (bus->getArea() == area) {
-        if (!bus->chkQlim()) bus_ok = false;
+        if (bus->chkQlim()) bus_ok = false;
       }
     }
   }
-- 
2.43.0


From d81ed0fc22e0226c9c6927fcb43b18a8893331e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 075/140] fix: resetting voltages returns generator buses to
 their set points on all processes

---
 src/applications/components/pf_matrix/pf_components.cpp  | 4 ++--
 src/applications/modules/powerflow/pf_factory_module.cpp | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 8fe5bab..3527644 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -609,7 +609,7 @@ void gridpack::powerflow::PFBus::setMode(int mode)
  */
 void gridpack::powerflow::PFBus::resetVoltage(void)
 {
-  p_v = p_voltage;
+  p_v = p_vset;
   p_a = p_angle;
   if (p_vMag_ptr) *p_vMag_ptr = p_v;
   if (p_vAng_ptr) {
@@ -741,7 +741,7 @@ void gridpack::powerflow::PFBus::setIsPV(int status)
   p_saveisPV = p_isPV;
   p_isPV = status;
   if (p_PV_ptr) *p_PV_ptr = status;
-  p_v = p_voltage;
+  p_v = p_vset;
 }
 
 /**
diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 01e26d8..929bce6 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -697,6 +697,7 @@ void gridpack::powerflow::PFFactoryModule::resetVoltages()
       bus->resetVoltage();
     }
   }
+  p_network->updateBuses();
 }
 
 /**
-- 
2.43.0


From 32c033215837fa29f890871938d05156475b728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 076/140] fix: the state of a generator bus is its angle alone
 and does not overrun the vector

---
 .../components/pf_matrix/pf_components.cpp     | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 3527644..f046db3 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -199,8 +199,13 @@ bool gridpack::powerflow::PFBus::vectorValues(ComplexType *values)
     values[0] = ret;
     return true;
   } else if (p_mode == State) {
-    values[0] = p_v;
-    values[1] = p_a;
+    // same order and size as the increments in setValues
+    values[0] = p_a;
+#ifdef LARGE_MATRIX
+    values[1] = p_v;
+#else
+    if (!p_isPV) values[1] = p_v;
+#endif
     return true;
   } else if (p_mode == RHS) {
     double rvals[2];
@@ -218,8 +223,13 @@ bool gridpack::powerflow::PFBus::vectorValues(ComplexType *values)
 bool gridpack::powerflow::PFBus::vectorValues(RealType *values)
 {
   if (p_mode == State) {
-    values[0] = p_v;
-    values[1] = p_a;
+    // same order and size as the increments in setValues
+    values[0] = p_a;
+#ifdef LARGE_MATRIX
+    values[1] = p_v;
+#else
+    if (!p_isPV) values[1] = p_v;
+#endif
     return true;
   }
   if (p_mode == RHS) {
-- 
2.43.0


From 7b735f66c70bd0512ef5bfc6e83ad0ad5d4c3e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 077/140] fix: processes without buses or branches take part in
 data exchanges

---
 src/factory/base_factory.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/factory/base_factory.hpp b/src/factory/base_factory.hpp
index 57b029f..e30c11b 100644
--- a/src/factory/base_factory.hpp
+++ b/src/factory/base_factory.hpp
@@ -309,6 +309,8 @@ class BaseFactory {
       } else {
         busXCSize = 0;
       }
+      // Processes without buses take part in the exchanges as well
+      p_network->communicator().max(&busXCSize,1);
       if (flag) {
         p_network->allocXCBus(busXCSize);
       } else {
@@ -320,6 +322,7 @@ class BaseFactory {
       } else {
         branchXCSize = 0;
       }
+      p_network->communicator().max(&branchXCSize,1);
       if (flag) {
         p_network->allocXCBranch(branchXCSize);
       } else {
-- 
2.43.0


From 1f96647ba4d6af7b1ea61f91cf0e26d78507cccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 078/140] fix: serial output skips processes that hold no part
 of the string array

---
 src/serial_io/serial_io.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/serial_io/serial_io.hpp b/src/serial_io/serial_io.hpp
index 49f203c..e546d80 100755
--- a/src/serial_io/serial_io.hpp
+++ b/src/serial_io/serial_io.hpp
@@ -331,6 +331,8 @@ class SerialBusIO {
       int lo, hi;
       for (i=0; i<nprocs; i++) {
         NGA_Distribution(p_maskGA, i, &lo, &hi);
+        // Processes that hold no part of the strings have nothing to write
+        if (hi < lo) continue;
         int ld = hi - lo + 1;
         // Figure out how many strings are coming from process i
         std::vector<int> imask(ld);
@@ -457,6 +459,8 @@ class SerialBusIO {
       int lo, hi;
       for (i=0; i<nprocs; i++) {
         NGA_Distribution(p_maskGA, i, &lo, &hi);
+        // Processes that hold no part of the strings have nothing to write
+        if (hi < lo) continue;
         int ld = hi - lo + 1;
         // Figure out how many strings are coming from process i
         std::vector<int> imask(ld);
@@ -572,6 +576,8 @@ class SerialBusIO {
       int lo, hi;
       for (i=0; i<nprocs; i++) {
         NGA_Distribution(p_maskGA, i, &lo, &hi);
+        // Processes that hold no part of the strings have nothing to write
+        if (hi < lo) continue;
         int ld = hi - lo + 1;
         // Figure out how many strings are coming from process i
         std::vector<int> imask(ld);
@@ -887,6 +893,8 @@ class SerialBranchIO {
       int lo, hi;
       for (i=0; i<nprocs; i++) {
         NGA_Distribution(p_maskGA, i, &lo, &hi);
+        // Processes that hold no part of the strings have nothing to write
+        if (hi < lo) continue;
         int ld = hi - lo + 1;
         // Figure out how many strings are coming from process i
         std::vector<int> imask(ld);
@@ -997,6 +1005,8 @@ class SerialBranchIO {
       int lo, hi;
       for (i=0; i<nprocs; i++) {
         NGA_Distribution(p_maskGA, i, &lo, &hi);
+        // Processes that hold no part of the strings have nothing to write
+        if (hi < lo) continue;
         int ld = hi - lo + 1;
         // Figure out how many strings are coming from process i
         std::vector<int> imask(ld);
@@ -1108,6 +1118,8 @@ class SerialBranchIO {
       int lo, hi;
       for (i=0; i<nprocs; i++) {
         NGA_Distribution(p_maskGA, i, &lo, &hi);
+        // Processes that hold no part of the strings have nothing to write
+        if (hi < lo) continue;
         int ld = hi - lo + 1;
         // Figure out how many strings are coming from process i
         std::vector<int> imask(ld);
-- 
2.43.0


From d31243baa70472712f9551cfce1b723cb151b5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 079/140] fix: branches to isolated buses do not contribute to
 the bus injections

---
 src/applications/components/pf_matrix/pf_components.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index f046db3..931377b 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -2157,6 +2157,12 @@ void gridpack::powerflow::PFBranch::getPQ(gridpack::powerflow::PFBus *bus, doubl
   double v2 = bus2->getVoltage();
   double cs, sn;
   double ybusr, ybusi;
+  // No power flows to an isolated bus
+  if (bus1->isIsolated() || bus2->isIsolated()) {
+    *p = 0.0;
+    *q = 0.0;
+    return;
+  }
   p_theta = bus1->getPhase() - bus2->getPhase();
   if (bus == bus1) {
     cs = cos(p_theta);
-- 
2.43.0


From aa041a48927229491cbdd5619f7de1344633798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 080/140] fix: generator outages and returns change the voltage
 control of their bus

---
 .../components/pf_matrix/pf_components.cpp    | 28 ++++++++++++++++---
 .../components/pf_matrix/pf_components.hpp    |  6 ++++
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 931377b..42a4bfa 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -298,10 +298,7 @@ void gridpack::powerflow::PFBus::clearQlim()
   if (!p_atQlim) return;
   p_qg = p_saveQg;
   p_atQlim = false;
-  p_isPV = true;
-  p_v = p_vset;
-  if (p_vMag_ptr) *p_vMag_ptr = p_v;
-  if (p_PV_ptr) *p_PV_ptr = p_isPV;
+  p_updateVoltageControl();
 }
 
 
@@ -737,11 +734,34 @@ void gridpack::powerflow::PFBus::setGenStatus(std::string gen_id, bool status)
         p_qmin[i] = p_qmin_orig[i];
       }
       p_updateParticipation();
+      p_updateVoltageControl();
       return;
     }
   }
 }
 
+/**
+ * Evaluate whether the bus holds its voltage. This is the case if a
+ * generator on it is in service and it is not at a reactive power limit
+ */
+void gridpack::powerflow::PFBus::p_updateVoltageControl()
+{
+  if (p_type != 2) return;
+  bool hold = false;
+  int i;
+  int gsize = p_gstatus.size();
+  for (i=0; i<gsize; i++) {
+    if (p_gstatus[i] == 1) hold = true;
+  }
+  if (p_atQlim) hold = false;
+  if (hold && !p_isPV) {
+    p_v = p_vset;
+    if (p_vMag_ptr) *p_vMag_ptr = p_v;
+  }
+  p_isPV = hold;
+  if (p_PV_ptr) *p_PV_ptr = p_isPV;
+}
+
 /**
  * Set isPV status
  * @param status isPV status
diff --git a/src/applications/components/pf_matrix/pf_components.hpp b/src/applications/components/pf_matrix/pf_components.hpp
index ba39eb7..cf7c295 100644
--- a/src/applications/components/pf_matrix/pf_components.hpp
+++ b/src/applications/components/pf_matrix/pf_components.hpp
@@ -444,6 +444,12 @@ class PFBus
      */
     void p_updateParticipation();
 
+    /**
+     * Evaluate whether the bus holds its voltage. This is the case if a
+     * generator on it is in service and it is not at a reactive power limit
+     */
+    void p_updateVoltageControl();
+
     double p_shunt_gs;
     double p_shunt_bs;
     bool p_shunt;
-- 
2.43.0


From fd4c8ddc944f9ac90a910d9bc9a98f0850fa0378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 081/140] fix: setting a generator status does not turn load
 and reference buses into voltage controlled buses

---
 .../components/pf_matrix/pf_components.cpp             | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 42a4bfa..452ef79 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -1634,11 +1634,13 @@ void gridpack::powerflow::PFBus::setGeneratorStatus(
     }
     p_updateParticipation();
     // Check PV status and change it if all generators are off
-    p_isPV = p_gstatus[0];
-    for (i=1; i<p_ngen; i++) {
-      p_isPV = p_isPV || p_gstatus[i];
+    if (p_type == 2) {
+      bool hold = false;
+      for (i=0; i<p_ngen; i++) {
+        hold = hold || p_gstatus[i];
+      }
+      setIsPV(hold);
     }
-    setIsPV(p_isPV);
   } else {
     printf("setGenertorStatus: No generator found on bus %d with id: (%s)\n",getOriginalIndex(),tag.c_str());
   }
-- 
2.43.0


From 54036435a3717d88bd14cee7f8b031aa09dc884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 082/140] fix: contingencies are found if any process has their
 elements, and unknown elements are reported

---
 .../modules/powerflow/pf_app_module.cpp       | 47 ++++++++++++++++---
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_app_module.cpp b/src/applications/modules/powerflow/pf_app_module.cpp
index da73223..656fc08 100644
--- a/src/applications/modules/powerflow/pf_app_module.cpp
+++ b/src/applications/modules/powerflow/pf_app_module.cpp
@@ -15,6 +15,7 @@
  */
 // -------------------------------------------------------------
 
+#include <algorithm>
 #include "pf_app_module.hpp"
 #include "pf_factory_module.hpp"
 #include "gridpack/mapper/full_map.hpp"
@@ -879,19 +880,26 @@ bool gridpack::powerflow::PFAppModule::setContingency(
     gridpack::powerflow::Contingency &event)
 {
   bool ret = true;
+  // Elements may only be present on some processors, so find out if an element
+  // has been found anywhere
+  std::vector<int> found;
   if (event.p_type == Generator) {
     int ngen = event.p_busid.size();
     int i, j, idx, jdx;
+    found.resize(ngen,0);
+    event.p_saveGenStatus.resize(ngen,false);
     for (i=0; i<ngen; i++) {
       idx = event.p_busid[i];
       std::string tag = event.p_genid[i];
       std::vector<int> lids = p_network->getLocalBusIndices(idx);
-      if (lids.size() == 0) ret = false;
       gridpack::powerflow::PFBus *bus;
       for (j=0; j<lids.size(); j++) {
         jdx = lids[j];
         bus = dynamic_cast<gridpack::powerflow::PFBus*>(
             p_network->getBus(jdx).get());
+        std::vector<std::string> tags = bus->getGenerators();
+        if (std::find(tags.begin(),tags.end(),tag) == tags.end()) continue;
+        found[i] = 1;
         event.p_saveGenStatus[i] = bus->getGenStatus(tag);
         bus->setGenStatus(tag, false);
       }
@@ -900,17 +908,21 @@ bool gridpack::powerflow::PFAppModule::setContingency(
     int to, from;
     int nline = event.p_to.size();
     int i, j, idx, jdx;
+    found.resize(nline,0);
+    event.p_saveLineStatus.resize(nline,false);
     for (i=0; i<nline; i++) {
       to = event.p_to[i];
       from = event.p_from[i];
       std::string tag = event.p_ckt[i];
       std::vector<int> lids = p_network->getLocalBranchIndices(from,to);
-      if (lids.size() == 0) ret = false;
       gridpack::powerflow::PFBranch *branch;
       for (j=0; j<lids.size(); j++) {
         jdx = lids[j];
         branch = dynamic_cast<gridpack::powerflow::PFBranch*>(
             p_network->getBranch(jdx).get());
+        std::vector<std::string> tags = branch->getLineTags();
+        if (std::find(tags.begin(),tags.end(),tag) == tags.end()) continue;
+        found[i] = 1;
         event.p_saveLineStatus[i] = branch->getBranchStatus(tag);
         branch->setBranchStatus(tag, false);
       }
@@ -918,6 +930,13 @@ bool gridpack::powerflow::PFAppModule::setContingency(
   } else {
     ret = false;
   }
+  if (found.size() > 0) {
+    p_network->communicator().max(&found[0],static_cast<int>(found.size()));
+    int i;
+    for (i=0; i<found.size(); i++) {
+      if (!found[i]) ret = false;
+    }
+  }
   if (ret) {
     p_contingency_name = event.p_name;
   } else {
@@ -937,19 +956,25 @@ bool gridpack::powerflow::PFAppModule::unSetContingency(
 {
   p_factory->clearLoneBus();
   bool ret = true;
+  std::vector<int> found;
+  // Restore elements in reverse order so that elements that are listed more
+  // than once recover their original status
   if (event.p_type == Generator) {
     int ngen = event.p_busid.size();
     int i, j, idx, jdx;
-    for (i=0; i<ngen; i++) {
+    found.resize(ngen,0);
+    for (i=ngen-1; i>=0; i--) {
       idx = event.p_busid[i];
       std::string tag = event.p_genid[i];
       std::vector<int> lids = p_network->getLocalBusIndices(idx);
-      if (lids.size() == 0) ret = false;
       gridpack::powerflow::PFBus *bus;
       for (j=0; j<lids.size(); j++) {
         jdx = lids[j];
         bus = dynamic_cast<gridpack::powerflow::PFBus*>(
             p_network->getBus(jdx).get());
+        std::vector<std::string> tags = bus->getGenerators();
+        if (std::find(tags.begin(),tags.end(),tag) == tags.end()) continue;
+        found[i] = 1;
         bus->setGenStatus(tag, event.p_saveGenStatus[i]);
       }
     }
@@ -957,23 +982,33 @@ bool gridpack::powerflow::PFAppModule::unSetContingency(
     int to, from;
     int nline = event.p_to.size();
     int i, j, idx, jdx;
-    for (i=0; i<nline; i++) {
+    found.resize(nline,0);
+    for (i=nline-1; i>=0; i--) {
       to = event.p_to[i];
       from = event.p_from[i];
       std::string tag = event.p_ckt[i];
       std::vector<int> lids = p_network->getLocalBranchIndices(from,to);
-      if (lids.size() == 0) ret = false;
       gridpack::powerflow::PFBranch *branch;
       for (j=0; j<lids.size(); j++) {
         jdx = lids[j];
         branch = dynamic_cast<gridpack::powerflow::PFBranch*>(
             p_network->getBranch(jdx).get());
+        std::vector<std::string> tags = branch->getLineTags();
+        if (std::find(tags.begin(),tags.end(),tag) == tags.end()) continue;
+        found[i] = 1;
         branch->setBranchStatus(tag,event.p_saveLineStatus[i]);
       }
     }
   } else {
     ret = false;
   }
+  if (found.size() > 0) {
+    p_network->communicator().max(&found[0],static_cast<int>(found.size()));
+    int i;
+    for (i=0; i<found.size(); i++) {
+      if (!found[i]) ret = false;
+    }
+  }
   return ret;
 }
 
-- 
2.43.0


From 6620ed4cfe745d543c763a1b5271e91aee2876a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 083/140] fix: buses isolated by a contingency are isolated on
 every process that holds them

---
 .../modules/powerflow/pf_factory_module.cpp   | 59 ++++++++-----------
 .../modules/powerflow/pf_factory_module.hpp   |  2 +
 2 files changed, 27 insertions(+), 34 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 929bce6..c7346ac 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -142,7 +142,12 @@ bool gridpack::powerflow::PFFactoryModule::checkLoneBus(std::ofstream *stream)
   int i, j, k;
   bool bus_ok = true;
   char buf[128];
+  p_saveIsolatedIndex.clear();
   p_saveIsolatedStatus.clear();
+  // Ghost buses may only have some of their branches, so their status comes
+  // from the process that owns the bus
+  int total = p_network->totalBuses();
+  std::vector<int> lone(total,0);
   for (i=0; i<numBus; i++) {
     if (!p_network->getActiveBus(i)) continue;
     gridpack::powerflow::PFBus *bus =
@@ -171,15 +176,24 @@ bool gridpack::powerflow::PFFactoryModule::checkLoneBus(std::ofstream *stream)
     }
     if (!ok) {
       sprintf(buf,"\nLone bus %d found\n",bus->getOriginalIndex());
-      p_saveIsolatedStatus.push_back(bus->isIsolated());
-      bus->setIsolated(true);
+      lone[p_network->getGlobalBusIndex(i)] = 1;
       printf("%s",buf);
       if (stream != NULL) *stream << buf;
     }
     if (!ok) bus_ok = false;
   }
+  if (total > 0) p_network->communicator().max(&lone[0],total);
+  for (i=0; i<numBus; i++) {
+    if (!lone[p_network->getGlobalBusIndex(i)]) continue;
+    gridpack::powerflow::PFBus *bus =
+      dynamic_cast<gridpack::powerflow::PFBus*>
+      (p_network->getBus(i).get());
+    p_saveIsolatedIndex.push_back(i);
+    p_saveIsolatedStatus.push_back(bus->isIsolated());
+    bus->setIsolated(true);
+  }
   // Check whether bus_ok is true on all processors
-  return checkTrue(!bus_ok);
+  return checkTrue(bus_ok);
 }
 
 /**
@@ -187,42 +201,19 @@ bool gridpack::powerflow::PFFactoryModule::checkLoneBus(std::ofstream *stream)
  */
 void gridpack::powerflow::PFFactoryModule::clearLoneBus()
 {
-  if (p_saveIsolatedStatus.size() == 0) return;
-  int numBus = p_network->numBuses();
-  int i, j, k;
-  int ncount = 0;
-  for (i=0; i<numBus; i++) {
-    if (!p_network->getActiveBus(i)) continue;
+  int nlone = p_saveIsolatedIndex.size();
+  int i;
+  for (i=0; i<nlone; i++) {
     gridpack::powerflow::PFBus *bus =
       dynamic_cast<gridpack::powerflow::PFBus*>
-      (p_network->getBus(i).get());
-    std::vector<boost::shared_ptr<gridpack::component::BaseComponent> > branches;
-    bus->getNeighborBranches(branches);
-    int size = branches.size();
-    bool ok = true;
-    if (size == 0) {
-      ok = false;
-    }
-    if (ok) {
-      ok = false;
-      for (j=0; j<size; j++) {
-        bool branch_ok = false;
-        std::vector<bool> status =
-          dynamic_cast<gridpack::powerflow::PFBranch*>
-          (branches[j].get())->getLineStatus();
-        int nlines = status.size();
-        for (k=0; k<nlines; k++) {
-          if (status[k]) branch_ok = true;
-        }
-        if (branch_ok) ok = true;
-      }
-    }
-    if (!ok) {
+      (p_network->getBus(p_saveIsolatedIndex[i]).get());
+    if (p_network->getActiveBus(p_saveIsolatedIndex[i])) {
       printf("\nLone bus %d reset\n",bus->getOriginalIndex());
-      bus->setIsolated(p_saveIsolatedStatus[ncount]);
-      ncount++;
     }
+    bus->setIsolated(p_saveIsolatedStatus[i]);
   }
+  p_saveIsolatedIndex.clear();
+  p_saveIsolatedStatus.clear();
 }
 
 /**
diff --git a/src/applications/modules/powerflow/pf_factory_module.hpp b/src/applications/modules/powerflow/pf_factory_module.hpp
index f35bafd..ac8124a 100644
--- a/src/applications/modules/powerflow/pf_factory_module.hpp
+++ b/src/applications/modules/powerflow/pf_factory_module.hpp
@@ -246,6 +246,8 @@ class PFFactoryModule
   private:
 
     NetworkPtr p_network;
+    // Local indices of lone buses and their status before they were isolated
+    std::vector<int> p_saveIsolatedIndex;
     std::vector<bool> p_saveIsolatedStatus;
 
     std::vector<Violation> p_violations;
-- 
2.43.0


From f2198197b9156e735b31a8434b162ba715160109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 084/140] fix: reactive limits found while solving a
 contingency that fails are cleared, and failing with limits is a failure

---
 src/applications/contingency_analysis/ca_driver.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/applications/contingency_analysis/ca_driver.cpp b/src/applications/contingency_analysis/ca_driver.cpp
index 9a53442..196aea0 100644
--- a/src/applications/contingency_analysis/ca_driver.cpp
+++ b/src/applications/contingency_analysis/ca_driver.cpp
@@ -498,13 +498,14 @@ void gridpack::contingency_analysis::CADriver::execute(int argc, char** argv)
 #ifdef USE_SUCCESS
     contingency_idx.push_back(task_id);
 #endif
-    if (pf_app.solve()) {
+    bool solved = pf_app.solve();
+    if (solved && check_Qlim && !pf_app.checkQlimViolations()) {
+      solved = pf_app.solve();
+    }
+    if (solved) {
 #ifdef USE_SUCCESS
       contingency_success.push_back(true);
 #endif
-      if (check_Qlim && !pf_app.checkQlimViolations()) {
-        pf_app.solve();
-      }
       // If power flow solution is successful, write out voltages and currents
       if (print_calcs) pf_app.write();
       // Check for violations
@@ -637,7 +638,6 @@ void gridpack::contingency_analysis::CADriver::execute(int argc, char** argv)
       }
       timer->stop(t_store);
 #endif
-      if (check_Qlim) pf_app.clearQlimViolations();
     } else {
 #ifdef USE_SUCCESS
       contingency_success.push_back(false);
@@ -734,6 +734,7 @@ void gridpack::contingency_analysis::CADriver::execute(int argc, char** argv)
 #endif
     } 
     // Return network to its original base case state
+    if (check_Qlim) pf_app.clearQlimViolations();
     pf_app.unSetContingency(events[task_id]);
     // Close output file for this contingency
     if (print_calcs) pf_app.close();
-- 
2.43.0


From d03abcb7a06a668e8a6287a93b5f9b0f8873131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 085/140] fix: buses that violate voltage limits are the ones
 that get ignored

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index c7346ac..5685c7c 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -306,7 +306,7 @@ void gridpack::powerflow::PFFactoryModule::ignoreVoltageViolations()
       gridpack::powerflow::PFBus *bus =
         dynamic_cast<gridpack::powerflow::PFBus*>
         (p_network->getBus(i).get());
-      if (bus->checkVoltageViolation()) bus->setIgnore(true);
+      if (!bus->checkVoltageViolation()) bus->setIgnore(true);
     }
   }
 }
-- 
2.43.0


From 56f1fe931295251c2b54395bc15ae051f6293a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 086/140] fix: all violation checks record the violations they
 find

---
 .../modules/powerflow/pf_factory_module.cpp   | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 5685c7c..14f018f 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -253,7 +253,15 @@ bool gridpack::powerflow::PFFactoryModule::checkVoltageViolations()
         dynamic_cast<gridpack::powerflow::PFBus*>
         (p_network->getBus(i).get());
       if (!bus->getIgnore()) {
-        if (!bus->checkVoltageViolation()) bus_ok = false;
+        if (!bus->checkVoltageViolation()) {
+          bus_ok = false;
+          gridpack::powerflow::PFFactoryModule::Violation violation;
+          violation.bus_violation = true;
+          violation.line_violation = false;
+          violation.bus1 = bus->getOriginalIndex();
+          violation.bus2 = -1;
+          p_violations.push_back(violation);
+        }
       }
     }
   }
@@ -438,7 +446,17 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(int area)
               if (rate > 0.0) {
                 gridpack::ComplexType s = branch->getComplexPower(tags[k]);
                 double pq = abs(s);
-                if (pq > rate) branch_ok = false;
+                if (pq > rate) {
+                  branch_ok = false;
+                  gridpack::powerflow::PFFactoryModule::Violation violation;
+                  violation.bus_violation = false;
+                  violation.line_violation = true;
+                  violation.bus1 = branch->getBus1OriginalIndex();
+                  violation.bus2 = branch->getBus2OriginalIndex();
+                  strncpy(violation.tag,tags[k].c_str(),2);
+                  violation.tag[2] = '\0';
+                  p_violations.push_back(violation);
+                }
               }
             }
           }
@@ -904,7 +922,7 @@ gridpack::powerflow::PFFactoryModule::getViolations()
 
   p_network->communicator().sum(&sizes[0],nproc);
   int offset = 0;
-  for (i=1; i<me; i++) offset += sizes[i];
+  for (i=0; i<me; i++) offset += sizes[i];
   int total = 0;
   for (i=0; i<nproc; i++) total += sizes[i];
   if (total == 0) return ret;
-- 
2.43.0


From ceba95809c263f13de1cb5172b2d475963d38a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 087/140] fix: overload checks of specific lines use the line
 and the rating that are asked for

---
 .../modules/powerflow/pf_factory_module.cpp            | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 14f018f..fcfcf64 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -496,6 +496,7 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(
     std::vector<int> indices = p_network->getLocalBranchIndices(bus1[i],bus2[i]);
     int j;
     for (j=0; j<indices.size(); j++) {
+      if (!p_network->getActiveBranch(indices[j])) continue;
       gridpack::powerflow::PFBranch *branch = p_network->getBranch(indices[j]).get();
       // Loop over all lines in the branch and choose the smallest rating value
       int nlines;
@@ -503,7 +504,7 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(
       std::vector<std::string> alltags = branch->getLineTags();
       double rate;
       for (int k = 0; k<nlines; k++) {
-        if (tags[i] == alltags[k] && !branch->getIgnore(tags[k])) {
+        if (tags[i] == alltags[k] && !branch->getIgnore(tags[i])) {
           bool foundRating=false;
           if (p_rateB) {
             if (p_network->getBranchData(indices[j])->getValue(BRANCH_RATING_B,
@@ -521,10 +522,9 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(
               foundRating = true;
             }
           }
-          if (p_network->getBranchData(indices[j])->getValue(BRANCH_RATING_A,
-                &rate,k)) {
+          if (foundRating) {
             if (rate > 0.0) {
-              gridpack::ComplexType s = branch->getComplexPower(tags[k]);
+              gridpack::ComplexType s = branch->getComplexPower(tags[i]);
               double pq = abs(s);
               if (pq > rate) {
                 failure[i] = 1;
@@ -535,7 +535,7 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(
       }
     }
   }
-  p_network->communicator().sum(&failure[0],nbranch);
+  if (nbranch > 0) p_network->communicator().sum(&failure[0],nbranch);
   for (i=0; i<nbranch; i++) {
     if (failure[i] == 0) {
       violations.push_back(true);
-- 
2.43.0


From 0143b91dc893f34c60f7fc985a4052fd53aaed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 088/140] fix: overloads are ignored by the rating they are
 checked with

---
 .../modules/powerflow/pf_factory_module.cpp     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index fcfcf64..363e88c 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -564,13 +564,22 @@ void gridpack::powerflow::PFFactoryModule::ignoreLineOverloadViolations()
       int nlines;
       p_network->getBranchData(i)->getValue(BRANCH_NUM_ELEMENTS,&nlines);
       std::vector<std::string> tags = branch->getLineTags();
-      double rateA;
+      double rate;
       for (int k = 0; k<nlines; k++) {
-        if (p_network->getBranchData(i)->getValue(BRANCH_RATING_A,&rateA,k)) {
-          if (rateA > 0.0) {
+        bool foundRating = false;
+        if (p_rateB) {
+          foundRating = p_network->getBranchData(i)->getValue(BRANCH_RATING_B,
+              &rate,k);
+        }
+        if (!foundRating) {
+          foundRating = p_network->getBranchData(i)->getValue(BRANCH_RATING_A,
+              &rate,k);
+        }
+        if (foundRating) {
+          if (rate > 0.0) {
             gridpack::ComplexType s = branch->getComplexPower(tags[k]);
             double pq = abs(s);
-            if (pq > rateA) branch->setIgnore(tags[k],true);
+            if (pq > rate) branch->setIgnore(tags[k],true);
           }
         }
       }
-- 
2.43.0


From 221575e6946e5e6dd464480fb9e037b329e6680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:40 +0000
Subject: [PATCH 089/140] fix: totals of load and generation count each bus
 once and all processes

---
 .../modules/dynamic_simulation_full_y/dsf_factory.cpp      | 7 +++++++
 src/applications/modules/powerflow/pf_factory_module.cpp   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp
index cc9bd1f..df93fe5 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp
@@ -502,6 +502,7 @@ double gridpack::dynamic_simulation::DSFullFactory::getTotalLoadRealPower(
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::dynamic_simulation::DSFullBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -544,6 +545,7 @@ void gridpack::dynamic_simulation::DSFullFactory::getGeneratorMargins(int area,
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::dynamic_simulation::DSFullBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -566,6 +568,11 @@ void gridpack::dynamic_simulation::DSFullFactory::getGeneratorMargins(int area,
       }
     }
   }
+  double sums[3] = {*total, *pmin, *pmax};
+  p_network->communicator().sum(sums,3);
+  *total = sums[0];
+  *pmin = sums[1];
+  *pmax = sums[2];
 }
 
 /**
diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 363e88c..b881f28 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -789,6 +789,7 @@ double gridpack::powerflow::PFFactoryModule::getTotalLoadRealPower(int area, int
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::powerflow::PFBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -831,6 +832,7 @@ void gridpack::powerflow::PFFactoryModule::getGeneratorMargins(int area, int zon
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::powerflow::PFBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -853,6 +855,11 @@ void gridpack::powerflow::PFFactoryModule::getGeneratorMargins(int area, int zon
       }
     }
   }
+  double sums[3] = {*total, *pmin, *pmax};
+  p_network->communicator().sum(sums,3);
+  *total = sums[0];
+  *pmin = sums[1];
+  *pmax = sums[2];
 }
 
 /**
-- 
2.43.0


From a3aada61ac4baffc89895f05969d29d84b3b32ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:40 +0000
Subject: [PATCH 090/140] fix: network analytics find the branches of a bus and
 the ends of a branch

---
 src/analysis/network_analytics.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/analysis/network_analytics.hpp b/src/analysis/network_analytics.hpp
index 4b6a735..756b066 100644
--- a/src/analysis/network_analytics.hpp
+++ b/src/analysis/network_analytics.hpp
@@ -251,9 +251,7 @@ template <class _network> class NetworkAnalytics {
     int lidx(p_localFromGlobalBusIndex(bus_idx));
 
     if (lidx >= 0) {
-      typename NetworkType::BusPtr thebus(p_network->getBus(lidx));
-      int oidx(thebus->getOriginalIndex());
-      std::vector<int> lbranchi(p_network->getConnectedBranches(oidx));
+      std::vector<int> lbranchi(p_network->getConnectedBranches(lidx));
       for (auto ibr : lbranchi) {
         result.push_back(p_network->getGlobalBranchIndex(ibr));
       }
@@ -278,12 +276,10 @@ template <class _network> class NetworkAnalytics {
   void getBranchEndpoints(const int& idx, int *fbus, int *tbus) const
   {
     int fresult(0), tresult(0);
-    int lbranchidx = p_network->getOriginalBranchIndex(idx);
+    int lbranchidx(p_localFromGlobalBranchIndex(idx));
 
     if (lbranchidx >= 0) {
-      if (p_network->getActiveBranch(lbranchidx)) {
-        p_network->getOriginalBranchEndpoints(lbranchidx, &fresult, &tresult);
-      }
+      p_network->getOriginalBranchEndpoints(lbranchidx, &fresult, &tresult);
     }
     p_network->communicator().sum(&fresult, 1);
     p_network->communicator().sum(&tresult, 1);
-- 
2.43.0


From 666ad32d4850712d44ab1921763f64128c1cf86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 091/140] fix: the declared functions of the power flow module
 that ignore line overloads are defined

---
 .../modules/powerflow/pf_app_module.cpp         | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/applications/modules/powerflow/pf_app_module.cpp b/src/applications/modules/powerflow/pf_app_module.cpp
index 656fc08..efeb794 100644
--- a/src/applications/modules/powerflow/pf_app_module.cpp
+++ b/src/applications/modules/powerflow/pf_app_module.cpp
@@ -1081,6 +1081,23 @@ bool gridpack::powerflow::PFAppModule::checkLineOverloadViolations(
   return p_factory->checkLineOverloadViolations(bus1,bus2,tags,violations);
 }
 
+/**
+ * Set "ignore" parameter on all lines with violations so that subsequent
+ * checks are not counted as violations
+ */
+void gridpack::powerflow::PFAppModule::ignoreLineOverloadViolations()
+{
+  p_factory->ignoreLineOverloadViolations();
+}
+
+/**
+ * Clear "ignore" parameter on all lines
+ */
+void gridpack::powerflow::PFAppModule::clearLineOverloadViolations()
+{
+  p_factory->clearLineOverloadViolations();
+}
+
 /**
  * Check to see if there are any Q limit violations in the network
  * @param area only check for violations in specified area
-- 
2.43.0


From 8a5e11f9b5661e44a7cdb15f191cb36698a85e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:55 +0000
Subject: [PATCH 092/140] fix: distributing no branch values returns no branch
 indices

---
 src/parser/hash_distr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/hash_distr.hpp b/src/parser/hash_distr.hpp
index d661ecc..e85165b 100644
--- a/src/parser/hash_distr.hpp
+++ b/src/parser/hash_distr.hpp
@@ -984,6 +984,7 @@ public:
       std::vector<int> &branch_ids,
       std::vector<_branch_data_type> &values)
   {
+    branch_ids.clear();
 #ifdef SYSTOLIC
     int ksize = keys.size();
     int vsize = values.size();
@@ -1405,6 +1406,7 @@ public:
       std::vector<int> &branch_ids,
       std::vector<_branch_data_type*> &values, int nvals)
   {
+    branch_ids.clear();
 #ifdef SYSTOLIC
     int ksize = keys.size();
     int vsize = values.size();
-- 
2.43.0


From 686be428cde6ea933fffefa50fb03bef69f53d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:55 +0000
Subject: [PATCH 093/140] fix: headers of bus tables end where they should on
 all processes

---
 src/parser/bus_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/bus_table.hpp b/src/parser/bus_table.hpp
index 1258003..fbbfb8a 100644
--- a/src/parser/bus_table.hpp
+++ b/src/parser/bus_table.hpp
@@ -177,7 +177,7 @@ public:
         }
         MPI_Bcast(str,hsize[i],MPI_CHAR,0,mpi_comm);
         if (me != 0) {
-          p_headers.push_back(str);
+          p_headers.push_back(std::string(str,hsize[i]));
         }
         delete [] str;
       }
-- 
2.43.0


From 895b66155192139afb0b46d794a16b38c47704ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:55 +0000
Subject: [PATCH 094/140] fix: bus tables with comments between rows, blank
 lines or no final newline are read, and tables without data are refused

---
 src/parser/bus_table.hpp | 55 +++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/parser/bus_table.hpp b/src/parser/bus_table.hpp
index fbbfb8a..81fc90d 100644
--- a/src/parser/bus_table.hpp
+++ b/src/parser/bus_table.hpp
@@ -60,6 +60,8 @@ public:
   {
     p_comm = p_network->communicator();
     p_has_data = false;
+    p_nvals = 0;
+    p_nobjs = 0;
   }
 
   // Default destructor
@@ -72,6 +74,12 @@ public:
   bool readTable(std::string &filename)
   {
     if (p_has_data) GA_Destroy(p_GA_data);
+    p_has_data = false;
+    p_nobjs = 0;
+    p_nvals = 0;
+    p_local_idx.clear();
+    p_tags.clear();
+    p_order.clear();
     int me = p_comm.rank();
     MPI_Comm mpi_comm = static_cast<MPI_Comm>(p_comm);
     p_GAgrp = p_comm.getGroup();
@@ -90,36 +98,28 @@ public:
         ifound = 0;
       } else {
         std::string line;
-        // Check to see if any lines are comments
-        if (!std::getline(input,line).eof()) {
+        while (std::getline(input,line)) {
           util.trim(line);
-          bool found = true;
-          while (line[0] == '#') {
-            // Line is a comment. Store as a string for use elsewhere after
-            // removing the comment character (#)
-            line[0] = ' ';
-            util.trim(line);
-            p_headers.push_back(line);
-            found = !std::getline(input,line).eof();
+          if (line.empty()) continue;
+          if (line[0] == '#') {
+            // Line is a comment. Store leading comments as strings for use
+            // elsewhere after removing the comment character (#)
+            if (nline == 0) {
+              line[0] = ' ';
+              util.trim(line);
+              p_headers.push_back(line);
+            }
+            continue;
           }
-          if (found) {
-            util.trim(line);
+          if (nline == 0) {
             std::vector<std::string> split_line;
             boost::split(split_line,line,boost::algorithm::is_any_of(" "),
                 boost::token_compress_on);
-            nval = split_line.size() - 2;
-            if (nval > 0) {
-              nline = 1;
-              while(!std::getline(input,line).eof()) {
-                nline++;
-              }
-            } else {
-              ifound = 0;
-            }
+            nval = static_cast<int>(split_line.size()) - 2;
           }
-        } else {
-          ifound = 0;
+          nline++;
         }
+        if (nline == 0 || nval <= 0) ifound = 0;
       }
       input.close();
       // At this point, process 0 knows whether any data has been found,
@@ -204,13 +204,10 @@ public:
         input.open(filename.c_str());
         std::vector<std::string> split_line;
         std::string line;
-        while(!std::getline(input,line).eof()) {
-          while (line[0] == '#') {
-            // Line is a comment. Store as a string for use elsewhere after
-            // removing the comment character (#)
-            std::getline(input,line);
-          }
+        while (std::getline(input,line)) {
           util.trim(line);
+          // Skip comments and blank lines
+          if (line.empty() || line[0] == '#') continue;
           boost::split(split_line,line,boost::algorithm::is_any_of(" "),
               boost::token_compress_on);
           table_t data;
-- 
2.43.0


From a7cfed53885a4fe164211bf314b711ced4d908df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 095/140] fix: columns never added to a table do not contribute
 to its statistics

---
 src/analysis/stat_block.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/analysis/stat_block.cpp b/src/analysis/stat_block.cpp
index 0475bb3..3a8fd28 100644
--- a/src/analysis/stat_block.cpp
+++ b/src/analysis/stat_block.cpp
@@ -69,6 +69,10 @@ stb::StatBlock(const parallel::Communicator &comm, int nrows, int ncols)
   GA_Set_pgroup(p_mask,p_GAgrp);
   GA_Allocate(p_mask);
 
+  // Columns that are never added do not contribute to any statistics
+  GA_Zero(p_data);
+  GA_Zero(p_mask);
+
 
   p_type = NGA_Register_type(sizeof(index_set));
   p_tags = GA_Create_handle();
-- 
2.43.0


From 4901c1ecb0a363895c8cd18f17003380946226e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 096/140] fix: extremes of a table leave out base case values
 excluded by the mask

---
 src/analysis/stat_block.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/analysis/stat_block.cpp b/src/analysis/stat_block.cpp
index 3a8fd28..d75d78c 100644
--- a/src/analysis/stat_block.cpp
+++ b/src/analysis/stat_block.cpp
@@ -529,17 +529,20 @@ void stb::writeMinAndMax(std::string filename, int mval, bool flag)
         double max = val_buf[idx];
         int jmin = 0;
         int jmax = 0;
+        // Base case is only a candidate if it is not excluded by its mask
+        bool found = (mask_buf[idx] >= mval);
         for (j=0; j<p_ncols; j++) {
           idx = i*p_ncols+j;
           if (mask_buf[idx] >= mval) {
-            if (val_buf[idx] > max) {
+            if (!found || val_buf[idx] > max) {
               max = val_buf[idx];
               jmax = j;
             }
-            if (val_buf[idx] < min) {
+            if (!found || val_buf[idx] < min) {
               min = val_buf[idx];
               jmin = j;
             }
+            found = true;
           }
         }
         vbase.push_back(base);
-- 
2.43.0


From 9770c5a39e1205820a2b68660ae7b9dcc4ef0a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 097/140] fix: labels and bounds of a table can be added by any
 process

---
 src/analysis/stat_block.cpp | 21 +++++++++++++++++++++
 src/analysis/stat_block.hpp |  8 ++++++++
 2 files changed, 29 insertions(+)

diff --git a/src/analysis/stat_block.cpp b/src/analysis/stat_block.cpp
index d75d78c..0e909b1 100644
--- a/src/analysis/stat_block.cpp
+++ b/src/analysis/stat_block.cpp
@@ -270,6 +270,24 @@ void stb::addRowMaxValue(std::vector<double> max)
   p_max_bound = true;
 }
 
+/**
+ * Labels and bounds can be added by any process. Make sure all processes know
+ * about them
+ */
+void stb::syncFlags()
+{
+  int flags[3];
+  flags[0] = p_branch_flag ? 1 : 0;
+  flags[1] = p_min_bound ? 1 : 0;
+  flags[2] = p_max_bound ? 1 : 0;
+  char cmax[4];
+  strcpy(cmax,"max");
+  GA_Pgroup_igop(p_GAgrp,flags,3,cmax);
+  p_branch_flag = (flags[0] == 1);
+  p_min_bound = (flags[1] == 1);
+  p_max_bound = (flags[2] == 1);
+}
+
 /**
  * Write out file containing mean value and RMS deviation for values in table
  * @param filename name of file containing results
@@ -279,6 +297,7 @@ void stb::addRowMaxValue(std::vector<double> max)
 void stb::writeMeanAndRMS(std::string filename, int mval, bool flag)
 {
   GA_Pgroup_sync(p_GAgrp);
+  syncFlags();
   int zero = 0;
   int one = 1;
   int two = 2;
@@ -464,6 +483,7 @@ void stb::writeMeanAndRMS(std::string filename, int mval, bool flag)
 void stb::writeMinAndMax(std::string filename, int mval, bool flag)
 {
   GA_Pgroup_sync(p_GAgrp);
+  syncFlags();
   int zero = 0;
   int one = 1;
   int two = 2;
@@ -673,6 +693,7 @@ void stb::writeMinAndMax(std::string filename, int mval, bool flag)
 void stb::writeMaskValueCount(std::string filename, int mval, bool flag)
 {
   GA_Pgroup_sync(p_GAgrp);
+  syncFlags();
   int zero = 0;
   int one = 1;
   int two = 2;
diff --git a/src/analysis/stat_block.hpp b/src/analysis/stat_block.hpp
index 2ee178a..50ba71b 100644
--- a/src/analysis/stat_block.hpp
+++ b/src/analysis/stat_block.hpp
@@ -123,6 +123,14 @@ public:
    * @param mval only include values with this mask value or greater
    */
   void sumColumnValues(std::string filename, int mval=1);
+
+private:
+
+  /**
+   * Labels and bounds can be added by any process. Make sure all processes know
+   * about them
+   */
+  void syncFlags();
 private:
 
   int p_data;
-- 
2.43.0


From ca4c12f12574dcf0ea52e485e5853f02d184c13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:36 +0000
Subject: [PATCH 098/140] fix: bus tables of a sub-communicator are created
 without the other processes

---
 src/parser/bus_table.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/bus_table.hpp b/src/parser/bus_table.hpp
index 81fc90d..ee313b5 100644
--- a/src/parser/bus_table.hpp
+++ b/src/parser/bus_table.hpp
@@ -56,9 +56,8 @@ public:
   // Default constructor
   // @param network network over which hash distribution function extends
   BusTable(const boost::shared_ptr<_network> network)
-    : p_network(network)
+    : p_network(network), p_comm(network->communicator())
   {
-    p_comm = p_network->communicator();
     p_has_data = false;
     p_nvals = 0;
     p_nobjs = 0;
-- 
2.43.0


From 1e55a5945d738e070a29b0979156c56f6ef85e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 099/140] fix: piecewise slopes with decreasing input points
 have an output, and parameters can be set again

---
 .../modules/dynamic_simulation_full_y/dblock.cpp    | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dblock.cpp b/src/applications/modules/dynamic_simulation_full_y/dblock.cpp
index ba150ea..abab86b 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dblock.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dblock.cpp
@@ -143,9 +143,11 @@ PiecewiseSlope::PiecewiseSlope(void)
 
 void PiecewiseSlope::setparams(int n, double *uin, double *yin)
 {
-  double u[2],y[2],ya,yb;
+  double u[2],y[2];
   int    i;
 
+  p_n = 0;
+
   // Check the slope direction - increasing or decreasing
   if(uin[1] > uin[0]) p_increasing = true;
   else p_increasing = false;
@@ -158,7 +160,12 @@ void PiecewiseSlope::setparams(int n, double *uin, double *yin)
       p_y[p_n]   = yin[i];
       p_y[p_n+1] = yin[i+1];
 
-      p_slopes[p_n].setparams(p_u+p_n,p_y+p_n,p_y[p_n],p_y[p_n+1]);
+      // Slopes expect their input points in increasing order
+      int lo = p_increasing ? i : i+1;
+      int hi = p_increasing ? i+1 : i;
+      u[0] = uin[lo]; u[1] = uin[hi];
+      y[0] = yin[lo]; y[1] = yin[hi];
+      p_slopes[p_n].setparams(u,y,y[0],y[1]);
       p_n++;
     }
   }
@@ -175,7 +182,7 @@ double PiecewiseSlope::getoutput(double u)
   if(!p_increasing && u <= p_u[p_n]) yout = p_y[p_n];
 
   for(i=0; i < p_n; i++) {
-    if(p_u[i] <= u && u <= p_u[i+1]) {
+    if((p_u[i] <= u && u <= p_u[i+1]) || (p_u[i+1] <= u && u <= p_u[i])) {
       yout = p_slopes[i].getoutput(u);
     }
   }
-- 
2.43.0


From c947189bec9685391f690d41eb978bbdbc7063de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 100/140] fix: inputs of piecewise slopes are found from their
 output for falling curves too

---
 .../modules/dynamic_simulation_full_y/dblock.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dblock.cpp b/src/applications/modules/dynamic_simulation_full_y/dblock.cpp
index abab86b..e760c3f 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dblock.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dblock.cpp
@@ -195,13 +195,19 @@ double PiecewiseSlope::init_given_y(double yout)
   int i;
   double u;
   
-  if(p_increasing  && yout <= p_y[0])   u = p_u[0];
-  if(p_increasing  && yout >= p_y[p_n]) u = p_u[p_n];
-  if(!p_increasing && yout >= p_y[0])   u = p_u[0];
-  if(!p_increasing && yout <= p_y[p_n]) u = p_u[p_n];
+  // Outputs beyond the end points belong to the end points
+  if(p_y[p_n] >= p_y[0]) {
+    if(yout >= p_y[p_n]) u = p_u[p_n];
+    else u = p_u[0];
+  } else {
+    if(yout <= p_y[p_n]) u = p_u[p_n];
+    else u = p_u[0];
+  }
 
   for (i=0; i<p_n; i++) {
-    if (p_y[i] <= yout && yout <= p_y[i+1]) {
+    if (p_y[i] != p_y[i+1] &&
+        ((p_y[i] <= yout && yout <= p_y[i+1]) ||
+         (p_y[i+1] <= yout && yout <= p_y[i]))) {
       u = p_u[i] + (p_u[i+1] - p_u[i]) / (p_y[i+1] - p_y[i]) * (yout - p_y[i]);
     }
   }
-- 
2.43.0


From 7870184a20a59906e8d5b8664b70bd9f1a832b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 101/140] fix: backlash follows its input on the way down

---
 .../dynamic_simulation_full_y/model_classes/BackLashClass.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/BackLashClass.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/BackLashClass.cpp
index 8ec19f6..ca96891 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/BackLashClass.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/BackLashClass.cpp
@@ -55,7 +55,7 @@ double gridpack::dynamic_simulation::BackLashClass::Output(double theInput)
     if (theInput > LastOutput + Db2)
       Result = theInput -Db2; // Going up -dB2
     else 
-      Result = theInput -Db2; // Going down -Db2    
+      Result = theInput + Db2; // Going down +Db2
     LastOutput = Result;
   }
   return Result;
-- 
2.43.0


From 5095df289c1f26a2079cc1676beafa35f988adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 102/140] fix: dead bands with partial hysteresis look at their
 input

---
 .../dynamic_simulation_full_y/model_classes/DBIntClass.cpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/DBIntClass.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/DBIntClass.cpp
index 5629972..2e56164 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/DBIntClass.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/DBIntClass.cpp
@@ -89,7 +89,7 @@ double gridpack::dynamic_simulation::DBIntClass::Output(double anInput)
   // Do remaining case with Eps > 0 and Eps < Db1.
   // Note we covered the case with input < Db1 with State=0 above
   } else {
-    if (Result >= Db1) {
+    if (anInput >= Db1) {
       Result = anInput - Db1 + Eps;
       State = 1;
     } else if (anInput <= -Db1) {
-- 
2.43.0


From 231a7339617f60a3a81cdbb8f8360a5036f0f1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 103/140] fix: dead bands do not round their width and input to
 whole numbers

---
 .../model_classes/DBIntClass.cpp                          | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/DBIntClass.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/DBIntClass.cpp
index 2e56164..02965fd 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/DBIntClass.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/DBIntClass.cpp
@@ -41,8 +41,8 @@ void gridpack::dynamic_simulation::DBIntClass::Initialize(double theDb1, double
 {
   InitialValue = theInit;
   State = 0;
-  Db1 = abs(theDb1); // Negatives not allowed
-  Eps = abs(theEps);
+  Db1 = std::fabs(theDb1); // Negatives not allowed
+  Eps = std::fabs(theEps);
   if (Eps > Db1) Eps = Db1; // Don't allow it to be larger
   //printf("theDb1 = %f, theEps = %f, theInit = %f\n", theDb1, theEps, theInit);
   //printf("Db1 = %f, Eps = %f, InitialValue = %f\n", Db1, Eps, InitialValue);
@@ -56,7 +56,7 @@ double gridpack::dynamic_simulation::DBIntClass::Output(double anInput)
   double Result;
   anInput = anInput - InitialValue; // InitialValue almost always zero
   // Most common situation when deadband resulting in no output
-  if (abs(anInput) <= Db1 && ((Eps == 0) || (State == 0))) 
+  if (std::fabs(anInput) <= Db1 && ((Eps == 0) || (State == 0))) 
     Result = 0;
   // No Hysteresis
   else if (Eps == 0) { // Must be eitehr > Db1 or < -Db1
@@ -96,7 +96,7 @@ double gridpack::dynamic_simulation::DBIntClass::Output(double anInput)
       Result = anInput + Db1 - Eps;
       State = 2;
     } else { // Cover case of close to zero
-      if (abs(anInput) <= Db1 - Eps) {
+      if (std::fabs(anInput) <= Db1 - Eps) {
         Result = 0;
         State = 0;
       } else if (anInput > 0) { // Between Db1-Eps and Db1
-- 
2.43.0


From 634853d99526d1603f951877cba40b88524dcfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 104/140] fix: exported cases keep their id, also if process 0
 has no buses

---
 src/export/data_blocks/export_bus23.hpp | 5 ++++-
 src/export/data_blocks/export_bus33.hpp | 5 ++++-
 src/export/data_blocks/export_bus34.hpp | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/export/data_blocks/export_bus23.hpp b/src/export/data_blocks/export_bus23.hpp
index 027e418..1a436ec 100644
--- a/src/export/data_blocks/export_bus23.hpp
+++ b/src/export/data_blocks/export_bus23.hpp
@@ -66,13 +66,16 @@ class ExportBus23
       std::vector<text_line> text_data;
       // Find value of SBASE and CASE_ID
       double sbase = 0.0;
-      double case_id = 0;
+      int case_id = 0;
       if (nbus > 0) {
         data = p_network->getBusData(0).get();
         sbase = 100.0;
         data->getValue(CASE_SBASE,&sbase);
         data->getValue(CASE_ID,&case_id);
       }
+      // Processes without buses do not know these values
+      p_comm.max(&sbase,1);
+      p_comm.max(&case_id,1);
 
       for (i=0; i<nbus; i++) {
         if (p_network->getActiveBus(i)) {
diff --git a/src/export/data_blocks/export_bus33.hpp b/src/export/data_blocks/export_bus33.hpp
index b9c499c..325ae96 100644
--- a/src/export/data_blocks/export_bus33.hpp
+++ b/src/export/data_blocks/export_bus33.hpp
@@ -66,13 +66,16 @@ class ExportBus33
       std::vector<text_line> text_data;
       // Find value of SBASE and CASE_ID
       double sbase = 0.0;
-      double case_id = 0;
+      int case_id = 0;
       if (nbus > 0) {
         data = p_network->getBusData(0).get();
         sbase = 100.0;
         data->getValue(CASE_SBASE,&sbase);
         data->getValue(CASE_ID,&case_id);
       }
+      // Processes without buses do not know these values
+      p_comm.max(&sbase,1);
+      p_comm.max(&case_id,1);
 
       for (i=0; i<nbus; i++) {
         if (p_network->getActiveBus(i)) {
diff --git a/src/export/data_blocks/export_bus34.hpp b/src/export/data_blocks/export_bus34.hpp
index b691364..670d0ba 100644
--- a/src/export/data_blocks/export_bus34.hpp
+++ b/src/export/data_blocks/export_bus34.hpp
@@ -66,13 +66,16 @@ class ExportBus34
       std::vector<text_line> text_data;
       // Find value of SBASE and CASE_ID
       double sbase = 0.0;
-      double case_id = 0;
+      int case_id = 0;
       if (nbus > 0) {
         data = p_network->getBusData(0).get();
         sbase = 100.0;
         data->getValue(CASE_SBASE,&sbase);
         data->getValue(CASE_ID,&case_id);
       }
+      // Processes without buses do not know these values
+      p_comm.max(&sbase,1);
+      p_comm.max(&case_id,1);
 
       for (i=0; i<nbus; i++) {
         if (p_network->getActiveBus(i)) {
-- 
2.43.0


From 08e8fcdf709c95f53aa439dfed5bc6aa75fad236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 105/140] fix: exported blocks have no gaps if some devices are
 left out

---
 src/export/base_export.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/export/base_export.hpp b/src/export/base_export.hpp
index ce1385a..6f4501b 100644
--- a/src/export/base_export.hpp
+++ b/src/export/base_export.hpp
@@ -153,9 +153,22 @@ class BaseExport
       tidx.resize(nsize);
       NGA_Gather(g_offset,&tidx[0],&indices[0],nsize);
       // We now have the offset for the global index. Need to augment it by the
-      // device index to get a unique location
+      // position of the device among the devices with the same global index to
+      // get a unique location (device indices may leave out values)
+      std::map<int,std::map<int,int> > order;
+      for (i=0; i<nsize; i++) {
+        order[text_data[i].global_idx][text_data[i].device_idx] = i;
+      }
+      std::map<int,std::map<int,int> >::iterator git;
+      for (git=order.begin(); git!=order.end(); ++git) {
+        std::map<int,int>::iterator dit;
+        int pos = 0;
+        for (dit=git->second.begin(); dit!=git->second.end(); ++dit) {
+          tidx[dit->second] = tidx[dit->second] + pos;
+          pos++;
+        }
+      }
       for (i=0; i<nsize; i++) {
-        tidx[i] = tidx[i] + text_data[i].device_idx;
         indices[i] = &tidx[i];
       }
       // Scatter all text strings to g_txt
-- 
2.43.0


From a60b7a69509e28cbf1551c4e6a7c8ab3e53c3b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 106/140] fix: lines and transformers are exported in their own
 direction

---
 src/export/data_blocks/export_line23.hpp  | 6 +++---
 src/export/data_blocks/export_line33.hpp  | 6 +++---
 src/export/data_blocks/export_line34.hpp  | 6 +++---
 src/export/data_blocks/export_xform23.hpp | 6 +++---
 src/export/data_blocks/export_xform33.hpp | 6 +++---
 src/export/data_blocks/export_xform34.hpp | 6 +++---
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/export/data_blocks/export_line23.hpp b/src/export/data_blocks/export_line23.hpp
index 8f7a517..3ee1cd0 100644
--- a/src/export/data_blocks/export_line23.hpp
+++ b/src/export/data_blocks/export_line23.hpp
@@ -83,10 +83,10 @@ class ExportLine23
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
             data->getValue(BRANCH_FROMBUS,&idx1);
             data->getValue(BRANCH_TOBUS,&idx2);
-            ival = 1;
-            data->getValue(BRANCH_SWITCHED,&ival,j);
+            bool switched = false;
+            data->getValue(BRANCH_SWITCHED,&switched,j);
             // I,J,CKT,R,X,B,RATEA,RATEB,RATEC,RATIO,ANGLE,GI,BI,GJ,BJ,ST
-            if (ival == 1) {
+            if (!switched) {
               sprintf(ptr,"%d, %d,",idx1,idx2);
             } else {
               sprintf(ptr,"%d, %d,",idx2,idx1);
diff --git a/src/export/data_blocks/export_line33.hpp b/src/export/data_blocks/export_line33.hpp
index f58978c..4b096e9 100644
--- a/src/export/data_blocks/export_line33.hpp
+++ b/src/export/data_blocks/export_line33.hpp
@@ -84,9 +84,9 @@ class ExportLine33
             if (!is_xform && (tap_ratio == 0.0 || tap_ratio == 1.0)) {
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
-              if (ival == 1) {
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
+              if (!switched) {
                 sprintf(ptr,"%d, %d,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d,",idx2,idx1);
diff --git a/src/export/data_blocks/export_line34.hpp b/src/export/data_blocks/export_line34.hpp
index b62d935..7e4da37 100644
--- a/src/export/data_blocks/export_line34.hpp
+++ b/src/export/data_blocks/export_line34.hpp
@@ -84,9 +84,9 @@ class ExportLine34
             if (!is_xform && (tap_ratio == 0.0 || tap_ratio == 1.0)) {
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
-              if (ival == 1) {
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
+              if (!switched) {
                 sprintf(ptr,"%d, %d,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d,",idx2,idx1);
diff --git a/src/export/data_blocks/export_xform23.hpp b/src/export/data_blocks/export_xform23.hpp
index d8ddc81..65d3571 100644
--- a/src/export/data_blocks/export_xform23.hpp
+++ b/src/export/data_blocks/export_xform23.hpp
@@ -84,10 +84,10 @@ class ExportXform23
             if (is_xform || (tap_ratio != 0.0 && tap_ratio != 1.0)) {
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
               // First line
-              if (ival == 1) {
+              if (!switched) {
                 sprintf(ptr,"%d, %d, 0,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d, 0,",idx2,idx1);
diff --git a/src/export/data_blocks/export_xform33.hpp b/src/export/data_blocks/export_xform33.hpp
index e72be4c..36012c3 100644
--- a/src/export/data_blocks/export_xform33.hpp
+++ b/src/export/data_blocks/export_xform33.hpp
@@ -87,10 +87,10 @@ class ExportXform33
               // the future
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
               // First line
-              if (ival == 1) {
+              if (!switched) {
                 sprintf(ptr,"%d, %d, 0,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d, 0,",idx2,idx1);
diff --git a/src/export/data_blocks/export_xform34.hpp b/src/export/data_blocks/export_xform34.hpp
index 164c3ff..d18161c 100644
--- a/src/export/data_blocks/export_xform34.hpp
+++ b/src/export/data_blocks/export_xform34.hpp
@@ -87,10 +87,10 @@ class ExportXform34
               // the future
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
               // First line
-              if (ival == 1) {
+              if (!switched) {
                 sprintf(ptr,"%d, %d, 0,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d, 0,",idx2,idx1);
-- 
2.43.0


From 52bb779d7aa6d88e502096f24e17c410cc70caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 107/140] fix: loads without constant power are exported

---
 src/export/data_blocks/export_load33.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/export/data_blocks/export_load33.hpp b/src/export/data_blocks/export_load33.hpp
index 08e8c52..e263092 100644
--- a/src/export/data_blocks/export_load33.hpp
+++ b/src/export/data_blocks/export_load33.hpp
@@ -100,14 +100,15 @@ class ExportLoad33
             sprintf(ptr," %d,",ival);
             ptr += strlen(ptr);
             rval = 0.0;
+            pl = 0.0;
             data->getValue(LOAD_PL,&pl,j);
             sprintf(ptr," %f,",pl);
             ptr += strlen(ptr);
             rval = 0.0;
+            ql = 0.0;
             data->getValue(LOAD_QL,&ql,j);
             sprintf(ptr," %f,",ql);
             ptr += strlen(ptr);
-            if (pl == 0.0 && ql == 0.0) continue;
             rval = 0.0;
             data->getValue(LOAD_IP,&rval,j);
             sprintf(ptr," %f,",rval);
-- 
2.43.0


From 970b91e48deca1cf197d7aad64ecb685c8df30eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 108/140] fix: step up transformers and owners of generators
 are exported

---
 src/export/data_blocks/export_gen33.hpp | 22 ++++++++++++----------
 src/export/data_blocks/export_gen34.hpp | 22 ++++++++++++----------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/export/data_blocks/export_gen33.hpp b/src/export/data_blocks/export_gen33.hpp
index 6da4fa0..3d0de70 100644
--- a/src/export/data_blocks/export_gen33.hpp
+++ b/src/export/data_blocks/export_gen33.hpp
@@ -121,13 +121,15 @@ class ExportGen33
             data->getValue(GENERATOR_ZSOURCE,&zval,j);
             sprintf(ptr," %f, %f,",real(zval),imag(zval),j);
             ptr += strlen(ptr);
-            rval = 0.0;
-            data->getValue(GENERATOR_RT,&rval,j);
-            sprintf(ptr," %f,",rval);
-            ptr += strlen(ptr);
-            rval = 0.0;
-            data->getValue(GENERATOR_XT,&rval,j);
-            sprintf(ptr," %f,",rval);
+            zval = ComplexType(0.0,0.0);
+            if (!data->getValue(GENERATOR_XTRAN,&zval,j)) {
+              double rt = 0.0;
+              double xt = 0.0;
+              data->getValue(GENERATOR_RT,&rt,j);
+              data->getValue(GENERATOR_XT,&xt,j);
+              zval = ComplexType(rt,xt);
+            }
+            sprintf(ptr," %f, %f,",real(zval),imag(zval));
             ptr += strlen(ptr);
             rval = 1.0;
             data->getValue(GENERATOR_GTAP,&rval,j);
@@ -161,7 +163,7 @@ class ExportGen33
             data->getValue(GENERATOR_OWNER2,&ival,j);
             sprintf(ptr," %d,",ival);
             ptr += strlen(ptr);
-            rval = 1.0;
+            rval = 0.0;
             data->getValue(GENERATOR_OFRAC2,&rval,j);
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
@@ -169,7 +171,7 @@ class ExportGen33
             data->getValue(GENERATOR_OWNER3,&ival,j);
             sprintf(ptr," %d,",ival);
             ptr += strlen(ptr);
-            rval = 1.0;
+            rval = 0.0;
             data->getValue(GENERATOR_OFRAC3,&rval,j);
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
@@ -177,7 +179,7 @@ class ExportGen33
             data->getValue(GENERATOR_OWNER4,&ival,j);
             sprintf(ptr," %d,",ival);
             ptr += strlen(ptr);
-            rval = 1.0;
+            rval = 0.0;
             data->getValue(GENERATOR_OFRAC4,&rval,j);
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
diff --git a/src/export/data_blocks/export_gen34.hpp b/src/export/data_blocks/export_gen34.hpp
index bdbc25d..2c7bbd3 100644
--- a/src/export/data_blocks/export_gen34.hpp
+++ b/src/export/data_blocks/export_gen34.hpp
@@ -121,13 +121,15 @@ class ExportGen34
             data->getValue(GENERATOR_ZSOURCE,&zval,j);
             sprintf(ptr," %f, %f,",real(zval),imag(zval),j);
             ptr += strlen(ptr);
-            rval = 0.0;
-            data->getValue(GENERATOR_RT,&rval,j);
-            sprintf(ptr," %f,",rval);
-            ptr += strlen(ptr);
-            rval = 0.0;
-            data->getValue(GENERATOR_XT,&rval,j);
-            sprintf(ptr," %f,",rval);
+            zval = ComplexType(0.0,0.0);
+            if (!data->getValue(GENERATOR_XTRAN,&zval,j)) {
+              double rt = 0.0;
+              double xt = 0.0;
+              data->getValue(GENERATOR_RT,&rt,j);
+              data->getValue(GENERATOR_XT,&xt,j);
+              zval = ComplexType(rt,xt);
+            }
+            sprintf(ptr," %f, %f,",real(zval),imag(zval));
             ptr += strlen(ptr);
             rval = 1.0;
             data->getValue(GENERATOR_GTAP,&rval,j);
@@ -161,7 +163,7 @@ class ExportGen34
             data->getValue(GENERATOR_OWNER2,&ival,j);
             sprintf(ptr," %d,",ival);
             ptr += strlen(ptr);
-            rval = 1.0;
+            rval = 0.0;
             data->getValue(GENERATOR_OFRAC2,&rval,j);
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
@@ -169,7 +171,7 @@ class ExportGen34
             data->getValue(GENERATOR_OWNER3,&ival,j);
             sprintf(ptr," %d,",ival);
             ptr += strlen(ptr);
-            rval = 1.0;
+            rval = 0.0;
             data->getValue(GENERATOR_OFRAC3,&rval,j);
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
@@ -177,7 +179,7 @@ class ExportGen34
             data->getValue(GENERATOR_OWNER4,&ival,j);
             sprintf(ptr," %d,",ival);
             ptr += strlen(ptr);
-            rval = 1.0;
+            rval = 0.0;
             data->getValue(GENERATOR_OFRAC4,&rval,j);
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
-- 
2.43.0


From 7dde0079517a426cd8c19ae30763e36fc2466155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 109/140] fix: tap ratios of elements without one are zero on
 export

---
 src/export/data_blocks/export_line23.hpp  | 1 +
 src/export/data_blocks/export_line33.hpp  | 1 +
 src/export/data_blocks/export_line34.hpp  | 1 +
 src/export/data_blocks/export_xform23.hpp | 1 +
 src/export/data_blocks/export_xform33.hpp | 1 +
 src/export/data_blocks/export_xform34.hpp | 1 +
 6 files changed, 6 insertions(+)

diff --git a/src/export/data_blocks/export_line23.hpp b/src/export/data_blocks/export_line23.hpp
index 3ee1cd0..7887b7c 100644
--- a/src/export/data_blocks/export_line23.hpp
+++ b/src/export/data_blocks/export_line23.hpp
@@ -78,6 +78,7 @@ class ExportLine23
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
           for (j=0; j<nline; j++) {
             ptr = buf;
+            tap_ratio = 0.0;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
diff --git a/src/export/data_blocks/export_line33.hpp b/src/export/data_blocks/export_line33.hpp
index 4b096e9..55c3e57 100644
--- a/src/export/data_blocks/export_line33.hpp
+++ b/src/export/data_blocks/export_line33.hpp
@@ -78,6 +78,7 @@ class ExportLine33
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
           for (j=0; j<nline; j++) {
             ptr = buf;
+            tap_ratio = 0.0;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
diff --git a/src/export/data_blocks/export_line34.hpp b/src/export/data_blocks/export_line34.hpp
index 7e4da37..bb6df03 100644
--- a/src/export/data_blocks/export_line34.hpp
+++ b/src/export/data_blocks/export_line34.hpp
@@ -78,6 +78,7 @@ class ExportLine34
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
           for (j=0; j<nline; j++) {
             ptr = buf;
+            tap_ratio = 0.0;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
diff --git a/src/export/data_blocks/export_xform23.hpp b/src/export/data_blocks/export_xform23.hpp
index 65d3571..9011f19 100644
--- a/src/export/data_blocks/export_xform23.hpp
+++ b/src/export/data_blocks/export_xform23.hpp
@@ -78,6 +78,7 @@ class ExportXform23
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
           for (j=0; j<nline; j++) {
             ptr = buf;
+            tap_ratio = 0.0;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
diff --git a/src/export/data_blocks/export_xform33.hpp b/src/export/data_blocks/export_xform33.hpp
index 36012c3..2eed02e 100644
--- a/src/export/data_blocks/export_xform33.hpp
+++ b/src/export/data_blocks/export_xform33.hpp
@@ -78,6 +78,7 @@ class ExportXform33
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
           for (j=0; j<nline; j++) {
             ptr = buf;
+            tap_ratio = 0.0;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
diff --git a/src/export/data_blocks/export_xform34.hpp b/src/export/data_blocks/export_xform34.hpp
index d18161c..73dfca7 100644
--- a/src/export/data_blocks/export_xform34.hpp
+++ b/src/export/data_blocks/export_xform34.hpp
@@ -78,6 +78,7 @@ class ExportXform34
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
           for (j=0; j<nline; j++) {
             ptr = buf;
+            tap_ratio = 0.0;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
-- 
2.43.0


From 81fb45e242a1434386ad2f53ab05b1b87d3916e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 110/140] fix: names of exported lines are a field of their own

---
 src/export/data_blocks/export_line34.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/export/data_blocks/export_line34.hpp b/src/export/data_blocks/export_line34.hpp
index bb6df03..fec7656 100644
--- a/src/export/data_blocks/export_line34.hpp
+++ b/src/export/data_blocks/export_line34.hpp
@@ -111,9 +111,9 @@ class ExportLine34
               ptr += strlen(ptr);
               // No default for this value
               if (data->getValue(BRANCH_NAME,&sval,j)) {
-                sprintf(ptr,"\'%s\'",sval.c_str());
+                sprintf(ptr," \'%s\',",sval.c_str());
               } else {
-                sprintf(ptr,"\' \'");
+                sprintf(ptr," \' \',");
               }
               ptr += strlen(ptr);
               rval = 0.0;
-- 
2.43.0


From a11d94173f013350043b02c97f6a43f4eb0041ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:14 +0000
Subject: [PATCH 111/140] fix: impedances and angles of transformers keep their
 meaning on export

---
 src/export/data_blocks/export_xform33.hpp | 12 +++++++++---
 src/export/data_blocks/export_xform34.hpp | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/export/data_blocks/export_xform33.hpp b/src/export/data_blocks/export_xform33.hpp
index 2eed02e..13ca95d 100644
--- a/src/export/data_blocks/export_xform33.hpp
+++ b/src/export/data_blocks/export_xform33.hpp
@@ -104,8 +104,12 @@ class ExportXform33
               // Assume default value for CW
               sprintf(ptr," 1,");
               ptr += strlen(ptr);
-              // Assume default value for CZ
-              sprintf(ptr," 1,");
+              // R1-2 and X1-2 are written the way they were read
+              ival = 1;
+              if (data->getValue(TRANSFORMER_R1_2,&rval,j)) {
+                data->getValue(TRANSFORMER_CZ,&ival,j);
+              }
+              sprintf(ptr," %d,",ival);
               ptr += strlen(ptr);
               // Assume default value for CM
               sprintf(ptr," 1,");
@@ -186,7 +190,9 @@ class ExportXform33
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
               rval = 0.0;
-              data->getValue(TRANSFORMER_ANG1,&rval,j);
+              if (!data->getValue(TRANSFORMER_ANG1,&rval,j)) {
+                data->getValue(BRANCH_SHIFT,&rval,j);
+              }
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
               rval = 0.0;
diff --git a/src/export/data_blocks/export_xform34.hpp b/src/export/data_blocks/export_xform34.hpp
index 73dfca7..39cdbc1 100644
--- a/src/export/data_blocks/export_xform34.hpp
+++ b/src/export/data_blocks/export_xform34.hpp
@@ -104,8 +104,12 @@ class ExportXform34
               // Assume default value for CW
               sprintf(ptr," 1,");
               ptr += strlen(ptr);
-              // Assume default value for CZ
-              sprintf(ptr," 1,");
+              // R1-2 and X1-2 are written the way they were read
+              ival = 1;
+              if (data->getValue(TRANSFORMER_R1_2,&rval,j)) {
+                data->getValue(TRANSFORMER_CZ,&ival,j);
+              }
+              sprintf(ptr," %d,",ival);
               ptr += strlen(ptr);
               // Assume default value for CM
               sprintf(ptr," 1,");
@@ -190,7 +194,9 @@ class ExportXform34
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
               rval = 0.0;
-              data->getValue(TRANSFORMER_ANG1,&rval,j);
+              if (!data->getValue(TRANSFORMER_ANG1,&rval,j)) {
+                data->getValue(BRANCH_SHIFT,&rval,j);
+              }
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
               rval = 0.0;
-- 
2.43.0


From abf79b3f8ea737e42e6dc63e846d290bfafc7bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:14 +0000
Subject: [PATCH 112/140] fix: networks without areas can be exported

---
 src/export/data_blocks/export_area23.hpp | 2 +-
 src/export/data_blocks/export_area33.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/export/data_blocks/export_area23.hpp b/src/export/data_blocks/export_area23.hpp
index 2ce8e81..e9a7ccc 100644
--- a/src/export/data_blocks/export_area23.hpp
+++ b/src/export/data_blocks/export_area23.hpp
@@ -62,7 +62,7 @@ class ExportArea23
       gridpack::component::DataCollection *data = p_network->getNetworkData().get();
       if (me == 0) {
         fout << "0 / END TRANSFORMER ADJUSTMENT DATA, BEGIN AREA DATA" << std::endl;
-        int narea;
+        int narea = 0;
         data->getValue(AREA_TOTAL,&narea);
         int i, j;
         char buf[MAX_STRING_SIZE];
diff --git a/src/export/data_blocks/export_area33.hpp b/src/export/data_blocks/export_area33.hpp
index b7a9e4d..89bb525 100644
--- a/src/export/data_blocks/export_area33.hpp
+++ b/src/export/data_blocks/export_area33.hpp
@@ -63,7 +63,7 @@ class ExportArea33
       gridpack::component::DataCollection *data = p_network->getNetworkData().get();
       if (me == 0) {
         fout << "0 / END TRANSFORMER DATA, BEGIN AREA DATA" << std::endl;
-        int narea;
+        int narea = 0;
         data->getValue(AREA_TOTAL,&narea);
         int i, j;
         char buf[MAX_STRING_SIZE];
-- 
2.43.0


From 7f2a71b29cdeb1a155db0b6a8eca5f5cadeb57f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:14 +0000
Subject: [PATCH 113/140] fix: regulated buses of switched shunts are exported

---
 src/export/data_blocks/export_swshnt33.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/export/data_blocks/export_swshnt33.hpp b/src/export/data_blocks/export_swshnt33.hpp
index 3115ad1..c93c36a 100644
--- a/src/export/data_blocks/export_swshnt33.hpp
+++ b/src/export/data_blocks/export_swshnt33.hpp
@@ -95,7 +95,9 @@ class ExportSwShnt33
             sprintf(ptr,"%f,",rval);
             ptr += strlen(ptr);
             ival = 0;
-            data->getValue(SHUNT_SWREM,&ival);
+            if (!data->getValue(SHUNT_SWREM,&ival)) {
+              data->getValue(SHUNT_SWREG,&ival);
+            }
             sprintf(ptr,"%d,",ival);
             ptr += strlen(ptr);
             rval = 100.0;
-- 
2.43.0


From 690aed5fd390c3b873748e80553d351cff635a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:18 +0000
Subject: [PATCH 114/140] fix: regulated nodes of switched shunts are exported
 in version 34

---
 src/export/PSSE34Export.hpp                |  2 +-
 src/export/data_blocks/export_swshnt33.hpp | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/export/PSSE34Export.hpp b/src/export/PSSE34Export.hpp
index 8bba9e5..01ea3a3 100644
--- a/src/export/PSSE34Export.hpp
+++ b/src/export/PSSE34Export.hpp
@@ -108,7 +108,7 @@ class PSSE34Export
       ExportFACTS33<_network> facts(p_network);
       facts.writeFACTSBlock(fout);
       ExportSwShnt33<_network> swshnt(p_network);
-      swshnt.writeSwShntBlock(fout);
+      swshnt.writeSwShntBlock(fout, true);
       if (me == 0) {
         // Write closing 'Q'
         fout << "Q" << std::endl;
diff --git a/src/export/data_blocks/export_swshnt33.hpp b/src/export/data_blocks/export_swshnt33.hpp
index c93c36a..bdfb1fc 100644
--- a/src/export/data_blocks/export_swshnt33.hpp
+++ b/src/export/data_blocks/export_swshnt33.hpp
@@ -54,7 +54,7 @@ class ExportSwShnt33
      *                  consecutively, based on values in text_line data
      *                  data structures.
      */
-    void writeSwShntBlock(std::ofstream &fout)
+    void writeSwShntBlock(std::ofstream &fout, bool write_nreg = false)
     {
       BaseExport<_network> exprt(p_comm);
       int me = p_comm.rank();
@@ -113,7 +113,7 @@ class ExportSwShnt33
             sprintf(ptr,"%f",rval);
             ptr += strlen(ptr);
             int icnt = 0;
-            while (icnt<9) {
+            while (icnt<8) {
               char ni[32], bi[32];
               sprintf(ni,"SHUNT_N%d",icnt+1);
               sprintf(bi,"SHUNT_B%d",icnt+1);
@@ -125,6 +125,15 @@ class ExportSwShnt33
               }
               icnt++;
             }
+            // Version 34 has a node number after the last block of shunts
+            if (write_nreg && data->getValue(SHUNT_NREG,&ival)) {
+              for ( ; icnt<8; icnt++) {
+                sprintf(ptr,",0,0.0");
+                ptr += strlen(ptr);
+              }
+              sprintf(ptr,",%d",ival);
+              ptr += strlen(ptr);
+            }
             sprintf(ptr,"\n");
             text_line text;
             strcpy(text.text,buf);
-- 
2.43.0


From 2d2a5b41580397bd032d86fb1ab5006789ce39c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 115/140] fix: switched shunts are exported in version 23

---
 src/export/PSSE23Export.hpp                |  6 ++---
 src/export/data_blocks/export_swshnt23.hpp | 26 ++--------------------
 2 files changed, 5 insertions(+), 27 deletions(-)

diff --git a/src/export/PSSE23Export.hpp b/src/export/PSSE23Export.hpp
index 601241e..21ea845 100644
--- a/src/export/PSSE23Export.hpp
+++ b/src/export/PSSE23Export.hpp
@@ -26,6 +26,7 @@
 #include "gridpack/export/data_blocks/export_xform23.hpp"
 #include "gridpack/export/data_blocks/export_area23.hpp"
 #include "gridpack/export/data_blocks/export_2term23.hpp"
+#include "gridpack/export/data_blocks/export_swshnt23.hpp"
 
 namespace gridpack {
 namespace expnet {
@@ -73,10 +74,9 @@ class PSSE23Export
       areas.writeAreaBlock(fout);
       Export2Term23<_network> terms(p_network);
       terms.write2TermBlock(fout);
+      ExportSwShnt23<_network> swshnts(p_network);
+      swshnts.writeSwShntBlock(fout);
       if (me == 0) {
-        fout << "0 / END OF TRANSFORMER ADJUSTMENT DATA, BEGIN AREA DATA" << std::endl;
-        fout << "0 / END OF AREA DATA, BEGIN TWO-TERMINAL DC DATA" << std::endl;
-        fout << "0 / END OF TWO-TERMINAL DC DATA, BEGIN SWITCHED SHUNT DATA" << std::endl;
         fout << "0 / END OF SWITCHED SHUNT DATA, BEGIN IMPEDANCE CORRECTION DATA" << std::endl;
         fout << "0 / END OF IMPEDANCE CORRECTION DATA, BEGIN MULTI-TERMINAL DC DATA" << std::endl;
         fout << "0 / END OF MULTI-TERMINAL DC DATA, BEGIN MULTI-SECTION LINE DATA" << std::endl;
diff --git a/src/export/data_blocks/export_swshnt23.hpp b/src/export/data_blocks/export_swshnt23.hpp
index 4957f69..4ad711b 100644
--- a/src/export/data_blocks/export_swshnt23.hpp
+++ b/src/export/data_blocks/export_swshnt23.hpp
@@ -93,27 +93,9 @@ class ExportSwShnt23
             rval = 0.0;
             data->getValue(SHUNT_BINIT,&rval);
             sprintf(ptr,"%f",rval);
-
-            ptr += strlen(ptr);
-            ival = 0;
-            data->getValue(SHUNT_ADJM,&ival);
-            sprintf(ptr,"%d,",ival);
-            ptr += strlen(ptr);
-            ival = 1;
-            data->getValue(SHUNT_SWCH_STAT,&ival);
-            sprintf(ptr,"%d,",ival);
-
-            ptr += strlen(ptr);
-            rval = 100.0;
-            data->getValue(SHUNT_RMPCT,&rval);
-            sprintf(ptr,"%f,",rval);
-            ptr += strlen(ptr);
-            sval = "\'            \'"; 
-            data->getValue(SHUNT_RMIDNT,&sval);
-            sprintf(ptr,"%s,",sval.c_str());
             ptr += strlen(ptr);
             int icnt = 0;
-            while (icnt<9) {
+            while (icnt<8) {
               char ni[32], bi[32];
               sprintf(ni,"SHUNT_N%d",icnt+1);
               sprintf(bi,"SHUNT_B%d",icnt+1);
@@ -135,14 +117,10 @@ class ExportSwShnt23
         }
       }
       if (me == 0) {
-        fout << "0 / END FACTS DATA, BEGIN SWITCHED SHUNT DATA" 
+        fout << "0 / END TWO-TERMINAL DC DATA, BEGIN SWITCHED SHUNT DATA" 
           << std::endl;
       }
       exprt.writeDataBlock(fout, text_data);
-      if (me == 0) {
-        fout << "0 / END SWITCHED SHUNT DATA" 
-          << std::endl;
-      }
     }
 
   private:
-- 
2.43.0


From 8f162b97b450740ecd53c0a68fa0113ec2117469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 116/140] fix: transformer adjustments are exported in the
 layout of version 23

---
 src/export/data_blocks/export_xform23.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/export/data_blocks/export_xform23.hpp b/src/export/data_blocks/export_xform23.hpp
index 9011f19..b63327c 100644
--- a/src/export/data_blocks/export_xform23.hpp
+++ b/src/export/data_blocks/export_xform23.hpp
@@ -82,6 +82,7 @@ class ExportXform23
             data->getValue(BRANCH_TAP,&tap_ratio,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
+            is_xform = is_xform || data->getValue(TRANSFORMER_CONTROL,&ival,j);
             if (is_xform || (tap_ratio != 0.0 && tap_ratio != 1.0)) {
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
@@ -89,9 +90,9 @@ class ExportXform23
               data->getValue(BRANCH_SWITCHED,&switched,j);
               // First line
               if (!switched) {
-                sprintf(ptr,"%d, %d, 0,",idx1,idx2);
+                sprintf(ptr,"%d, %d,",idx1,idx2);
               } else {
-                sprintf(ptr,"%d, %d, 0,",idx2,idx1);
+                sprintf(ptr,"%d, %d,",idx2,idx1);
               }
               ptr += strlen(ptr);
               sval = " 1";
@@ -125,7 +126,10 @@ class ExportXform23
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
               ival = 0;
-              data->getValue(TRANSFORMER_TAB,&ival,j);
+              if (!data->getValue(TRANSFORMER_TAB,&ival,j) &&
+                  data->getValue(TRANSFORMER_TABLE,&rval,j)) {
+                ival = static_cast<int>(rval);
+              }
               sprintf(ptr," %d\n",ival);
               text_line text;
               strcpy(text.text,buf);
-- 
2.43.0


From 13c5915c786a945e760cb6fcfb4328666e03f4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 117/140] fix: adjustments of transformers against the
 direction of their branch are read

---
 src/parser/PTI23_parser.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/PTI23_parser.hpp b/src/parser/PTI23_parser.hpp
index 31d9298..a2b59d3 100644
--- a/src/parser/PTI23_parser.hpp
+++ b/src/parser/PTI23_parser.hpp
@@ -662,6 +662,11 @@ class PTI23_parser : public BasePTIParser<_network>
         branch_pair = std::pair<int,int>(fromBus, toBus);
         std::map<std::pair<int, int>, int>::iterator it;
         it = p_branchMap.find(branch_pair);
+        if (it == p_branchMap.end()) {
+          // Parallel elements may be given in the opposite direction
+          branch_pair = std::pair<int,int>(toBus, fromBus);
+          it = p_branchMap.find(branch_pair);
+        }
 
         if (it != p_branchMap.end()) {
           l_idx = it->second;
-- 
2.43.0


From 3a8e70e9ca3ce8eddf6e83c4082c64d87563ab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:24 +0000
Subject: [PATCH 118/140] fix: loads and generators without an id get the
 default one on export

---
 src/export/data_blocks/export_gen23.hpp  | 1 +
 src/export/data_blocks/export_gen33.hpp  | 1 +
 src/export/data_blocks/export_gen34.hpp  | 1 +
 src/export/data_blocks/export_load33.hpp | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/export/data_blocks/export_gen23.hpp b/src/export/data_blocks/export_gen23.hpp
index 2d00d0f..8305a7d 100644
--- a/src/export/data_blocks/export_gen23.hpp
+++ b/src/export/data_blocks/export_gen23.hpp
@@ -80,6 +80,7 @@ class ExportGen23
             data->getValue(GENERATOR_BUSNUMBER,&ival,j);
             sprintf(ptr,"%d,",ival);
             ptr += strlen(ptr);
+            sval = "1 ";
             data->getValue(GENERATOR_ID,&sval,j);
             sprintf(ptr," \'%s\',",sval.c_str());
             ptr += strlen(ptr);
diff --git a/src/export/data_blocks/export_gen33.hpp b/src/export/data_blocks/export_gen33.hpp
index 3d0de70..5c67540 100644
--- a/src/export/data_blocks/export_gen33.hpp
+++ b/src/export/data_blocks/export_gen33.hpp
@@ -80,6 +80,7 @@ class ExportGen33
             data->getValue(GENERATOR_BUSNUMBER,&ival,j);
             sprintf(ptr,"%d,",ival);
             ptr += strlen(ptr);
+            sval = "1 ";
             data->getValue(GENERATOR_ID,&sval,j);
             sprintf(ptr," \'%s\',",sval.c_str());
             ptr += strlen(ptr);
diff --git a/src/export/data_blocks/export_gen34.hpp b/src/export/data_blocks/export_gen34.hpp
index 2c7bbd3..021979f 100644
--- a/src/export/data_blocks/export_gen34.hpp
+++ b/src/export/data_blocks/export_gen34.hpp
@@ -80,6 +80,7 @@ class ExportGen34
             data->getValue(GENERATOR_BUSNUMBER,&ival,j);
             sprintf(ptr,"%d,",ival);
             ptr += strlen(ptr);
+            sval = "1 ";
             data->getValue(GENERATOR_ID,&sval,j);
             sprintf(ptr," \'%s\',",sval.c_str());
             ptr += strlen(ptr);
diff --git a/src/export/data_blocks/export_load33.hpp b/src/export/data_blocks/export_load33.hpp
index e263092..c73d97a 100644
--- a/src/export/data_blocks/export_load33.hpp
+++ b/src/export/data_blocks/export_load33.hpp
@@ -80,6 +80,7 @@ class ExportLoad33
             data->getValue(LOAD_BUSNUMBER,&ival,j);
             sprintf(ptr,"%d,",ival);
             ptr += strlen(ptr);
+            sval = "1 ";
             data->getValue(LOAD_ID,&sval,j);
             sprintf(ptr," \'%s\',",sval.c_str());
             ptr += strlen(ptr);
-- 
2.43.0


From c3a87aa33feca0595a41ab07f08f31b9ef816ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:41 +0000
Subject: [PATCH 119/140] fix: transformers read from versions 34 and 35 have
 ratings

---
 src/parser/block_parsers/transformer_parser34.cpp | 11 +++++++++++
 src/parser/block_parsers/transformer_parser35.cpp | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index cc8e087..3499274 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -618,6 +618,17 @@ void gridpack::parser::TransformerParser34::parse(
       p_branchData[l_idx]->addValue(TRANSFORMER_ANG1,
           atof(split_line3[2].c_str()),nelems);
 
+      /*
+       * type: float
+       * BRANCH_RATING_A, BRANCH_RATING_B and BRANCH_RATING_C
+       */
+      p_branchData[l_idx]->addValue(BRANCH_RATING_A,
+          atof(split_line3[3].c_str()),nelems);
+      p_branchData[l_idx]->addValue(BRANCH_RATING_B,
+          atof(split_line3[4].c_str()),nelems);
+      p_branchData[l_idx]->addValue(BRANCH_RATING_C,
+          atof(split_line3[5].c_str()),nelems);
+
       /*
        * type: float
        * BRANCH_RATE1-12
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index 291ae49..c932e89 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -617,6 +617,17 @@ void gridpack::parser::TransformerParser35::parse(
       p_branchData[l_idx]->addValue(TRANSFORMER_ANG1,
           atof(split_line3[2].c_str()),nelems);
 
+      /*
+       * type: float
+       * BRANCH_RATING_A, BRANCH_RATING_B and BRANCH_RATING_C
+       */
+      p_branchData[l_idx]->addValue(BRANCH_RATING_A,
+          atof(split_line3[3].c_str()),nelems);
+      p_branchData[l_idx]->addValue(BRANCH_RATING_B,
+          atof(split_line3[4].c_str()),nelems);
+      p_branchData[l_idx]->addValue(BRANCH_RATING_C,
+          atof(split_line3[5].c_str()),nelems);
+
       /*
        * type: float
        * BRANCH_RATE1-12
-- 
2.43.0


From 951001f139216ae24148bec7b3ed7abaab74383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:40 +0000
Subject: [PATCH 120/140] fix: elements with a phase shift only are exported as
 transformers

---
 src/export/data_blocks/export_line33.hpp  | 3 +++
 src/export/data_blocks/export_line34.hpp  | 3 +++
 src/export/data_blocks/export_xform33.hpp | 3 +++
 src/export/data_blocks/export_xform34.hpp | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/export/data_blocks/export_line33.hpp b/src/export/data_blocks/export_line33.hpp
index 55c3e57..c4396a7 100644
--- a/src/export/data_blocks/export_line33.hpp
+++ b/src/export/data_blocks/export_line33.hpp
@@ -82,6 +82,9 @@ class ExportLine33
             data->getValue(BRANCH_TAP,&tap_ratio,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
+            rval = 0.0;
+            data->getValue(BRANCH_SHIFT,&rval,j);
+            is_xform = is_xform || rval != 0.0;
             if (!is_xform && (tap_ratio == 0.0 || tap_ratio == 1.0)) {
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
diff --git a/src/export/data_blocks/export_line34.hpp b/src/export/data_blocks/export_line34.hpp
index fec7656..7fa39cd 100644
--- a/src/export/data_blocks/export_line34.hpp
+++ b/src/export/data_blocks/export_line34.hpp
@@ -82,6 +82,9 @@ class ExportLine34
             data->getValue(BRANCH_TAP,&tap_ratio,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
+            rval = 0.0;
+            data->getValue(BRANCH_SHIFT,&rval,j);
+            is_xform = is_xform || rval != 0.0;
             if (!is_xform && (tap_ratio == 0.0 || tap_ratio == 1.0)) {
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
diff --git a/src/export/data_blocks/export_xform33.hpp b/src/export/data_blocks/export_xform33.hpp
index 13ca95d..035d1c1 100644
--- a/src/export/data_blocks/export_xform33.hpp
+++ b/src/export/data_blocks/export_xform33.hpp
@@ -82,6 +82,9 @@ class ExportXform33
             data->getValue(BRANCH_TAP,&tap_ratio,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
+            rval = 0.0;
+            data->getValue(BRANCH_SHIFT,&rval,j);
+            is_xform = is_xform || rval != 0.0;
             if (is_xform || (tap_ratio != 0.0 && tap_ratio != 1.0)) {
               // Note that three winding buses have already been converted to
               // regular lines and buses. May want to revisit this issue in
diff --git a/src/export/data_blocks/export_xform34.hpp b/src/export/data_blocks/export_xform34.hpp
index 39cdbc1..9b6c10e 100644
--- a/src/export/data_blocks/export_xform34.hpp
+++ b/src/export/data_blocks/export_xform34.hpp
@@ -82,6 +82,9 @@ class ExportXform34
             data->getValue(BRANCH_TAP,&tap_ratio,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
+            rval = 0.0;
+            data->getValue(BRANCH_SHIFT,&rval,j);
+            is_xform = is_xform || rval != 0.0;
             if (is_xform || (tap_ratio != 0.0 && tap_ratio != 1.0)) {
               // Note that three winding buses have already been converted to
               // regular lines and buses. May want to revisit this issue in
-- 
2.43.0


From ea2ac73739aa54268b445c1a6926a40ba6d0b965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:59 +0000
Subject: [PATCH 121/140] fix: state estimation measures flows with the
 admittances of the elements and leaves isolated buses out

---
 .../components/se_matrix/se_components.cpp    | 654 +++++-------------
 .../components/se_matrix/se_components.hpp    |  14 +
 2 files changed, 171 insertions(+), 497 deletions(-)

diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index eff37d3..c536316 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -571,8 +571,9 @@ void gridpack::state_estimation::SEBus::configureSE(void)
   int ncnt = 0;
   int i, j, nsize;
   int busid = getOriginalIndex();
+  // Isolated buses are not part of the calculation
+  if (isIsolated()) nmeas = 0;
   for (i=0; i<nmeas; i++) {
-//   if (!isIsolated()) {
     std::string type = p_meas[i].p_type;
     if (type == "VM" || type == "VA") {
       if (!getReferenceBus()) { 
@@ -589,6 +590,7 @@ void gridpack::state_estimation::SEBus::configureSE(void)
           = dynamic_cast<SEBranch*>(branch_nghbrs[j].get());
         SEBus *bus = dynamic_cast<SEBus*>(branch->getBus1().get());
         if (bus == this) bus = dynamic_cast<SEBus*>(branch->getBus2().get());
+        if (bus->isIsolated()) continue;
         if (!bus->getReferenceBus()) {
           ncnt += 2;
         } else {
@@ -601,7 +603,6 @@ void gridpack::state_estimation::SEBus::configureSE(void)
         ncnt++;
       }
     }
-   //}
   } 
   p_numElements = ncnt;
 }
@@ -1017,7 +1018,6 @@ void gridpack::state_estimation::SEBus::matrixGetValues(ComplexType *values, int
     } 
    }
   } else if (p_mode == R_inv) {
-   if (!isIsolated()) {
     int nsize = p_meas.size();
     int i;
     for (i=0; i<nsize; i++) {
@@ -1029,7 +1029,6 @@ void gridpack::state_estimation::SEBus::matrixGetValues(ComplexType *values, int
       rows[i] = matrixGetRowIndex(i);
       cols[i] = matrixGetColIndex(i);
     }
-   }
   }
 }
 
@@ -1065,6 +1064,8 @@ void gridpack::state_estimation::SEBus:: vectorGetElementValues(ComplexType *val
            gridpack::state_estimation::SEBranch *branch
              = dynamic_cast<gridpack::state_estimation::SEBranch*>(branch_nghbrs[j].get());
           SEBus *bus = dynamic_cast<SEBus*>(branch->getBus1().get());
+          SEBus *bus2 = dynamic_cast<SEBus*>(branch->getBus2().get());
+          if (bus->isIsolated() || bus2->isIsolated()) continue;
           ComplexType yfbus;
           if (bus == this) {
             yfbus=branch->getForwardYBus();
@@ -1092,6 +1093,8 @@ void gridpack::state_estimation::SEBus:: vectorGetElementValues(ComplexType *val
            gridpack::state_estimation::SEBranch *branch
              = dynamic_cast<gridpack::state_estimation::SEBranch*>(branch_nghbrs[j].get());
           SEBus *bus = dynamic_cast<SEBus*>(branch->getBus1().get());
+          SEBus *bus2 = dynamic_cast<SEBus*>(branch->getBus2().get());
+          if (bus->isIsolated() || bus2->isIsolated()) continue;
           ComplexType yfbus;
           if (bus == this) {
             yfbus=branch->getForwardYBus();
@@ -1114,8 +1117,19 @@ void gridpack::state_estimation::SEBus:: vectorGetElementValues(ComplexType *val
          int index = getGlobalIndex();
          values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-p_a),0.0);
          ncnt++;
+      } else {
+         // Measurement does not constrain the state
+         values[ncnt] = gridpack::ComplexType(0.0,0.0);
+         ncnt++;
       }
     } 
+   } else {
+    int nmeas = p_meas.size();
+    int i;
+    vectorGetElementIndices(idx);
+    for (i=0; i<nmeas; i++) {
+      values[i] = gridpack::ComplexType(0.0,0.0);
+    }
    }
   } else if (p_mode == R_inv) {
   }
@@ -1629,20 +1643,18 @@ void gridpack::state_estimation::SEBranch::configureSE(void)
     std::string type = p_meas[i].p_type;
     std::string ckt = p_meas[i].p_ckt;
     if (type == "PIJ" || type == "QIJ" || type == "IIJ" || type == "PJI" || type == "QJI" || type == "IJI") {
-      int nsize = p_tag.size();
-      for (j=0; j<nsize; j++) {
-        if (p_tag[j] == ckt) {
-          if (!bus1->getReferenceBus()) {
-            ncnt += 2;
-          } else {  // reference bus, only for dPIJ/DVI
-            ncnt++;
-          }
-          if (!bus2->getReferenceBus()) {
-            ncnt += 2;
-          } else {  // reference bus, only for dPIJ/DVJ
-            ncnt++;
-          }
-        } 
+      double flow[3], deriv[3][4];
+      if (getFlow(ckt,false,flow,deriv)) {
+        if (!bus1->getReferenceBus()) {
+          ncnt += 2;
+        } else {  // reference bus, only for dPIJ/DVI
+          ncnt++;
+        }
+        if (!bus2->getReferenceBus()) {
+          ncnt += 2;
+        } else {  // reference bus, only for dPIJ/DVJ
+          ncnt++;
+        }
       }
     }
   p_numElements = ncnt;
@@ -1777,369 +1789,59 @@ int gridpack::state_estimation::SEBranch::matrixNumValues() const
 */
 void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values, int *rows, int *cols)
 {
-  SEBus *bus1 = dynamic_cast<SEBus*>(getBus1().get());
-  SEBus *bus2 = dynamic_cast<SEBus*>(getBus2().get());
-  bool ok = !bus1->isIsolated();
-  ok = ok && !bus2->isIsolated();
-  if (ok) {
+  int nmeas = p_meas.size(); // Suppose p_meas is the vector of all the measurements on this branch
+  int i;
   if (p_mode == Jacobian_H) {
-    int nmeas = p_meas.size(); // Suppose p_meas is the vector of all the measurements on this branch
+    SEBus *bus1 = dynamic_cast<SEBus*>(getBus1().get());
+    SEBus *bus2 = dynamic_cast<SEBus*>(getBus2().get());
+    if (bus1->isIsolated() || bus2->isIsolated()) return;
     int ncnt = 0;
-    int i, j, im, jm, nsize;
-    double v1, v2, theta;
-    double t,gij,bij,shifter; 
-    std::string ckt, type;
-
-    v1 = bus1->getVoltage();
-    v2 = bus2->getVoltage();
-    double gs1, bs1, gs2, bs2;
-    bus1->getShuntGsBs(&gs1,&bs1);
-    bus2->getShuntGsBs(&gs2,&bs2);
-    theta = bus1->getPhase() - bus2->getPhase();  
-    //    int ref = getRef(this);
-
     for (i=0; i<nmeas; i++) {
-      im = matrixGetRowIndex(i);
-      ckt = p_meas[i].p_ckt;
-      type = p_meas[i].p_type;
-      bool found = false;
-      if (type == "PIJ") {
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
-            found = true;
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-
-            if (!bus1->getReferenceBus()) {
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(1.0/t*v1*v2*(gij*sin(theta+shifter)
-                    -bij*cos(theta+shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus1->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij*cos(theta+shifter)
-                  +bij*sin(theta+shifter)) +2*(gij+gs1)*v1/(t*t),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dPIJ/DVI
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij*cos(theta+shifter)
-                  +bij*sin(theta+shifter)) +2*(gij+gs1)*v1/(t*t),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-            if (!bus2->getReferenceBus()) {
-              jm = bus2->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*v2*(gij*sin(theta+shifter)
-                    -bij*cos(theta+shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus2->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*cos(theta+shifter)
-                    +bij*sin(theta+shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dPIJ/DVJ
-              jm = bus2->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*cos(theta+shifter)
-                    +bij*sin(theta+shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-          } 
-        }
-      } else if (type == "QIJ") {
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
-            found = true;
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-            if (!bus1->getReferenceBus()) {
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*v2*(gij*cos(theta+shifter)
-                     + bij*sin(theta+shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus1->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij * sin(theta+shifter)
-                    - bij*cos(theta+shifter))-2/(t*t)*(bij+B)*v1,0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dQIJ/DVI
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij * sin(theta+shifter)
-                    - bij*cos(theta+shifter))-2/(t*t)*(bij+B)*v1,0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-            if (!bus2->getReferenceBus()) {
-              jm = bus2->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(1.0/t*v1*v2*(gij*cos(theta+shifter)
-                    + bij*sin(theta+shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus2->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*sin(theta+shifter)
-                    - bij*cos(theta+shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dQIJ/DVJ
-              jm = bus2->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*sin(theta+shifter)
-                    - bij*cos(theta+shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-          } 
-        }
-      } else if (type == "IIJ") {  // Need more work to support transformer 
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
-            found = true;
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-            double Iij = sqrt((gij*gij+bij*bij) *(v1*v1+v2*v2-2*v1*v2*cos(theta))); 
-            if (!bus1->getReferenceBus()) {
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*v1*v2*sin(theta)/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus1->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*(v1-v2*cos(theta))/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dIIJ/DVI
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*(v1-v2*cos(theta))/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-            if (!bus2->getReferenceBus()) {
-              jm = bus2->matrixGetColIndex(0);
-              if (p_tap_ratio[j] != 0.0) {
-                gridpack::ComplexType a(cos(p_phase_shift[j]),sin(p_phase_shift[j]));
-                a = p_tap_ratio[j]*a;
-                ret = ret/(conj(a)*a);
-                gij=real(ret);
-                bij=imag(ret);
-              }
-              values[ncnt] = gridpack::ComplexType(-(gij*gij
-                    +bij*bij)*v1*v2*sin(theta)/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus2->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*(v2-v1*cos(theta))/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dIIJ/DVJ
-              jm = bus2->matrixGetColIndex(0);
-              if (p_tap_ratio[j] != 0.0) {
-                gridpack::ComplexType a(cos(p_phase_shift[j]),sin(p_phase_shift[j]));
-                a = p_tap_ratio[j]*a;
-                ret = ret/(conj(a)*a);
-                gij=real(ret);
-                bij=imag(ret);
-              }
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*(v2-v1*cos(theta))/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-          } 
-        }
-      } else if (type == "PJI") {
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
-            found = true;
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-
-            if (!bus1->getReferenceBus()) {
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*v2*(gij*sin(-theta-shifter)
-                    -bij*cos(-theta-shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus1->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij*cos(-theta-shifter)
-                  +bij*sin(-theta-shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dPIJ/DVI
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij*cos(-theta-shifter)
-                  +bij*sin(-theta-shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-            if (!bus2->getReferenceBus()) {
-              jm = bus2->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(1.0/t*v1*v2*(gij*sin(-theta-shifter)
-                    -bij*cos(-theta-shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus2->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*cos(-theta-shifter)
-                    +bij*sin(-theta-shifter))+2*(gij+gs2)*v2,0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dPIJ/DVJ
-              jm = bus2->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*cos(-theta-shifter)
-                    +bij*sin(-theta-shifter))+2*(gij+gs2)*v2,0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-          } 
-        }
-      } else if (type == "QJI") {
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
-            found = true;
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-            if (!bus1->getReferenceBus()) {
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(1.0/t*v1*v2*(gij*cos(-theta-shifter)
-                     + bij*sin(-theta-shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus1->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij*sin(-theta-shifter)
-                    - bij*cos(-theta-shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dQIJ/DVI
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij*sin(-theta-shifter)
-                    - bij*cos(-theta-shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-            if (!bus2->getReferenceBus()) {
-              jm = bus2->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*v2*(gij*cos(-theta-shifter)
-                    + bij*sin(-theta-shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus2->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*sin(-theta-shifter)
-                    - bij*cos(-theta-shifter))-2*(bij+B)*v2,0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dQIJ/DVJ
-              jm = bus2->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*sin(-theta-shifter)
-                    - bij*cos(-theta-shifter))-2*(bij+B)*v2,0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-          } 
-        }
-      } else if (type == "IJI") {  // TO DO
+      int im = matrixGetRowIndex(i);
+      std::string type = p_meas[i].p_type;
+      double flow[3], deriv[3][4];
+      int k = 0; // real power
+      if (type == "QIJ" || type == "QJI") {
+        k = 1; // reactive power
+      } else if (type == "IIJ" || type == "IJI") {
+        k = 2; // current magnitude
       }
-      if (!found) {
+      bool rvrs = (type == "PJI" || type == "QJI" || type == "IJI");
+      if (!getFlow(p_meas[i].p_ckt,rvrs,flow,deriv)) {
         printf("No match found for branch measurement\n   type: %s\n"
                "   branch: %d %d\n   ckt_id: %s\n   value: %f\n"
                "   deviation: %f\n",p_meas[i].p_type,p_meas[i].p_fbusid,
                p_meas[i].p_tbusid,p_meas[i].p_ckt,p_meas[i].p_value,
                p_meas[i].p_deviation);
-
+        continue;
+      }
+      int jm = 0;
+      if (!bus1->getReferenceBus()) {
+        values[ncnt] = gridpack::ComplexType(deriv[k][0],0.0);
+        rows[ncnt] = im;
+        cols[ncnt] = bus1->matrixGetColIndex(0);
+        ncnt++;
+        jm = 1;
       }
+      values[ncnt] = gridpack::ComplexType(deriv[k][1],0.0);
+      rows[ncnt] = im;
+      cols[ncnt] = bus1->matrixGetColIndex(jm);
+      ncnt++;
+      jm = 0;
+      if (!bus2->getReferenceBus()) {
+        values[ncnt] = gridpack::ComplexType(deriv[k][2],0.0);
+        rows[ncnt] = im;
+        cols[ncnt] = bus2->matrixGetColIndex(0);
+        ncnt++;
+        jm = 1;
+      }
+      values[ncnt] = gridpack::ComplexType(deriv[k][3],0.0);
+      rows[ncnt] = im;
+      cols[ncnt] = bus2->matrixGetColIndex(jm);
+      ncnt++;
     }
   } else if (p_mode == R_inv) {
-    int nsize = p_meas.size();
-    int i;
-    for (i=0; i<nsize; i++) {
+    for (i=0; i<nmeas; i++) {
       if (p_meas[i].p_deviation != 0.0) {
         values[i] = 1.0/(p_meas[i].p_deviation*p_meas[i].p_deviation);
       } else {
@@ -2149,7 +1851,6 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
       cols[i] = matrixGetColIndex(i);
     }
   }
-  }
 }
 
 /**
@@ -2214,147 +1915,100 @@ void gridpack::state_estimation::SEBranch::vectorSetElementValues(ComplexType *v
 void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *values, int *idx)
 {
   if (p_mode == Jacobian_H) {
+    int nmeas = p_meas.size(); // Suppose p_meas is the vector of all the measurements on this branch
+    int i;
     gridpack::state_estimation::SEBus *bus1 =
       dynamic_cast<gridpack::state_estimation::SEBus*>(getBus1().get());
     gridpack::state_estimation::SEBus *bus2 =
       dynamic_cast<gridpack::state_estimation::SEBus*>(getBus2().get());
     bool ok = !bus1->isIsolated();
     ok = ok && !bus2->isIsolated();
-    if (ok) {
-    int nmeas = p_meas.size(); // Suppose p_meas is the vector of all the measurements on this branch
-    int ncnt = 0;
-    int i, j, im, jm, nsize;
-    double ret1=0.0;
-    double ret2=0.0;
-    double ret3=0.0;
-    double v1=0.0;
-    double v2=0.0;
-    double theta=0.0;
     vectorGetElementIndices(idx);
-    v1 = bus1->getVoltage();
-    v2 = bus2->getVoltage();
-    theta = bus1->getPhase() - bus2->getPhase();  
     for (i=0; i<nmeas; i++) {
       std::string type = p_meas[i].p_type;
-      int idx1, idx2;
-      double gij,bij,t,shifter;
-      idx1 = getBus1OriginalIndex();
-      idx2 = getBus2OriginalIndex();
-      gridpack::ComplexType a(1.0,0.0);
-//      printf("branch %d %d type: %s row: %d\n",idx1,idx2,type.c_str(),idx[i]);
-      if (type == "PIJ") {
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == p_meas[i].p_ckt) {
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-            ret1 =  v1*v1*gij/(t*t) - 1.0/t*v1*v2*(gij*cos(theta+shifter) + bij*sin(theta+shifter));
-          }
-        }
-        values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret1),0.0);
-        ncnt++;
-      } else if (type == "QIJ") {
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == p_meas[i].p_ckt) {
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-            ret2 = - v1*v1* (bij+B)/(t*t) - 1.0/t*v1*v2*(gij*sin(theta+shifter) - bij*cos(theta+shifter));
-          }
-        }
-        values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret2),0.0);
-        ncnt++;
-      } else if (type == "IIJ") {
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == p_meas[i].p_ckt) {
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-            ret1 =  v1*v1*gij/(t*t) - 1.0/t*v1*v2*(gij*cos(theta+shifter) + bij*sin(theta+shifter));
-            ret2 = - v1*v1* (bij+B)/(t*t) - 1.0/t*v1*v2*(gij*sin(theta+shifter) - bij*cos(theta+shifter));
-          }
-        }
-        ret3 = sqrt(ret1*ret1+ret2*ret2)/v1;
-        //         values[ncnt] = p_meas[i].p_value-ret;
-        values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret3),0.0);
-        ncnt++;
-      } else if (type == "PJI") {
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == p_meas[i].p_ckt) {
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-            ret1 =  v2*v2*gij - 1.0/t*v1*v2*(gij*cos(-theta-shifter) + bij*sin(-theta-shifter));
-          }
-        }
-        values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret1),0.0);
-        ncnt++;
-      } else if (type == "QJI") {
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == p_meas[i].p_ckt) {
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-            ret2 = - v2*v2* (bij+B) - 1.0/t*v1*v2*(gij*sin(-theta-shifter) - bij*cos(-theta-shifter));
-          }
-        }
-        values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret2),0.0);
-        ncnt++;
-      } else if (type == "IJI") { //to do
+      double flow[3], deriv[3][4];
+      int k = 0; // real power
+      if (type == "QIJ" || type == "QJI") {
+        k = 1; // reactive power
+      } else if (type == "IIJ" || type == "IJI") {
+        k = 2; // current magnitude
+      }
+      bool rvrs = (type == "PJI" || type == "QJI" || type == "IJI");
+      values[i] = gridpack::ComplexType(0.0,0.0);
+      // Measurements that do not belong to any element do not constrain the
+      // state
+      if (ok && getFlow(p_meas[i].p_ckt,rvrs,flow,deriv)) {
+        values[i] = gridpack::ComplexType(p_meas[i].p_value-flow[k],0.0);
       }
-    } 
     }
   } else if (p_mode == R_inv) {
   }
 }
+
+/**
+ * Evaluate the power and current entering a line element at one end, together
+ * with their derivatives with respect to the voltages at both ends
+ * @param tag describing line element on branch
+ * @param rvrs evaluate flow at the "to" end instead of the "from" end
+ * @param flow real power, reactive power and current magnitude (p.u.)
+ * @param deriv derivatives of these with respect to the phase angle and
+ * voltage magnitude at bus 1 and the phase angle and voltage magnitude at bus 2
+ * @return false if there is no such line element
+ */
+bool gridpack::state_estimation::SEBranch::getFlow(const std::string &tag,
+    bool rvrs, double flow[3], double deriv[3][4])
+{
+  int i, k, idx = -1;
+  for (k=0; k<3; k++) {
+    flow[k] = 0.0;
+    for (i=0; i<4; i++) deriv[k][i] = 0.0;
+  }
+  for (i=0; i<static_cast<int>(p_tag.size()) && idx < 0; i++) {
+    if (p_tag[i] == tag) idx = i;
+  }
+  if (idx < 0) return false;
+  // No flow on elements that are out of service
+  if (!p_branch_status[idx]) return true;
+
+  gridpack::ComplexType Yii, Yij;
+  SEBus *busi = dynamic_cast<SEBus*>(getBus1().get());
+  SEBus *busj = dynamic_cast<SEBus*>(getBus2().get());
+  if (rvrs) {
+    std::swap(busi,busj);
+    getRvrsLineElements(tag,&Yii,&Yij);
+  } else {
+    getLineElements(tag,&Yii,&Yij);
+  }
+  double vi = busi->getVoltage();
+  double vj = busj->getVoltage();
+  double theta = busi->getPhase() - busj->getPhase();
+  double cij = real(Yij)*cos(theta) + imag(Yij)*sin(theta);
+  double sij = real(Yij)*sin(theta) - imag(Yij)*cos(theta);
+  // positions of the variables at bus i and bus j
+  int ni = 0, nj = 2;
+  if (rvrs) std::swap(ni,nj);
+  flow[0] = vi*vi*real(Yii) + vi*vj*cij;
+  deriv[0][ni] = -vi*vj*sij;
+  deriv[0][ni+1] = 2.0*vi*real(Yii) + vj*cij;
+  deriv[0][nj] = vi*vj*sij;
+  deriv[0][nj+1] = vi*cij;
+  flow[1] = -vi*vi*imag(Yii) + vi*vj*sij;
+  deriv[1][ni] = vi*vj*cij;
+  deriv[1][ni+1] = -2.0*vi*imag(Yii) + vj*sij;
+  deriv[1][nj] = -vi*vj*cij;
+  deriv[1][nj+1] = vi*sij;
+  double s = sqrt(flow[0]*flow[0]+flow[1]*flow[1]);
+  flow[2] = s/vi;
+  // The derivatives of the current are not defined if there is no current
+  if (s > 1.0e-12) {
+    for (i=0; i<4; i++) {
+      deriv[2][i] = (flow[0]*deriv[0][i]+flow[1]*deriv[1][i])/(s*vi);
+    }
+    deriv[2][ni+1] -= s/(vi*vi);
+  }
+  return true;
+}
+
 /**
  * Return contribution to constraints
  * @param p: real part of constraint
@@ -2368,6 +2022,10 @@ void gridpack::state_estimation::SEBranch::getPQ(gridpack::state_estimation::SEB
   gridpack::state_estimation::SEBus *bus2 = 
     dynamic_cast<gridpack::state_estimation::SEBus*>(getBus2().get());
   double v2 = bus2->getVoltage();
+  // No flow if one of the buses is isolated
+  *p = 0.0;
+  *q = 0.0;
+  if (bus1->isIsolated() || bus2->isIsolated()) return;
   double cs, sn;
   double ybusr, ybusi;
   p_theta = bus1->getPhase() - bus2->getPhase();
@@ -2406,6 +2064,7 @@ gridpack::ComplexType gridpack::state_estimation::SEBranch::getRvrsComplexPower(
   gridpack::state_estimation::SEBus *bus2 = 
     dynamic_cast<gridpack::state_estimation::SEBus*>(getBus2().get());
   vi = bus2->getComplexVoltage();
+  if (!getLineStatus(tag)) return s;
   getRvrsLineElements(tag,&Yii,&Yij);
   s = vi*conj(Yii*vi+Yij*vj)*p_sbase;
   return s;
@@ -2428,6 +2087,7 @@ gridpack::ComplexType gridpack::state_estimation::SEBranch::getComplexPower(
   gridpack::state_estimation::SEBus *bus2 = 
     dynamic_cast<gridpack::state_estimation::SEBus*>(getBus2().get());
   vj = bus2->getComplexVoltage();
+  if (!getLineStatus(tag)) return s;
   getLineElements(tag,&Yii,&Yij);
   s = vi*conj(Yii*vi+Yij*vj)*p_sbase;
   return s;
diff --git a/src/applications/components/se_matrix/se_components.hpp b/src/applications/components/se_matrix/se_components.hpp
index 0646b1f..6e6955a 100644
--- a/src/applications/components/se_matrix/se_components.hpp
+++ b/src/applications/components/se_matrix/se_components.hpp
@@ -623,6 +623,20 @@ class SEBranch
     void configureSE(void);
 
   private:
+    /**
+     * Evaluate the power and current entering a line element at one end,
+     * together with their derivatives with respect to the voltages at both ends
+     * @param tag describing line element on branch
+     * @param rvrs evaluate flow at the "to" end instead of the "from" end
+     * @param flow real power, reactive power and current magnitude (p.u.)
+     * @param deriv derivatives of these with respect to the phase angle and
+     * voltage magnitude at bus 1 and the phase angle and voltage magnitude at
+     * bus 2
+     * @return false if there is no such line element
+     */
+    bool getFlow(const std::string &tag, bool rvrs, double flow[3],
+        double deriv[3][4]);
+
     std::vector<double> p_reactance;
     std::vector<double> p_resistance;
     std::vector<double> p_tap_ratio;
-- 
2.43.0


From c396faff36d8ef8129b9d10eced7abe8a7d8cedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:36 +0000
Subject: [PATCH 122/140] fix: branch measurements given against the direction
 of the branch are used

---
 .../modules/state_estimation/se_factory_module.cpp        | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/applications/modules/state_estimation/se_factory_module.cpp b/src/applications/modules/state_estimation/se_factory_module.cpp
index a04cf5f..997d70e 100644
--- a/src/applications/modules/state_estimation/se_factory_module.cpp
+++ b/src/applications/modules/state_estimation/se_factory_module.cpp
@@ -93,6 +93,14 @@ void gridpack::state_estimation::SEFactoryModule::setMeasurements(
       idx2 = measurements[i].p_tbusid;
       key = std::pair<int,int>(idx1,idx2);
       branch_keys.push_back(key);
+      // The branch may be stored with the opposite orientation. Only one of
+      // the two measurements finds a branch.
+      gridpack::state_estimation::Measurement rvrs = measurements[i];
+      rvrs.p_fbusid = idx2;
+      rvrs.p_tbusid = idx1;
+      std::swap(rvrs.p_type[1],rvrs.p_type[2]);
+      branch_meas.push_back(rvrs);
+      branch_keys.push_back(std::pair<int,int>(idx2,idx1));
     }
   }
   gridpack::hash_distr::HashDistribution<SENetwork,Measurement,Measurement>
-- 
2.43.0


From eea86a4aed0f5270b451aa27cbe0dda3686a055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:07 +0000
Subject: [PATCH 123/140] fix: state estimation on a copied network

---
 src/applications/modules/state_estimation/se_app_module.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/applications/modules/state_estimation/se_app_module.cpp b/src/applications/modules/state_estimation/se_app_module.cpp
index 75bb4aa..47fdfae 100644
--- a/src/applications/modules/state_estimation/se_app_module.cpp
+++ b/src/applications/modules/state_estimation/se_app_module.cpp
@@ -276,11 +276,13 @@ void gridpack::state_estimation::SEAppModule::initialize(void)
 {
   // create factory
   p_factory.reset(new gridpack::state_estimation::SEFactoryModule(p_network));
-  p_factory->load();
 
   // set network components using factory
   p_factory->setComponents();
 
+  // load data into components (branches need to know their buses)
+  p_factory->load();
+
   // Set up bus data exchange buffers. Need to decide what data needs to be exchanged
   p_factory->setExchange();
 
-- 
2.43.0


From 9f6ebf2653e028460a0af237485edce2468ef1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:49 +0000
Subject: [PATCH 124/140] fix: state estimation reads its measurements on the
 communicator of its network

---
 src/applications/modules/state_estimation/se_app_module.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/applications/modules/state_estimation/se_app_module.cpp b/src/applications/modules/state_estimation/se_app_module.cpp
index 47fdfae..bd7806e 100644
--- a/src/applications/modules/state_estimation/se_app_module.cpp
+++ b/src/applications/modules/state_estimation/se_app_module.cpp
@@ -123,7 +123,6 @@ void gridpack::state_estimation::SEAppModule::readNetwork(
     boost::shared_ptr<SENetwork> &network,
     gridpack::utility::Configuration *config)
 {
-  gridpack::parallel::Communicator p_comm;
   p_network = network;
   p_config = config;
   p_comm = network->communicator();
@@ -197,7 +196,6 @@ void gridpack::state_estimation::SEAppModule::setNetwork(
     boost::shared_ptr<SENetwork> &network,
     gridpack::utility::Configuration *config)
 {
-  gridpack::parallel::Communicator p_comm;
   p_network = network;
   p_config = config;
   p_comm = network->communicator();
-- 
2.43.0


From 7f653329d46039b95ff41db4c3047e63f77ac552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:49 +0000
Subject: [PATCH 125/140] fix: state estimation on an existing network and from
 version 35 files

---
 .../modules/state_estimation/se_app_module.cpp       | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/applications/modules/state_estimation/se_app_module.cpp b/src/applications/modules/state_estimation/se_app_module.cpp
index bd7806e..2a5aa8e 100644
--- a/src/applications/modules/state_estimation/se_app_module.cpp
+++ b/src/applications/modules/state_estimation/se_app_module.cpp
@@ -136,6 +136,8 @@ void gridpack::state_estimation::SEAppModule::readNetwork(
       filetype = PTI33;
     } else if (secursor->get("networkConfiguration_v34",&filename)) {
       filetype = PTI34;
+    } else if (secursor->get("networkConfiguration_v35",&filename)) {
+      filetype = PTI35;
     } else {
       printf("No network configuration file specified\n");
       return;
@@ -206,15 +208,15 @@ void gridpack::state_estimation::SEAppModule::setNetwork(
   // Convergence and iteration parameters
   p_tolerance = secursor->get("tolerance",1.0e-3);
   p_max_iteration = secursor->get("maxIteration",20);
-  char buf[128];
-  sprintf(buf,"Tolerance: %12.4e\n",p_tolerance);
-  p_busIO->header(buf);
-  sprintf(buf,"Maximum number of iterations: %de\n",p_max_iteration);
-  p_busIO->header(buf);
 
   // Create serial IO object to export data from buses or branches
   p_busIO.reset(new gridpack::serial_io::SerialBusIO<SENetwork>(1024, p_network));
   p_branchIO.reset(new gridpack::serial_io::SerialBranchIO<SENetwork>(1024, p_network));
+  char buf[128];
+  sprintf(buf,"Tolerance: %12.4e\n",p_tolerance);
+  p_busIO->header(buf);
+  sprintf(buf,"Maximum number of iterations: %d\n",p_max_iteration);
+  p_busIO->header(buf);
 }
 
 /**
-- 
2.43.0


From dffd126a09ffd9c541f4512e91674b90f7c8163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:49 +0000
Subject: [PATCH 126/140] fix: measurements on line elements with single
 character names are used

---
 .../modules/state_estimation/se_app_module.cpp         | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/state_estimation/se_app_module.cpp b/src/applications/modules/state_estimation/se_app_module.cpp
index 2a5aa8e..7040ccf 100644
--- a/src/applications/modules/state_estimation/se_app_module.cpp
+++ b/src/applications/modules/state_estimation/se_app_module.cpp
@@ -27,6 +27,7 @@
 #include "gridpack/mapper/gen_vector_map.hpp"
 #include "gridpack/mapper/bus_vector_map.hpp"
 #include "gridpack/math/math.hpp"
+#include "gridpack/utilities/string_utils.hpp"
 #include "se_app_module.hpp"
 
 // Calling program for state estimation application
@@ -73,6 +74,7 @@ std::vector<gridpack::state_estimation::Measurement>
         gridpack::state_estimation::Measurement measurement;
         strcpy(measurement.p_type,meas_type.c_str());
         measurement.p_busid = busid;
+        measurement.p_ckt[0] = '\0';
         measurement.p_value = meas_value;
         measurement.p_deviation = meas_deviation;
         //printf("%s %d %f %f\n", measurement.p_type.c_str(), measurement.p_busid,
@@ -87,10 +89,10 @@ std::vector<gridpack::state_estimation::Measurement>
         measurements[idx]->get("ToBus", &tbusid);
         std::string ckt;
         measurements[idx]->get("CKT", &ckt);
-        // Fix up tag so that single character tags are right-justified
-        if (ckt.length() == 1) {
-          ckt.insert(0,1,' ');
-        }
+        // Fix up tag so that it has the same form as the tags coming from the
+        // network parsers
+        gridpack::utility::StringUtils util;
+        ckt = util.clean2Char(ckt);
         gridpack::state_estimation::Measurement measurement;
         strcpy(measurement.p_type,meas_type.c_str());
         measurement.p_fbusid = fbusid;
-- 
2.43.0


From bdcf1946b1b56b423fd57178bc2770ff34f5553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 127/140] fix: generators with negative output are counted once
 as negative load

---
 .../dsf_components.cpp                        | 45 +++----------------
 1 file changed, 7 insertions(+), 38 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 133ea6c..f257986 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -221,40 +221,13 @@ bool gridpack::dynamic_simulation::DSFullBus::matrixDiagValues(ComplexType *valu
     values[0] = ret;
     return true;
   } else if (p_mode == PG) {
-    if (p_ngen > 0) {
-      for (int i = 0; i < p_ngen; i++) {
-	if(!p_gstatus[i]) continue;
-	
-	if (p_pg[i] < 0) {
-           p_ybusr = p_ybusr+(-p_pg[i])/(p_voltage*p_voltage);
-           p_ybusi = p_ybusi+p_qg[i]/(p_voltage*p_voltage);
-           gridpack::ComplexType ret(p_ybusr, p_ybusi);
-           values[0] = ret;
-         } else {
-           gridpack::ComplexType u(p_ybusr, p_ybusi);
-           values[0] = u;
-         }
-      }
-    } else {
-      gridpack::ComplexType u(p_ybusr, p_ybusi);
-      values[0] = u;
-    }
-    if (p_negngen > 0) {
-      for (int i = 0; i < p_negngen; i++) {
-        p_ybusr = p_ybusr+(-p_negpg[i])/(p_voltage*p_voltage);
-        p_ybusi = p_ybusi+p_negqg[i]/(p_voltage*p_voltage);
-        gridpack::ComplexType ret(p_ybusr, p_ybusi);
-        values[0] = ret;
-      }
-    }
+    // Generators that are not represented by a dynamic model are negative loads
     for (int i = 0; i < p_ngen; i++) {
-      if(p_gen_nodynmodel[i]) {
-	p_ybusr = p_ybusr+(-p_genpg_nodynmodel[i])/(p_voltage*p_voltage);
-	p_ybusi = p_ybusi+p_genqg_nodynmodel[i]/(p_voltage*p_voltage);
-	gridpack::ComplexType ret(p_ybusr, p_ybusi);
-	values[0] = ret;
-      }
+      if(!p_gstatus[i] || !p_gen_nodynmodel[i]) continue;
+      p_ybusr = p_ybusr+(-p_genpg_nodynmodel[i])/(p_voltage*p_voltage);
+      p_ybusi = p_ybusi+p_genqg_nodynmodel[i]/(p_voltage*p_voltage);
     }
+    values[0] = gridpack::ComplexType(p_ybusr, p_ybusi);
     return true;
   } else if (p_mode == jxd) {
     if (p_ngen > 0) {
@@ -1101,8 +1074,8 @@ void gridpack::dynamic_simulation::DSFullBus::load(
 	if (has_wind_dt) p_generators[icnt]->getDriveTrainModel()->load(data,i);
 	if (has_wind_aero) p_generators[icnt]->getAeroDynamicModel()->load(data,i);
 
-      } else if (!data->getValue(GENERATOR_MODEL, &model, i) && pg >= 0.0){ 
-	// handle the generators having no dynamic model, need to convert to negative load
+      } else { 
+	// handle the generators having no dynamic model or a negative output, need to convert to negative load
 	BaseGeneratorModel *generator = new gridpack::dynamic_simulation::BaseGeneratorModel;
 	boost::shared_ptr<BaseGeneratorModel> basegen;
 	basegen.reset(generator);
@@ -1112,10 +1085,6 @@ void gridpack::dynamic_simulation::DSFullBus::load(
 	p_genpg_nodynmodel[i] = pg;
 	p_genqg_nodynmodel[i] = qg;
 	p_ngen_nodynmodel++;
-      } else if (pg < 0.0) {
-        p_negpg.push_back(pg);
-        p_negqg.push_back(qg);
-        p_negngen++;
       }
       icnt++;
     }
-- 
2.43.0


From 1ffb2ac5c25681f498f041d898403ca6eb3db4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:59 +0000
Subject: [PATCH 128/140] fix: classical generators use the base power of the
 case

---
 .../dynamic_simulation_full_y/model_classes/classical.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
index a46770d..dcc8a9d 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
@@ -49,7 +49,7 @@ void gridpack::dynamic_simulation::ClassicalGenerator::load(
     boost::shared_ptr<gridpack::component::DataCollection>
     data, int idx)
 {
-  p_sbase = 100.0;
+  if (!data->getValue(CASE_SBASE,&p_sbase)) p_sbase = 100.0;
 
   int gstatus;
   double pg, qg, mva, r, dstr, dtr;
-- 
2.43.0


From 6ad586b3c71b68030d5db8bd07cdf870874617e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:59 +0000
Subject: [PATCH 129/140] fix: the Norton reactance of classical generators is
 always set

---
 .../dynamic_simulation_full_y/model_classes/classical.cpp    | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
index dcc8a9d..b4876b9 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
@@ -178,10 +178,7 @@ gridpack::ComplexType gridpack::dynamic_simulation::ClassicalGenerator::INorton(
 gridpack::ComplexType gridpack::dynamic_simulation::ClassicalGenerator::NortonImpedence()
 {
   double ra = p_r * p_sbase / p_mva; // * p_sbase / p_mva;
-  double xd;
-  if (p_dstr == 0.0) {
-    xd = p_dtr * p_sbase / p_mva; // * p_sbase / p_mva;
-  }
+  double xd = p_dtr * p_sbase / p_mva; // * p_sbase / p_mva;
   //printf("---------classical generator model :: NortonImpedence() p_r = %f, ra = %f, xd = %f, p_dstr = %f, p_dtr = %f \n", p_r, ra, xd, p_dstr, p_dtr);
   gridpack::ComplexType Y_a(ra, xd);
   
-- 
2.43.0


From 19fd34458450b0ccc98de369df56488e543ca276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:42 +0000
Subject: [PATCH 130/140] fix: salient pole generators without saturation no
 longer produce NaN

---
 .../modules/dynamic_simulation_full_y/model_classes/gensal.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp
index c4f25c8..440237f 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp
@@ -95,6 +95,9 @@ void gridpack::dynamic_simulation::GensalGenerator::load(
  */
 double gridpack::dynamic_simulation::GensalGenerator::Sat(double x)
 {
+  // Zero saturation
+  if (fabs(S10*S12) < 1e-6) return 0.0;
+
   double a_ = S12 / S10 - 1.0;
   double b_ = -2 * S12 / S10 + 2.4;
   double c_ = S12 / S10 - 1.44;
-- 
2.43.0


From f142acb2c46453e6d4af21ad135db4c98b130ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:57 +0000
Subject: [PATCH 131/140] fix: DSFullApp on a communicator starts with the
 documented defaults

---
 .../modules/dynamic_simulation_full_y/dsf_app_module.cpp     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
index cbc3be8..2ead4fa 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
@@ -88,9 +88,12 @@ gridpack::dynamic_simulation::DSFullApp::DSFullApp(gridpack::parallel::Communica
   p_report_dummy_obs = false;
   p_biterative_solve_network = false;
   p_iterative_network_debug = false;
+  p_generator_observationpower_systembase = true;
   ITER_TOL = 1.0e-7;
   MAX_ITR_NO = 8;
-  
+
+  p_current_time = 0.0;
+  p_time_step = 0.005;
 }
 
 /**
-- 
2.43.0


From 395ea4387d98862853465de07475b25403b049d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:57 +0000
Subject: [PATCH 132/140] fix: bus faults add their own admittance when they
 begin and remove it when they end

---
 .../dsf_components.cpp                        | 24 +++++++++++--------
 .../dsf_components.hpp                        |  6 +++--
 .../dynamic_simulation_full_y/dsf_events.cpp  |  1 +
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index f257986..a4a9cfc 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -101,9 +101,11 @@ void gridpack::dynamic_simulation::DSFullBus::setFault(double gfault, double bfa
 /**
  * clear fault
  */
-void gridpack::dynamic_simulation::DSFullBus::clearFault()
+void gridpack::dynamic_simulation::DSFullBus::clearFault(double gfault, double bfault)
 {
-  p_busfault = false;
+  p_busfault = true;
+  p_gfault = gfault;
+  p_bfault = bfault;
 }
 
 /**
@@ -257,11 +259,13 @@ bool gridpack::dynamic_simulation::DSFullBus::matrixDiagValues(ComplexType *valu
     // incrementMatrix method
     if(p_busfault) {
       /* Fault on */
-      // Values to be added to Ybus
-      // Note negative values since the current
-      // flows out of the bus
-      gridpack::ComplexType ret(-p_gfault,-p_bfault);
+      // Values to be added to Ybus. The fault is the admittance
+      // G - jB between the bus and ground
+      gridpack::ComplexType ret(p_gfault,-p_bfault);
+      p_ybusr += real(ret);
+      p_ybusi += imag(ret);
       values[0] = ret;
+      p_busfault = false; // Clear fault change flag
       return true;
     } else {
       return false;
@@ -269,12 +273,12 @@ bool gridpack::dynamic_simulation::DSFullBus::matrixDiagValues(ComplexType *valu
   } else if (p_mode == BUSFAULTOFF) {
     if(p_busfault) {
       /* Fault off */
-      p_ybusr += p_gfault;
-      p_ybusi += p_bfault;
       // Values to be added to Ybus
-      gridpack::ComplexType ret(p_gfault,p_bfault);
+      gridpack::ComplexType ret(-p_gfault,p_bfault);
+      p_ybusr += real(ret);
+      p_ybusi += imag(ret);
       values[0] = ret;
-      clearFault();
+      p_busfault = false; // Clear fault change flag
       return true;
     } else {
       return false;
diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp
index 9cd3ecc..5581920 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp
@@ -163,8 +163,10 @@ class DSFullBus
 
   /**
    * clear fault
+   * @param gfault => conductance of the fault that ends (pu)
+   * @param bfault => susceptance of the fault that ends (pu)
    */
-  void clearFault();
+  void clearFault(double gfault, double bfault);
 
 
 
@@ -845,7 +847,7 @@ class DSFullBus
     std::vector<double> p_downIntervalStart;
     std::vector<bool> p_downStartedMonitoring;
 
-    bool p_busfault; // Flag for bus fault
+    bool p_busfault; // Flag for a change of the bus fault
 
     friend class boost::serialization::access;
 
diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp
index 3e818cf..98aad89 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp
@@ -160,6 +160,7 @@ void gridpack::dynamic_simulation::DSFullApp::handleEvents()
 	bus_internal_idx = p_network->getLocalBusIndices(event.bus_idx);
 	if(bus_internal_idx.size()) {
 	  bus = dynamic_cast<gridpack::dynamic_simulation::DSFullBus*>(p_network->getBus(bus_internal_idx[0]).get());
+	  bus->clearFault(event.Gfault,event.Bfault);
 	}
 	
 	// Update Ybus
-- 
2.43.0


From 0e43984efdad3cc0e1fed2afb70b83a132a7058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:57 +0000
Subject: [PATCH 133/140] fix: line status events on several processes and in
 both line directions

---
 .../modules/dynamic_simulation_full_y/dsf_app_module2.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
index 09bc6cd..dd85b46 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
@@ -358,9 +358,13 @@ void gridpack::dynamic_simulation::DSFullApp::setLineStatus(int from_idx, int to
   /* Get Branch */
   std::vector<int> vec_branchintidx;
   vec_branchintidx = p_network->getLocalBranchIndices(from_idx,to_idx);
-  int ibr, nbr;
+  // The line may be given in the other direction
+  if (vec_branchintidx.size() == 0) {
+    vec_branchintidx = p_network->getLocalBranchIndices(to_idx,from_idx);
+  }
+  // Nothing to do if the line is not on this process
+  if (vec_branchintidx.size() == 0) return;
   gridpack::dynamic_simulation::DSFullBranch *pbranch;	
-  nbr = vec_branchintidx.size();
   pbranch = dynamic_cast<gridpack::dynamic_simulation::DSFullBranch*>
     (p_network->getBranch(vec_branchintidx[0]).get());
   if(pbranch) {
-- 
2.43.0


From 8883d15d346c4bacbe4c52be6606bcfd50599293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:57 +0000
Subject: [PATCH 134/140] fix: a line status change is added once on processes
 that own one end of the line

---
 .../dynamic_simulation_full_y/dsf_components.cpp    | 13 ++++++++-----
 .../dynamic_simulation_full_y/dsf_components.hpp    |  3 ++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index a4a9cfc..48e4cbb 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -3186,7 +3186,8 @@ gridpack::dynamic_simulation::DSFullBranch::DSFullBranch(void)
   p_branchactiontripflag = false;
   p_bextendedloadbranch = -1;
 
-  p_line_status_change = false;
+  p_line_status_change_frwd = false;
+  p_line_status_change_rvrs = false;
 }
 
 /**
@@ -3242,8 +3243,9 @@ bool gridpack::dynamic_simulation::DSFullBranch::matrixForwardValues(ComplexType
 	
     return YMBranch::matrixForwardValues(values);
   } else if(p_mode == LINESTATUSCHANGE) {
-    if(p_line_status_change) {
+    if(p_line_status_change_frwd) {
       values[0] = p_yft;
+      p_line_status_change_frwd = false; // Clear line status change flag
       return true;
     } else return false;
   } else if (p_mode == posFY) {
@@ -3302,9 +3304,9 @@ bool gridpack::dynamic_simulation::DSFullBranch::matrixReverseValues(ComplexType
 	  
     return YMBranch::matrixReverseValues(values);
   } else if (p_mode == LINESTATUSCHANGE) {
-    if(p_line_status_change) {
+    if(p_line_status_change_rvrs) {
       values[0] = p_ytf;
-      p_line_status_change = false; // Clear line status change flag
+      p_line_status_change_rvrs = false; // Clear line status change flag
       return true;
     } else return false;
   } else if (p_mode == posFY) {
@@ -4162,7 +4164,8 @@ void gridpack::dynamic_simulation::DSFullBranch::setLineStatus(std::string id, i
       bus2->diagValuesInsertForLineStatusChange(yjj);
     }
 
-    p_line_status_change = true;
+    p_line_status_change_frwd = true;
+    p_line_status_change_rvrs = true;
 
     YMBranch::setLineStatus(ckt_id,status);
   }
diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp
index 5581920..889ef44 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp
@@ -1106,7 +1106,8 @@ class DSFullBranch
 	gridpack::ComplexType p_branchfrombusvolt; //renke add
 	gridpack::ComplexType p_branchtobusvolt; //renke add
 
-  bool p_line_status_change; // Flag to indicate line status change
+  bool p_line_status_change_frwd; // Flags to indicate line status change
+  bool p_line_status_change_rvrs;
   gridpack::ComplexType p_yft,p_ytf; // Ybus off-diagonal contributions from this line
     friend class boost::serialization::access;
 
-- 
2.43.0


From fa8e5addc26033f3e090c1812a4540b9c389f471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:57 +0000
Subject: [PATCH 135/140] fix: line status events include the shunts at the
 ends of the line

---
 .../dsf_components.cpp                        | 40 +++++++++++--------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 48e4cbb..810f3a9 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -285,6 +285,8 @@ bool gridpack::dynamic_simulation::DSFullBus::matrixDiagValues(ComplexType *valu
     }
   } else if(p_mode == LINESTATUSCHANGE) {
     if(p_line_status_change) {
+      p_ybusr += real(p_yii);
+      p_ybusi += imag(p_yii);
       values[0] = p_yii;
       p_line_status_change = false; // Clear line status change flag
       return true;
@@ -4143,31 +4145,35 @@ void gridpack::dynamic_simulation::DSFullBranch::setLineStatus(std::string id, i
   bool line_status = getLineStatus(ckt_id);
   if(line_status != (bool)status) {
     
-    gridpack::ComplexType yii,yij,yji,yjj;
-    getLineElements(ckt_id,&yii,&yij);
-    getRvrsLineElements(ckt_id,&yjj,&yji);
     gridpack::dynamic_simulation::DSFullBus *bus1
       = dynamic_cast<gridpack::dynamic_simulation::DSFullBus*>(getBus1().get());
     gridpack::dynamic_simulation::DSFullBus *bus2
       = dynamic_cast<gridpack::dynamic_simulation::DSFullBus*>(getBus2().get());
 
-    if(!status) {
-      /* Negative sign for removing these values */
-      p_yft = -yij;
-      p_ytf = -yji;
-      bus1->diagValuesInsertForLineStatusChange(-yii);
-      bus2->diagValuesInsertForLineStatusChange(-yjj);
-    } else {
-      p_yft = yij;
-      p_ytf = yji;
-      bus1->diagValuesInsertForLineStatusChange(yii);
-      bus2->diagValuesInsertForLineStatusChange(yjj);
-    }
+    /* Values of the branch with the old status */
+    gridpack::ComplexType yii,yij,yji,yjj;
+    YMBranch::setYBus();
+    yij = YMBranch::getForwardYBus();
+    yji = YMBranch::getReverseYBus();
+    yii = YMBranch::getShunt(bus1)-YMBranch::getAdmittance()-YMBranch::getTransformer(bus1);
+    yjj = YMBranch::getShunt(bus2)-YMBranch::getAdmittance()-YMBranch::getTransformer(bus2);
+
+    YMBranch::setLineStatus(ckt_id,status);
+
+    // branches to isolated buses are not part of the matrix
+    if (bus1->isIsolated() || bus2->isIsolated()) return;
+
+    /* Values to be added to Ybus */
+    YMBranch::setYBus();
+    p_yft = YMBranch::getForwardYBus()-yij;
+    p_ytf = YMBranch::getReverseYBus()-yji;
+    bus1->diagValuesInsertForLineStatusChange(
+        YMBranch::getShunt(bus1)-YMBranch::getAdmittance()-YMBranch::getTransformer(bus1)-yii);
+    bus2->diagValuesInsertForLineStatusChange(
+        YMBranch::getShunt(bus2)-YMBranch::getAdmittance()-YMBranch::getTransformer(bus2)-yjj);
 
     p_line_status_change_frwd = true;
     p_line_status_change_rvrs = true;
-
-    YMBranch::setLineStatus(ckt_id,status);
   }
 }
   
-- 
2.43.0


From 5906478df169b52b18bbb091a9d06a8e3d1135d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:57 +0000
Subject: [PATCH 136/140] fix: a status event of an unknown generator is
 ignored

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 810f3a9..2dc4693 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -166,6 +166,7 @@ void gridpack::dynamic_simulation::DSFullBus::setGenStatus(std::string id, int s
   ckt_id = util.clean2Char(id);
 
   int gen_i = getGenNum(ckt_id);
+  if (gen_i < 0) return; // No such generator
   int gen_status = p_generators[gen_i]->getGenStatus();
 
   if(status != gen_status) {
@@ -293,6 +294,8 @@ bool gridpack::dynamic_simulation::DSFullBus::matrixDiagValues(ComplexType *valu
     } else return false;
   } else if(p_mode == GENSTATUSCHANGE) {
     if(p_gen_status_change) {
+      p_ybusr += real(p_ygen);
+      p_ybusi += imag(p_ygen);
       values[0] = p_ygen;
       p_gen_status_change = false;
       return true;
-- 
2.43.0


From 7e53d85f5c51cd4e252cd2bf13cb869ac46b774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:57 +0000
Subject: [PATCH 137/140] fix: the simulation ends when the end time is not a
 multiple of the time step

---
 .../modules/dynamic_simulation_full_y/dsf_app_module2.cpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
index dd85b46..0a2d411 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
@@ -405,7 +405,8 @@ void gridpack::dynamic_simulation::DSFullApp::setGenStatus(int bus_idx, std::str
 **/
 void gridpack::dynamic_simulation::DSFullApp::run(double tend)
 {
-  while(fabs(tend - p_current_time) > 1e-6) {
+  // tend need not be a multiple of the time step
+  while(tend - p_current_time > 1e-6) {
 
     // Process events
     handleEvents();
-- 
2.43.0


From 7b8493ae942d6bdc6f087b54ca248ed566ba3833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:57 +0000
Subject: [PATCH 138/140] fix: events between two time steps are handled

---
 .../dsf_app_module.hpp                        |  7 +++++++
 .../dynamic_simulation_full_y/dsf_events.cpp  | 19 +++++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.hpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.hpp
index d7c8159..45406b7 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.hpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.hpp
@@ -755,6 +755,13 @@ class DSFullApp
   **/
   void setGenStatus(int bus_idx, std::string gen_id, int status);
 
+  /**
+     Check if something that happens at a given time is due in the current step
+     @param: time - time of the event
+     @return: true in the first step that is not before this time
+  **/
+  bool isDue(double time);
+
   /**
      Handle any events
   **/
diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp
index 98aad89..0622f87 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp
@@ -127,6 +127,16 @@ gridpack::dynamic_simulation::DSFullApp::getEvents()
 }
 
 
+/**
+ * isDue - check if something that happens at a given time is due in the
+ * current step. Times need not be multiples of the time step.
+**/
+bool gridpack::dynamic_simulation::DSFullApp::isDue(double time)
+{
+  return time < p_current_time + 1e-6 &&
+    time >= p_current_time - p_time_step + 1e-6;
+}
+
 /**
  * handleEvents - handle any events
 **/
@@ -139,7 +149,7 @@ void gridpack::dynamic_simulation::DSFullApp::handleEvents()
     gridpack::dynamic_simulation::Event event = p_events[i];
 
     if(event.isBusFault) {
-      if(fabs(event.start - p_current_time) < 1e-6) {
+      if(isDue(event.start)) {
 	/* Fault start */
 	std::vector<int> bus_internal_idx;
 	gridpack::dynamic_simulation::DSFullBus *bus;
@@ -153,7 +163,8 @@ void gridpack::dynamic_simulation::DSFullApp::handleEvents()
 	p_factory->setMode(BUSFAULTON);
 	ybusMap_sptr->incrementMatrix(ybus);
 	
-      } else if(fabs(event.end - p_current_time) < 1e-6) {
+      }
+      if(isDue(event.end)) {
 	/* Fault end */
 	std::vector<int> bus_internal_idx;
 	gridpack::dynamic_simulation::DSFullBus *bus;
@@ -168,13 +179,13 @@ void gridpack::dynamic_simulation::DSFullApp::handleEvents()
 	ybusMap_sptr->incrementMatrix(ybus);
       }
     } else if(event.isLineStatus) {
-      if(fabs(event.time - p_current_time) < 1e-6) {
+      if(isDue(event.time)) {
 	setLineStatus(event.from_idx,event.to_idx,event.tag,event.status);
 	p_factory->setMode(LINESTATUSCHANGE);
 	ybusMap_sptr->incrementMatrix(ybus);
       }
     } else if(event.isGenStatus) {
-      if(fabs(event.time - p_current_time) < 1e-6) {
+      if(isDue(event.time)) {
 	/* Generator status change */
 	setGenStatus(event.bus_idx,event.tag,event.status);
 	p_factory->setMode(GENSTATUSCHANGE);
-- 
2.43.0


From dd249ada4d7b45296c4a83b1864ca074fd4fe5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:57 +0000
Subject: [PATCH 139/140] fix: machines that are out of service in the first
 step come back with a defined state

---
 .../dynamic_simulation_full_y/model_classes/classical.cpp   | 6 +++---
 .../dynamic_simulation_full_y/model_classes/gensal.cpp      | 6 ++++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
index b4876b9..5ccf91e 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
@@ -151,13 +151,13 @@ void gridpack::dynamic_simulation::ClassicalGenerator::init(double mag,
   ///real(p_mac_ang_s0) * 180 / p_PI, 
   ///real(p_mac_spd_s0) * 60);
   // Initialize other variables 
-  p_mac_ang_s1 = gridpack::ComplexType(0.0,0.0);
-  p_mac_spd_s1 = gridpack::ComplexType(0.0,0.0);
+  p_mac_ang_s1 = p_mac_ang_s0;
+  p_mac_spd_s1 = p_mac_spd_s0;
   p_dmac_ang_s0 = gridpack::ComplexType(0.0,0.0);
   p_dmac_spd_s0 = gridpack::ComplexType(0.0,0.0);
   p_dmac_ang_s1 = gridpack::ComplexType(0.0,0.0);
   p_dmac_spd_s1 = gridpack::ComplexType(0.0,0.0);
-  p_eprime_s1 = gridpack::ComplexType(0.0,0.0);
+  p_eprime_s1 = p_eprime_s0;
   p_INorton = gridpack::ComplexType(0.0,0.0);
 }
 
diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp
index 440237f..3fffc23 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp
@@ -186,6 +186,12 @@ void gridpack::dynamic_simulation::GensalGenerator::init(double mag,
   }
   
   p_Norton_Ya = NortonImpedence();
+
+  x1d_1 = x1d_0;
+  x2w_1 = x2w_0;
+  x3Eqp_1 = x3Eqp_0;
+  x4Psidp_1 = x4Psidp_0;
+  x5Psiqpp_1 = x5Psiqpp_0;
 }
 
 /**
-- 
2.43.0


From 203cc3514814a8f16a8468ea232f0600ed3a8931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 140/140] fix: DSFullApp::reset restores generators and lines
 that changed their status

---
 .../modules/dynamic_simulation_full_y/dsf_app_module2.cpp      | 3 +++
 .../modules/dynamic_simulation_full_y/dsf_components.cpp       | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
index 0a2d411..ce39e17 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
@@ -65,6 +65,9 @@ void gridpack::dynamic_simulation::DSFullApp::reset()
   solver_sptr.reset();
 
   p_factory->load();
+
+  // Lines may have changed their status
+  p_factory->setYBus();
 }
 
 
diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 2dc4693..a8fe87f 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -836,6 +836,7 @@ void gridpack::dynamic_simulation::DSFullBus::load(
   p_genpg_nodynmodel.clear();
   p_genqg_nodynmodel.clear();
   p_genid.clear();
+  p_gstatus.clear();
   p_loadid.clear();
   p_generators.clear();
   p_loadrelays.clear();
-- 
2.43.0

