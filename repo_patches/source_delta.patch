From 5ac85c65cd634ed25dfe94ea7f97f74f9bb5acff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 01/39] fix: give every edge of a traditional graph its own
 weight

Edges of a traditional graph are numbered by their position in the edge list,
but the weights were stored in the order in which edges were passed in.
---
 agi/agiConstruct.cpp | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index ee53d5c..4ab55f5 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -221,6 +221,12 @@ namespace agi {
         ghost_unmap = new gid_t[num_ghost_verts];
     }
 
+    //Set the weights of the edges. The edges of a traditional graph are numbered by their
+    //  position in the edge list, so their weights are placed with the edge below
+    edge_weights[t] = new wgt_t[edge_ids.size()];
+    for (lid_t i=0;i<(lid_t)edge_ids.size();i++)
+      edge_weights[t][i] = isHyperGraph&&e_weights.size()>0 ? e_weights[i] : 1;
+
     //Loop through edges again to build the edge lists
     for (lid_t i=0;i<(lid_t)edge_ids.size();i++) {
       for (lid_t j=pin_degree_list[t][i];j<pin_degree_list[t][i+1];j++) {
@@ -239,22 +245,16 @@ namespace agi {
           if (v>=num_local_verts){
             ghost_unmap[v-num_local_verts] = pins_to_verts[j];
           }
-          if (u<num_local_verts)
+          if (u<num_local_verts) {
+            if (e_weights.size()>0)
+              edge_weights[t][temp_counts[u]] = e_weights[i];
             edge_list[t][temp_counts[u]++] = v;
+          }
         }
       }
     }
     free(temp_counts);
 
-    //Set the weights of the edges
-    edge_weights[t] = new wgt_t[edge_ids.size()];
-    if (e_weights.size()==0)
-      for (lid_t i=0;i<(lid_t)edge_ids.size();i++) 
-        edge_weights[t][i] = 1;
-    else
-      for (lid_t i=0;i<(lid_t)e_weights.size();i++)
-        edge_weights[t][i] = e_weights[i];
-
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
     }
@@ -329,6 +329,12 @@ namespace agi {
         ghost_unmap = new gid_t[num_ghost_verts];
     }
 
+    //Set the weights of the edges. The edges of a traditional graph are numbered by their
+    //  position in the edge list, so their weights are placed with the edge below
+    edge_weights[t] = new wgt_t[num_edges];
+    for (lid_t i=0;i<num_edges;i++)
+      edge_weights[t][i] = isHyperGraph&&e_weights ? e_weights[i] : 1;
+
     for (lid_t i=0;i<num_edges;i++) {
       for (lid_t j=pin_degree_list[t][i];j<pin_degree_list[t][i+1];j++) {
         lid_t u = pin_list[t][j];
@@ -344,22 +350,16 @@ namespace agi {
           if (v>=num_local_verts){
             ghost_unmap[v-num_local_verts] = pins_to_verts[j];
           }
-          if (u<num_local_verts)
+          if (u<num_local_verts) {
+            if (e_weights)
+              edge_weights[t][temp_counts[u]] = e_weights[i];
             edge_list[t][temp_counts[u]++] = v;
+          }
         }
       }
     }
     free(temp_counts);
 
-    //Set the weights of the edges
-    edge_weights[t] = new wgt_t[num_edges];
-    if (!e_weights)
-      for (lid_t i=0;i<num_edges;i++) 
-        edge_weights[t][i] = 1;
-    else
-      for (lid_t i=0;i<num_edges;i++)
-        edge_weights[t][i] = e_weights[i];
-
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
     }
-- 
2.43.0


From 204cdcc07f3eb244fee5ad393176772c2e085272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 02/39] fix: create ghost weights when ghosts are given as
 arrays

Asking for the weight of a ghost vertex dereferenced a null tag when the graph
was constructed with the array overload of constructGhosts (as the C interface
does); the map overload creates the tag.
---
 agi/agiConstruct.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 4ab55f5..51c49e6 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -432,10 +432,10 @@ namespace agi {
       owners = new part_t[num_ghost_verts];
     for (lid_t i = 0;i<num_ghosts;i++) {
       gid_t v = vert_ids[i];
-      lid_t lid = vtx_mapping[v]-num_local_verts;
-      if (lid<0)
+      map_t::iterator vitr = vtx_mapping.find(v);
+      if (vitr==vtx_mapping.end() || vitr->second<num_local_verts)
         continue;
-      owners[lid] = owns[i];
+      owners[vitr->second-num_local_verts] = owns[i];
     }
 
     for (etype t = 0;t<num_types;t++)  {
@@ -465,6 +465,11 @@ namespace agi {
         num_global_pins[t] = 2*num_global_edges[t];
       }
     }
+
+    //Create the ghost weights
+    if (PCU_Comm_Peers() > 1)
+      ghost_weights = createDoubleGhostTag(weightTag);
+
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
     }
-- 
2.43.0


From aec88ac8c898476b7956cafd1d216e45dc1b2843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 03/39] fix: migrate the edges of every edge type

The edges to send were always collected through edge type 0, so with several
edge types the edges of type 0 were sent again as edges of the other types.
---
 agi/agiMigrate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index ab73a41..8b12939 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -77,7 +77,7 @@ namespace agi {
       VertexVector::iterator itr;
       //loop through the vertices being sent
       for (itr = verts.begin();itr!=verts.end();itr++) {
-        GraphIterator* gitr =g->adjacent(*itr);
+        GraphIterator* gitr =g->adjacent(*itr,t);
         GraphEdge* e;
         GraphEdge* old=NULL;
         while ((g->iterate(gitr))) {
-- 
2.43.0


From 38eb3923ddb78d907cdaef48b74fde1b583c4746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 04/39] fix: keep traditional edges whose destination migrates

An edge of a traditional graph lives with its source vertex. It was dropped
when only its destination was migrated, since nobody sends it in that case.
---
 agi/agiMigrate.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index 8b12939..a34b0f0 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -127,9 +127,15 @@ namespace agi {
     while ((e = g->iterate(itr))) {
       agi::PinIterator* pitr = g->pins(e);
       agi::GraphVertex* end;
-      while ((end=g->iterate(pitr)))
+      while ((end=g->iterate(pitr))) {
         if (plan->has(end))
           break;
+        //The edges of a traditional graph only move with their source vertex
+        if (!g->isHyper()) {
+          end = NULL;
+          break;
+        }
+      }
       g->destroy(pitr);
       if (!end) {
         //Add the Edge
@@ -143,6 +149,8 @@ namespace agi {
           gid_t other_gid = g->globalID(end);
           pins.push_back(other_gid);
           part_t owner = g->owner(end);
+          if (plan->has(end))
+            owner = plan->get(end);
 
           if (owner!=PCU_Comm_Self()) 
             ghost_owners[other_gid] = owner;          
-- 
2.43.0


From 06195312aad36ca91c1e9dcd1fd3841ba04a50e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 05/39] fix: update the owners of all ghost vertices in a
 migration

The new owner of a migrating vertex was only sent along its own type 0 edges,
so parts that know the vertex through another edge type, or through an edge
pointing at it in a directed graph, kept the old owner.
---
 agi/agiMigrate.cpp | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index a34b0f0..673f36a 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -25,22 +25,28 @@ namespace agi {
   }
 
   void Ngraph::updateGhostOwners(Migration* plan) {
+    //Ask the owner of each ghost vertex where the vertex will be after migration
     PCU_Comm_Begin();
-    Migration::iterator itr;
-    for (itr = plan->begin();itr!=plan->end();itr++) {
-      GraphVertex* v = *itr;
+    GhostIterator* gitr = beginGhosts();
+    GraphVertex* v;
+    while ((v = iterate(gitr))) {
       gid_t gid = globalID(v);
-      part_t toSend = plan->get(v);
-      GraphIterator* gitr = adjacent(v);
-      GraphVertex* other;
-      while ((other=iterate(gitr))) {
-        part_t own = owner(other);
-        if (own!=PCU_Comm_Self()) {
-          PCU_COMM_PACK(own,gid);
-          PCU_COMM_PACK(own,toSend);
-        }
-      }
-      destroy(gitr);
+      PCU_COMM_PACK(owner(v),gid);
+    }
+    PCU_Comm_Send();
+    std::vector<std::pair<part_t, std::pair<gid_t, part_t> > > answers;
+    while (PCU_Comm_Receive()) {
+      part_t sender = PCU_Comm_Sender();
+      gid_t gid;
+      PCU_COMM_UNPACK(gid);
+      v = findGID(gid);
+      part_t own = plan->has(v) ? plan->get(v) : PCU_Comm_Self();
+      answers.push_back(std::make_pair(sender,std::make_pair(gid,own)));
+    }
+    PCU_Comm_Begin();
+    for (size_t i = 0; i < answers.size(); i++) {
+      PCU_COMM_PACK(answers[i].first,answers[i].second.first);
+      PCU_COMM_PACK(answers[i].first,answers[i].second.second);
     }
     PCU_Comm_Send();
     while (PCU_Comm_Receive()) {
@@ -48,10 +54,7 @@ namespace agi {
       part_t own;
       PCU_COMM_UNPACK(gid);
       PCU_COMM_UNPACK(own);
-      lid_t lid = vtx_mapping[gid];
-      if (lid>=num_local_verts) {
-        owners[lid-num_local_verts]=own;
-      }
+      owners[vtx_mapping[gid]-num_local_verts]=own;
     }
   }
   /*
-- 
2.43.0


From 928b6c26ff5408234664f5a297307dac2bd8ffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 06/39] fix: report a failed close of a written file

Data still buffered by stdio is written by fclose.  Its result was ignored,
so a full disk or an I/O error at that point left a truncated file behind a
save that reported success.
---
 pcu/pcu_io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcu/pcu_io.c b/pcu/pcu_io.c
index 01462ac..c74294c 100644
--- a/pcu/pcu_io.c
+++ b/pcu/pcu_io.c
@@ -201,7 +201,8 @@ void pcu_fclose(pcu_file* pf)
 {
   if (pf->compress)
     close_compressed(pf);
-  fclose(pf->f);
+  if (fclose(pf->f) && pf->write)
+    reel_fail("fclose failed, the file is incomplete");
   free(pf);
 }
 
-- 
2.43.0


From a5e4241bc17f325c6739505e68fa2f12607c24db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 07/39] fix: number the vertices of a binary graph correctly

Vertices without an edge on their process never received a local id, which
left uninitialised ids and counts behind.  Targets that had already been
replaced by their local id were looked up again as if they were global ids,
so every process but the first invented ghost vertices.
---
 interfaces/binGraph.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index bc80493..dd01d8d 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -296,12 +296,18 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
       continue;
     if (vtx_mapping.count(out) == 0) {
       vtx_mapping[out] = cur_label;
-      local_unmap[cur_label] = out;
-      edge_list[t][i] = cur_label++;
+      local_unmap[cur_label++] = out;
     }
-    else        
-      edge_list[t][i] = vtx_mapping[out];
   }
+  //Vertices that have no edge on this process
+  for (int64_t i = 0; i < num_global_verts; ++i)
+    if (ranks[i] == PCU_Comm_Self() && vtx_mapping.count(i) == 0) {
+      vtx_mapping[i] = cur_label;
+      local_unmap[cur_label++] = i;
+    }
+  //Relabel the sources of the edges, the targets keep their global ids for now
+  for (int64_t i = 0; i < num_local_edges[t]*2; i+=2)
+    edge_list[t][i] = vtx_mapping[edge_list[t][i]];
   lid_t* tmp_edges = new lid_t[num_local_edges[t]];
   lid_t* temp_counts = new lid_t[num_local_verts];
   degree_list[t] = new lid_t[num_local_verts+1];
@@ -328,12 +334,9 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
     for (int64_t i = 0; i < num_local_edges[t]; ++i) {
       int64_t out = edge_list[t][i];
       if (vtx_mapping.find(out) ==vtx_mapping.end()) {
-        vtx_mapping[out] = cur_label;
-        edge_list[t][i] = cur_label++;
+        vtx_mapping[out] = cur_label++;
         nonlocal_vids.push_back(out);
       }
-      else if (vtx_mapping[out] >= num_local_verts)
-        edge_list[t][i] = vtx_mapping[out];
     }
     num_ghost_verts = cur_label - num_local_verts;
     if (num_ghost_verts>0) {
@@ -345,6 +348,9 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
       }
     }
   }
+  //Relabel the targets of the edges
+  for (int64_t i = 0; i < num_local_edges[t]; ++i)
+    edge_list[t][i] = vtx_mapping[edge_list[t][i]];
 
   //Create the ghost weights
   if (PCU_Comm_Peers() > 1)
-- 
2.43.0


From ec4fda0ad6b2a494fa168ed240bc9998441e10f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 08/39] fix: report a failed read of a binary graph file

The number of edges actually read was ignored, a short read turned
uninitialised memory into edges.
---
 interfaces/binGraph.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index dd01d8d..6221f9b 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -163,8 +163,14 @@ etype binGraph::load_edges(FILE* infp, int64_t*& read_edges,
   int32_t* temp_read = new int32_t[2*m_read];
   read_edges = new int64_t[2*m_read];
   fseek(infp, read_offset_start, SEEK_SET);
-  fread(temp_read, m_read, 2*sizeof(int32_t), infp);
+  size_t got = fread(temp_read, 2*sizeof(int32_t), m_read, infp);
   fclose(infp);
+  if (got != (size_t)m_read) {
+    fprintf(stderr, "Cannot read the edges of the graph file\n");
+    delete [] temp_read;
+    delete [] read_edges;
+    throw 1;
+  }
   for (int64_t i = 0; i < m_read*2; ++i)
     read_edges[i] = (int64_t)temp_read[i];
   delete [] temp_read;
-- 
2.43.0


From 4e85360398f85de19c4d6bb1db2b19ae42134ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 09/39] fix: refuse a partition file that does not cover the
 graph

A missing or short partition file silently placed the remaining vertices on
the first process.
---
 interfaces/binGraph.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index 6221f9b..1ae44c2 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -194,7 +194,11 @@ int binGraph::read_ranks(char* filename, int32_t* ranks) {
 
   for (int64_t i = 0; i < num_global_verts; ++i)
   {
-    getline(infile, line);
+    if (!getline(infile, line)) {
+      fprintf(stderr, "Cannot read the partition of vertex %ld from %s\n",
+              (long)i, filename);
+      throw 1;
+    }
     ranks[i] = (int32_t)atoi(line.c_str());
   }
   infile.close();
-- 
2.43.0


From fd75a3581e1d0d11207ceca804bc2d98d4664bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 10/39] fix: distance queue must not start from edge 2 on parts
 without ghosts

---
 partition/Diffusive/src/engpar_queue.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index 8b1bf82..31ab6a0 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -247,7 +247,8 @@ namespace engpar {
 
   Queue* createDistanceQueue(DiffusiveInput* input) {
     agi::Ngraph* g = input->g;
-    if (g->numLocalEdges()==0) {
+    //Without ghost vertices no edge is shared across part boundaries
+    if (g->numLocalEdges()==0 || g->numGhostVtxs()==0) {
       return new Queue(0);
     }
     agi::PNgraph* pg = g->publicize();
@@ -255,11 +256,8 @@ namespace engpar {
     //Setup Inputs for first BFS traversal
     Inputs* in1 = new Inputs;
     in1->seeds = new agi::lid_t[pg->num_local_edges[t]];
-    //If run in serial use edge 2 for the seed
-    if (g->numGhostVtxs()==0)
-       in1->seeds[in1->numSeeds++]=2;
-    //Otherwise use all edges that are shared across part boundaries
-    else if (pg->isHyperGraph) {
+    //Use all edges that are shared across part boundaries
+    if (pg->isHyperGraph) {
       for (agi::lid_t i=0;i<pg->num_local_edges[t];i++) {
         bool isShared=false;
         for (agi::lid_t j=pg->pin_degree_list[t][i];
-- 
2.43.0


From ce61e2b5be212e5f0629a4cb5724be9733951259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 11/39] fix: selectDisconnected must skip cavities that are
 already in the plan

---
 partition/Diffusive/src/engpar_selector.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index c890e38..89afaee 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -233,6 +233,9 @@ namespace engpar {
       Cavity& cav = cavities[q->get(itr)];
       Peers peers;
       getCavityPeers(g,plan,cav,peers);
+      //The whole cavity may already be part of the plan
+      if (peers.empty())
+        continue;
       if (isPartiallyConnected(g,in->connectivityType,in->minConnectivity,plan,cav)) {
         addCavity(g,cav,*peers.begin(),plan,target_dimension);
       }
-- 
2.43.0


From 9db8faf8cddeda1d89e1a040f7ef869d5ef0231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 12/39] fix: define cengpar_createLocalSplitInput with its
 declared parameters

---
 interfaces/cengpar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/cengpar.cpp b/interfaces/cengpar.cpp
index cfac2ff..a8ed204 100644
--- a/interfaces/cengpar.cpp
+++ b/interfaces/cengpar.cpp
@@ -25,7 +25,7 @@ ngraph cengpar_createEmptyGraph() {
 
 
 engparInput cengpar_createLocalSplitInput(ngraph g, MPI_Fint smallComm, MPI_Fint largeComm,
-    bool isOrig, int splitFactor, double tol, agi::etype t, agi::part_t* ranks) {
+    bool isOrig, int splitFactor, double tol, agi::part_t* ranks, agi::etype t) {
   MPI_Comm s = MPI_Comm_f2c(smallComm);
   MPI_Comm l = MPI_Comm_f2c(largeComm);
   agi::Ngraph* ng = (agi::Ngraph*)g;
-- 
2.43.0


From c4effd3bcd8802ed017ccdc120a95c6e6a496ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 13/39] fix: tell Zoltan the number of pins of the owned
 vertices

---
 partition/Multilevel/engpar_zoltan.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/partition/Multilevel/engpar_zoltan.cpp b/partition/Multilevel/engpar_zoltan.cpp
index cb5dfc4..3759235 100644
--- a/partition/Multilevel/engpar_zoltan.cpp
+++ b/partition/Multilevel/engpar_zoltan.cpp
@@ -122,8 +122,12 @@ namespace engpar {
   void numHyperedges(void* data, int* numVtxs, int* numPins, int* format, int* ierr) {
     agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
     *numVtxs = g->numLocalVtxs();
-    //TODO: this number is inaccurate in parallel
-    *numPins = g->numLocalPins();
+    //Count the pins of owned vertices only, those are what getHyperedges lists
+    *numPins = 0;
+    agi::GraphVertex* v;
+    agi::VertexIterator* vitr = g->begin();
+    while ((v = g->iterate(vitr)))
+      *numPins += g->degree(v);
     *format = ZOLTAN_COMPRESSED_VERTEX;
     *ierr = ZOLTAN_OK;
   }
-- 
2.43.0


From 2ef3fee9f9f60cc82a10161e6d416f4926b02d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 14/39] fix: do not use the result of a failed ParMETIS call

---
 partition/Multilevel/engpar_parmetis.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/partition/Multilevel/engpar_parmetis.cpp b/partition/Multilevel/engpar_parmetis.cpp
index f97764b..0a573bd 100644
--- a/partition/Multilevel/engpar_parmetis.cpp
+++ b/partition/Multilevel/engpar_parmetis.cpp
@@ -20,6 +20,9 @@ namespace engpar {
     typedef std::unordered_map<agi::GraphVertex*,int> VertexSet;
     
     agi::Ngraph* g = input->g;
+    //ParMETIS refuses graphs without vertices and there is nothing to split
+    if (isLocal && g->numLocalVtxs()==0)
+      return new agi::Migration(g);
     //Get an offset array of the vertices on each part
     idx_t* vtxdist = new idx_t[PCU_Comm_Peers()+1];
     for (int i = 0; i <= PCU_Comm_Self()+1; ++i) {
@@ -142,10 +145,12 @@ namespace engpar {
     MPI_Comm comm = PCU_Get_Comm();
 
     //Create Partition
-    ParMETIS_V3_PartKway(vtxdist,xadj,adjncy,vwgts,ewgts,
-                         &wgtflag,&numflag,&ncon,&nparts,
-                         tpwgts,&ubvec,options,&edgecut,
-                         new_partition,&comm);
+    int status = ParMETIS_V3_PartKway(vtxdist,xadj,adjncy,vwgts,ewgts,
+                                      &wgtflag,&numflag,&ncon,&nparts,
+                                      tpwgts,&ubvec,options,&edgecut,
+                                      new_partition,&comm);
+    if (status != METIS_OK)
+      throw std::runtime_error("ParMETIS failed to partition the graph");
     delete [] vtxdist;
     delete [] xadj;
     delete [] adjncy;
-- 
2.43.0


From 5b1e43af4c4decb436cdeef8e15aebd14deb0149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:57 +0000
Subject: [PATCH 15/39] fix: add migrated weight to the vertex it was sent to

---
 agi/agiWeightMigrate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiWeightMigrate.cpp b/agi/agiWeightMigrate.cpp
index dd8c677..590518d 100644
--- a/agi/agiWeightMigrate.cpp
+++ b/agi/agiWeightMigrate.cpp
@@ -44,7 +44,7 @@ namespace agi {
       PCU_COMM_UNPACK(gid);
       PCU_COMM_UNPACK(w);
       agi::GraphVertex* mine = findGID(gid);
-      v_weights[numLocalVtxs() - 1]+=w;
+      v_weights[localID(mine)]+=w;
       wp_map[gid][other_gid] -= w;
     }
 
-- 
2.43.0


From 0a9640b11c368c18c52ced7e3a2ab6778f9f35f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 16/39] fix: refresh the ghost weights after a weight migration

---
 agi/agiWeightMigrate.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/agi/agiWeightMigrate.cpp b/agi/agiWeightMigrate.cpp
index 590518d..0988751 100644
--- a/agi/agiWeightMigrate.cpp
+++ b/agi/agiWeightMigrate.cpp
@@ -8,6 +8,9 @@
 
 namespace agi {
 
+  //Defined in agiConstruct.cpp
+  double weightTag(Ngraph* g, GraphVertex* v);
+
   void Ngraph::migrate(WeightMigration* plan, MigrationTimers*) {
     //Get initial vertex weights
     wgt_t* v_weights = new wgt_t[numLocalVtxs()];
@@ -50,6 +53,13 @@ namespace agi {
 
     setWeights(v_weights);
     delete [] v_weights;
+
+    //The ghosts hold copies of the weights that were just changed
+    if (PCU_Comm_Peers() > 1) {
+      if (ghost_weights)
+        destroyTag(ghost_weights);
+      ghost_weights = createDoubleGhostTag(weightTag);
+    }
     delete plan;
   }
 
-- 
2.43.0


From 0b21024acbd7dfe117a17ee229da3de1c4d6bf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 17/39] fix: evaluatePartition must not overflow its name and
 average buffers

---
 partition/engpar.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index 03d2ed8..a5b81b7 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -3,6 +3,7 @@
 #include "Diffusive/src/engpar_sides.h"
 #include <engpar_support.h>
 #include <engpar_metrics.h>
+#include <string>
 
 namespace engpar {
 
@@ -97,11 +98,11 @@ namespace engpar {
     empty = PCU_Add_Int(empty);
     delete [] my_vals;
     if (!PCU_Comm_Self()) {
-      for (int i=0;i<5+g->numEdgeTypes();i++) {
+      for (int i=0;i<num_vals;i++) {
         avg[i] = total[i]/PCU_Comm_Peers();
       }
-      char prefix[100];
-      sprintf(prefix,"PARTITION %s",name);
+      std::string prefix_str = std::string("PARTITION ") + name;
+      const char* prefix = prefix_str.c_str();
       EnGPar_Status_Message("%s: Empty Parts: %d\n",prefix,empty);
       EnGPar_Status_Message("%s: Disconnected Components: <max,tot> %.3f %.3f\n",
                             prefix,max[0],total[0]);
@@ -112,8 +113,8 @@ namespace engpar {
       EnGPar_Status_Message("%s: Total Vertex: <max,min,avg,imb> %.3f %.3f %.3f %.3f\n",
                             prefix,max[3],min[3],avg[3],max[3]/avg[3]);
       for (int i=0;i<g->numEdgeTypes();i++) {
-        char edge_name[30];
-        sprintf(edge_name,"%s: Edges type %d",prefix,i);
+        std::string edge_name_str = prefix_str + ": Edges type " + std::to_string(i);
+        const char* edge_name = edge_name_str.c_str();
         EnGPar_Status_Message("%s: <max,min,avg,imb> %.3f %.3f %.3f %.3f\n",edge_name,
                               max[4+i*2],min[4+i*2],avg[4+i*2],max[4+i*2]/avg[4+i*2]);
         EnGPar_Status_Message("%s Cut: <max,tot> %.3f %.3f\n", edge_name,
-- 
2.43.0


From 29a1dc4723e1270c52c03971706e9a185cb04c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 18/39] fix: an empty part does not have -1 disconnected
 components

---
 partition/engpar.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index a5b81b7..125e31c 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -49,7 +49,8 @@ namespace engpar {
     }
 
     g->destroyTag(visited);
-    return dis-1;
+    //An empty part has no components to be disconnected
+    return dis > 0 ? dis-1 : 0;
   }
 
   void evaluatePartition(agi::Ngraph* g,const char* name) {
-- 
2.43.0


From 9d5a44854c64302c562df782ea86e2de2171a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 19/39] fix: do not truncate the weights of cut edges to
 integers

---
 partition/Diffusive/src/engpar_balancer.cpp |  2 +-
 partition/Diffusive/src/engpar_balancer.h   |  2 +-
 partition/Diffusive/src/engpar_make.cpp     |  6 +++---
 partition/Diffusive/src/engpar_sides.h      |  2 +-
 partition/Diffusive/src/engpar_targets.h    | 10 +++++-----
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index f470942..3575bd9 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -273,7 +273,7 @@ namespace engpar {
         }
       }
       if (!PCU_Comm_Self() && verbosity >= 2)
-        EnGPar_Status_Message("Side Tolerance is: %d\n", sideTol);
+        EnGPar_Status_Message("Side Tolerance is: %f\n", sideTol);
 
       //Run diffusion
       int rc;
diff --git a/partition/Diffusive/src/engpar_balancer.h b/partition/Diffusive/src/engpar_balancer.h
index ba4ef27..f44878d 100644
--- a/partition/Diffusive/src/engpar_balancer.h
+++ b/partition/Diffusive/src/engpar_balancer.h
@@ -34,7 +34,7 @@ namespace engpar {
     Input* input;
     double totStepTime;
     double distance_time;
-    int sideTol;
+    wgt_t sideTol;
     agi::Ngraph* weightGraph;
     agi::MigrationTimers* migrTime;
   };
diff --git a/partition/Diffusive/src/engpar_make.cpp b/partition/Diffusive/src/engpar_make.cpp
index 39deda4..82675fe 100644
--- a/partition/Diffusive/src/engpar_make.cpp
+++ b/partition/Diffusive/src/engpar_make.cpp
@@ -16,17 +16,17 @@ namespace engpar {
   Weights* makeWeights(agi::Ngraph* g, bool countGhosts, Sides* s, int target) {
     return new Weights(g,countGhosts,s,target);
   }
-  Targets* makeTargets(bool isHG, double sf, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(bool isHG, double sf, Sides* s, Weights* tW,wgt_t sT,
                        Weights** cWs, std::vector<wgt_t>& cTs) {
     return new Targets(isHG, sf,s,tW,sT,cWs,cTs);
   }
 
-  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,wgt_t sT,
                        Weights** cWs, std::vector<wgt_t>& cTs) {
     return new Targets(in->g->isHyper(),in->step_factor,s,tW,sT,cWs,cTs);
   }
   Targets* makePartWeightTargets(DiffusiveInput* in, Sides* s, agi::WeightPartitionMap* wp_map,
-                                 int sT, Weights** cWs, std::vector<wgt_t>& cTs) {
+                                 wgt_t sT, Weights** cWs, std::vector<wgt_t>& cTs) {
     return new Targets(in->g->isHyper(),in->step_factor,s,wp_map,sT,cWs,cTs);
   }
 
diff --git a/partition/Diffusive/src/engpar_sides.h b/partition/Diffusive/src/engpar_sides.h
index 7ee95ac..4509bf1 100644
--- a/partition/Diffusive/src/engpar_sides.h
+++ b/partition/Diffusive/src/engpar_sides.h
@@ -8,7 +8,7 @@
 #include "engpar_diffusive_input.h"
 
 namespace engpar {
-  class Sides : public Container<int>  {
+  class Sides : public Container<wgt_t>  {
   public:
     Sides(agi::Ngraph* g, agi::etype t) {
       agi::GraphEdge* edge;
diff --git a/partition/Diffusive/src/engpar_targets.h b/partition/Diffusive/src/engpar_targets.h
index 7c74ea0..ce1eb54 100644
--- a/partition/Diffusive/src/engpar_targets.h
+++ b/partition/Diffusive/src/engpar_targets.h
@@ -9,7 +9,7 @@ namespace engpar {
 
   class Targets : public Container<wgt_t> {
   public:
-    Targets(bool isHyper, double step_factor, Sides* s, Weights* targetW, int sideTol,
+    Targets(bool isHyper, double step_factor, Sides* s, Weights* targetW, wgt_t sideTol,
             Weights** completedWs,std::vector<wgt_t>& completedTolerances) {
       Sides::iterator itr;
       //For each side
@@ -38,7 +38,7 @@ namespace engpar {
     }
 
     Targets(bool isHyper, double, Sides* s, agi::WeightPartitionMap* wp_map,
-            int sideTol, Weights** completedWs,std::vector<wgt_t>& completedTolerances) {
+            wgt_t sideTol, Weights** completedWs,std::vector<wgt_t>& completedTolerances) {
       Sides::iterator itr;
       for (itr = s->begin();itr!=s->end();itr++) {
         int neighbor = itr->first;
@@ -64,14 +64,14 @@ namespace engpar {
       }
     }
   };
-  Targets* makeTargets(bool isHyper, double step_factor, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(bool isHyper, double step_factor, Sides* s, Weights* tW,wgt_t sT,
                        Weights** cWs,std::vector<wgt_t>& cTs);
 
-  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,wgt_t sT,
                        Weights** cWs,std::vector<wgt_t>& cTs);
 
   Targets* makePartWeightTargets(DiffusiveInput* in, Sides* s, agi::WeightPartitionMap* wp_map,
-                                 int sT, Weights** cWs, std::vector<wgt_t>& cTs);
+                                 wgt_t sT, Weights** cWs, std::vector<wgt_t>& cTs);
 }
 
 #endif
-- 
2.43.0


From fc38db49ae463dc289594a60fc657c2cf68c6795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 20/39] fix: cavities of 100 or more vertices overflowed an
 unused table

---
 partition/Diffusive/src/engpar_selector.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index 89afaee..6c1653a 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -28,16 +28,12 @@ namespace engpar {
   
   void Selector::constructCavities() {
     q->startIteration();
-    int cav_sizes[100];
-    for (int i =0; i < 100; ++i)
-      cav_sizes[i] = 0;
     Queue::iterator itr;
     for (itr = q->begin();itr!=q->end();itr++) {
       Cavity cav;
       getCavity(g, q->get(itr), cav);
       cavities.insert(std::make_pair(q->get(itr),cav));
       q->addElement(q->get(itr));
-      cav_sizes[cav.size()]++;
     }
   }
   
-- 
2.43.0


From 2f83e7bf7bb7c8aa7a6e653bfe334fb17c380da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 21/39] fix: trim may compare more than five completed
 dimensions

---
 partition/Diffusive/src/engpar_selector.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index 6c1653a..d32292c 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -272,11 +272,10 @@ namespace engpar {
   }
   struct Migr {
     Migr(int i) :
-      id(i), edge_types(0) {}
-    void addWeight(double w) {ws[edge_types++]=w;}
+      id(i) {}
+    void addWeight(double w) {ws.push_back(w);}
     int id;
-    double ws[5];
-    int edge_types;
+    std::vector<double> ws;
   };
   struct CompareMigr {
     //sort by part first completed edge type weights
-- 
2.43.0


From 4df55b215501464f580ab94b9ef6a853cbbe985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 22/39] fix: migration timers were stored one past the end

---
 agi/agiMigrationTimers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiMigrationTimers.cpp b/agi/agiMigrationTimers.cpp
index 4c79f4f..928add7 100644
--- a/agi/agiMigrationTimers.cpp
+++ b/agi/agiMigrationTimers.cpp
@@ -15,7 +15,7 @@ namespace agi {
   }
 
   void MigrationTimers::addTimer(std::string name) {
-    int idx = nameToIdx.size()+1;
+    int idx = nameToIdx.size();
     nameToIdx[name] = idx;
     names.push_back(name);
     counts.push_back(0);
-- 
2.43.0


From 36f3fca246e4388e840814aa7cfcdf21cff2891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:06 +0000
Subject: [PATCH 23/39] fix: local split must see the edges between local
 vertices on every rank

---
 partition/Multilevel/engpar_parmetis.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/partition/Multilevel/engpar_parmetis.cpp b/partition/Multilevel/engpar_parmetis.cpp
index 0a573bd..31035a9 100644
--- a/partition/Multilevel/engpar_parmetis.cpp
+++ b/partition/Multilevel/engpar_parmetis.cpp
@@ -61,7 +61,8 @@ namespace engpar {
           if (other==vtx)
             continue;
           agi::part_t owner = g->owner(other);
-          if (!isLocal || owner ==input->self)
+          //owner(other) depends on the communicator in use, local ids do not
+          if (!isLocal || g->localID(other) < g->numLocalVtxs())
             neighbors[other]=1;
           if (!isLocal)
             res.insert(owner);
@@ -112,8 +113,8 @@ namespace engpar {
       g->destroy(gitr);
       for (VertexSet::iterator vsItr = neighbors.begin(); vsItr != neighbors.end(); vsItr++) {
         agi::GraphVertex* other = vsItr->first;
-        if (g->owner(other)==input->self) {
-          agi::lid_t lidv = g->localID(other);
+        agi::lid_t lidv = g->localID(other);
+        if (lidv < g->numLocalVtxs()) {
           adjncy[deg] = gids[lidv]; 
           ewgts[deg++] = vsItr->second;
         }
-- 
2.43.0


From 7027a28032d6786c98ab1fa596e3f7170244f8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:53 +0000
Subject: [PATCH 24/39] fix: weight balancing closed a log entry it never
 opened

---
 partition/Diffusive/src/engpar_weightBalancer.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/partition/Diffusive/src/engpar_weightBalancer.cpp b/partition/Diffusive/src/engpar_weightBalancer.cpp
index 5a7cf9e..d744a77 100644
--- a/partition/Diffusive/src/engpar_weightBalancer.cpp
+++ b/partition/Diffusive/src/engpar_weightBalancer.cpp
@@ -214,8 +214,6 @@ namespace engpar {
       }
     }
     */
-    if (EnGPar_Is_Log_Open())
-      EnGPar_End_Function();
   }
 
   void balanceWeights(WeightInput* in, int v_) {
-- 
2.43.0


From ec0616f507103bd41fddf27e533bfa4153e9f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:53 +0000
Subject: [PATCH 25/39] fix: end the log entry of functions that return early

---
 agi/agiConstruct.cpp                        | 3 +++
 agi/agiVertex.cpp                           | 4 ++--
 partition/Diffusive/src/engpar_balancer.cpp | 2 ++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 51c49e6..41b55df 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -507,6 +507,9 @@ namespace agi {
     edge_unmap[t] = NULL;
     if (t==num_types-1)
       num_types--;
+    if (EnGPar_Is_Log_Open()) {
+      EnGPar_End_Function();
+    }
   }
   
   void Ngraph::destroyData() {
diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index 55ed6ef..015f237 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -80,13 +80,13 @@ part_t Ngraph::originalOwner(GraphVertex* vtx) const {
 }
 
 void Ngraph::setOriginalOwners() {
+  if (original_owners)
+    return;
   if (EnGPar_Is_Log_Open()) {
     char message[25];
     sprintf(message,"setOriginalOwners\n");
     EnGPar_Log_Function(message);
   }
-  if (original_owners)
-    return;
   original_owners = new part_t[num_local_verts];
   for (lid_t i=0;i<num_local_verts;i++)
     original_owners[i]=PCU_Comm_Self();
diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index 3575bd9..3455028 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -221,6 +221,8 @@ namespace engpar {
     }
     if (1 == PCU_Comm_Peers()) {
       EnGPar_Warning_Message("ran in serial, nothing to do exiting...\n");
+      if (EnGPar_Is_Log_Open())
+        EnGPar_End_Function();
       return;
     }
 
-- 
2.43.0


From 15ec8be376342781eb5e2c36ff09e5b81a2087ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:30 +0000
Subject: [PATCH 26/39] fix: the log lost the text that sprintf was given to
 print over itself

---
 agi/agiConstruct.cpp                        | 21 +++------
 partition/Diffusive/src/engpar_balancer.cpp | 49 ++++++++++++---------
 2 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 41b55df..1cbe24f 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -50,11 +50,8 @@ namespace agi {
                               std::unordered_map<gid_t,part_t>& owns) {
     if (EnGPar_Is_Log_Open()) {
       char message[45];
-      sprintf(message,"constructGraph: ");
-      if (isHG)
-        sprintf(message,"%sCreating hypergraph\n",message);
-      else
-        sprintf(message,"%sCreating traditional graph\n",message);
+      sprintf(message,"constructGraph: Creating %s\n",
+              isHG ? "hypergraph" : "traditional graph");
       EnGPar_Log_Function(message);
     }
 
@@ -72,11 +69,8 @@ namespace agi {
                               std::vector<wgt_t>& wgts) {
     if (EnGPar_Is_Log_Open()) {
       char message[45];
-      sprintf(message,"constructVerts: ");
-      if (isHG)
-        sprintf(message,"%sCreating hypergraph\n",message);
-      else
-        sprintf(message,"%sCreating traditional graph\n",message);
+      sprintf(message,"constructVerts: Creating %s\n",
+              isHG ? "hypergraph" : "traditional graph");
       EnGPar_Log_Function(message);
     }
     destroyData();
@@ -107,11 +101,8 @@ namespace agi {
                               gid_t* verts, wgt_t* wgts) {
     if (EnGPar_Is_Log_Open()) {
       char message[45];
-      sprintf(message,"constructVerts: ");
-      if (isHG)
-        sprintf(message,"%sCreating hypergraph\n",message);
-      else
-        sprintf(message,"%sCreating traditional graph\n",message);
+      sprintf(message,"constructVerts: Creating %s\n",
+              isHG ? "hypergraph" : "traditional graph");
       EnGPar_Log_Function(message);
     }
     destroyData();
diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index 3455028..58a38bb 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -195,29 +195,38 @@ namespace engpar {
   void Balancer::balance() {
     DiffusiveInput* inp = dynamic_cast<DiffusiveInput*>(input);
     if (EnGPar_Is_Log_Open()) {
-      char message[1000];
-      sprintf(message,"balance() : \n");
+      //sprintf must not be given its own destination as an argument
+      char buffer[80];
+      std::string message("balance() : \n");
       //Log the input parameters
-      sprintf(message,"%s priorities :",message);
-      for (unsigned int i=0;i<inp->priorities.size();i++)
-        sprintf(message,"%s %d",message,inp->priorities[i]);
-      sprintf(message,"%s\n",message);
+      message += " priorities :";
+      for (unsigned int i=0;i<inp->priorities.size();i++) {
+        sprintf(buffer," %d",inp->priorities[i]);
+        message += buffer;
+      }
+      message += "\n";
       if (inp->tolerances.size()>0) {
-        sprintf(message,"%s tolerances :",message);
-        for (unsigned int i=0;i<inp->tolerances.size();i++)
-          sprintf(message,"%s %f",message,inp->tolerances[i]);
-        sprintf(message,"%s\n",message);
+        message += " tolerances :";
+        for (unsigned int i=0;i<inp->tolerances.size();i++) {
+          snprintf(buffer,80," %f",inp->tolerances[i]);
+          message += buffer;
+        }
+        message += "\n";
       }
-      sprintf(message,"%s maxIterations : %d\n",message,inp->maxIterations);
-      sprintf(message,"%s maxIterationsPerType : %d\n",
-              message,inp->maxIterationsPerType);
-      sprintf(message,"%s step_factor : %f\n",message,inp->step_factor);
-      sprintf(message,"%s sides_edge_type : %d\n",message,inp->sides_edge_type);
-      sprintf(message,"%s selection_edge_type : %d\n",
-              message,inp->selection_edge_type);
-      sprintf(message,"%s countGhosts : %d\n",message,inp->countGhosts);
-      
-      EnGPar_Log_Function(message);
+      sprintf(buffer," maxIterations : %d\n",inp->maxIterations);
+      message += buffer;
+      sprintf(buffer," maxIterationsPerType : %d\n",inp->maxIterationsPerType);
+      message += buffer;
+      snprintf(buffer,80," step_factor : %f\n",inp->step_factor);
+      message += buffer;
+      sprintf(buffer," sides_edge_type : %d\n",inp->sides_edge_type);
+      message += buffer;
+      sprintf(buffer," selection_edge_type : %d\n",inp->selection_edge_type);
+      message += buffer;
+      sprintf(buffer," countGhosts : %d\n",inp->countGhosts);
+      message += buffer;
+
+      EnGPar_Log_Function(&message[0]);
     }
     if (1 == PCU_Comm_Peers()) {
       EnGPar_Warning_Message("ran in serial, nothing to do exiting...\n");
-- 
2.43.0


From 3b0e7a43955b0f31095a45add3002fe67644a676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:38 +0000
Subject: [PATCH 27/39] fix: second adjacencies of every edge type were built
 from edge type 0

---
 agi/agiConstruct.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 1cbe24f..10aeddc 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -629,7 +629,7 @@ namespace agi {
     while ((v = iterate(vitr))) {
       int count = 0;
       std::unordered_set<GraphVertex*> unique_adj;
-      GraphIterator* gitr = adjacent(v);
+      GraphIterator* gitr = adjacent(v,t);
       GraphVertex* other;
       while ((other = iterate(gitr))) {
         count++;
@@ -650,7 +650,7 @@ namespace agi {
     //Populate the adjacency list by repeating the operation
     while ((v = iterate(vitr))) {
       std::unordered_set<GraphVertex*> unique_adj;
-      GraphIterator* gitr = adjacent(v);
+      GraphIterator* gitr = adjacent(v,t);
       GraphVertex* other;
       while ((other = iterate(gitr))) {
         if (compress)
@@ -688,7 +688,7 @@ namespace agi {
         if (owner(v)!=PCU_Comm_Self())
           continue;
         GraphEdge* other;
-        EdgeIterator* eitr2 = edges(v);
+        EdgeIterator* eitr2 = edges(v,t);
         while ((other = iterate(eitr2))) {
           count++;
           unique_adj.insert(other);
@@ -717,7 +717,7 @@ namespace agi {
         if (owner(v)!=PCU_Comm_Self())
           continue;
         GraphEdge* other;
-        EdgeIterator* eitr2 = edges(v);
+        EdgeIterator* eitr2 = edges(v,t);
         while ((other = iterate(eitr2))) {
           if (compress)
             unique_adj.insert(other);
-- 
2.43.0


From fda9f319b32c8f8687b0d2fd820b6923bca8298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 28/39] fix: after removing an edge type other than the last,
 using or migrating the graph crashed

---
 agi/agiConstruct.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 10aeddc..647a392 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -498,6 +498,12 @@ namespace agi {
     edge_unmap[t] = NULL;
     if (t==num_types-1)
       num_types--;
+    else {
+      //The type stays in the graph without edges, every vertex has degree 0
+      degree_list[t] = new lid_t[num_local_verts+1];
+      for (lid_t i=0;i<num_local_verts+1;i++)
+        degree_list[t][i] = 0;
+    }
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
     }
-- 
2.43.0


From 65eb33b7893056c37ff864a2403f7520c3c67fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:48 +0000
Subject: [PATCH 29/39] fix: iterating second adjacencies forgot the edge type
 after the first entry

---
 agi/agiIterate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agi/agiIterate.cpp b/agi/agiIterate.cpp
index e6c5d84..52c3201 100644
--- a/agi/agiIterate.cpp
+++ b/agi/agiIterate.cpp
@@ -52,7 +52,7 @@ namespace agi {
     else
       index = vev_lists[type][id];
     id*=num_types;
-    id+=num_types;
+    id+=num_types+type;
     vevItr = reinterpret_cast<VEVIterator*>(toPtr(id+1));
     return reinterpret_cast<GraphVertex*>(toPtr(index+1));
   }
@@ -122,7 +122,7 @@ namespace agi {
     else
       index = eve_lists[type][id]*num_types+type;
     id*=num_types;
-    id+=num_types;
+    id+=num_types+type;
     eveItr = reinterpret_cast<EVEIterator*>(toPtr(id+1));
     return reinterpret_cast<GraphEdge*>(toPtr(index+1));
   }
-- 
2.43.0


From 4fabf09f23726065b1044138e7990357945f6fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:08 +0000
Subject: [PATCH 30/39] fix: VTK files of traditional graphs had edges to
 points that were not written

---
 agi/agiVTK.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/agi/agiVTK.cpp b/agi/agiVTK.cpp
index f0de133..776542e 100644
--- a/agi/agiVTK.cpp
+++ b/agi/agiVTK.cpp
@@ -82,6 +82,11 @@ namespace agi {
       }
       g->destroy(eitr);
     }
+    else {
+      //The cut edges of a traditional graph end at ghost vertices
+      for (lid_t i=0;i<g->numGhostVtxs();i++)
+        fprintf(f," %f %f %f\n",ghost_cs[i][0],ghost_cs[i][1],ghost_cs[i][2]);
+    }
     fprintf(f,"\n</DataArray>\n</Points>\n");
     delete [] ghost_cs;
   }
@@ -169,6 +174,12 @@ namespace agi {
       }
       g->destroy(eitr);
     }
+    else {
+      agi::GraphVertex* ghost;
+      agi::GhostIterator* gitr = g->beginGhosts();
+      while ((ghost = g->iterate(gitr)))
+        fprintf(f,"%d\n",g->owner(ghost));
+    }
     fprintf(f,"</DataArray>\n");
 
     if (g->isHyper()) {
@@ -206,6 +217,10 @@ namespace agi {
         }
         g->destroy(eitr);
       }
+      else {
+        for (lid_t i=0;i<g->numGhostVtxs();i++)
+          fprintf(f,"-1\n");
+      }
       fprintf(f,"</DataArray>\n");
     }
     fprintf(f,"</PointData>\n");
@@ -276,6 +291,8 @@ namespace agi {
     lid_t numPoints = g->numLocalVtxs();
     if (g->isHyper())
       numPoints+= g->numLocalEdges();
+    else
+      numPoints+= g->numGhostVtxs();
     fprintf(f,"<Piece NumberOfPoints=\"%d\" NumberOfCells=\"%ld\">\n",
             numPoints,numCells);
     writePoints(g,f);
-- 
2.43.0


From 8047e9bebac28da071f05442cc0e07f138fede30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:41 +0000
Subject: [PATCH 31/39] fix: diffusion ran one step more than its iteration
 limits allow

---
 partition/Diffusive/src/engpar_balancer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index 58a38bb..29b0195 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -287,9 +287,12 @@ namespace engpar {
         EnGPar_Status_Message("Side Tolerance is: %f\n", sideTol);
 
       //Run diffusion
-      int rc;
-      while ((rc = runStep(tol)) == 0 && inner_steps++ < inp->maxIterationsPerType &&
-             step++ < inp->maxIterations);
+      int rc = 0;
+      while (inner_steps < inp->maxIterationsPerType && step < inp->maxIterations &&
+             (rc = runStep(tol)) == 0) {
+        inner_steps++;
+        step++;
+      }
 
       //Keep track of completed dimension for trim/cancel
       completed_dimensions.push_back(target_dimension);
-- 
2.43.0


From 815890ea1f691512a77f4666d5c3602846f307c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:30 +0000
Subject: [PATCH 32/39] fix: isCut and setCoords lost memory on every call

isCut destroyed its pin iterator only for cut edges, and setCoords dropped
the coordinates set before.
---
 agi/agiEdge.cpp   | 1 +
 agi/agiVertex.cpp | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/agi/agiEdge.cpp b/agi/agiEdge.cpp
index 1eb3f14..295ff8b 100644
--- a/agi/agiEdge.cpp
+++ b/agi/agiEdge.cpp
@@ -50,6 +50,7 @@ namespace agi {
 	return true;
       }
     }
+    destroy(pitr);
     return false;
   }
 
diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index 015f237..0f8a171 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -37,7 +37,8 @@ bool Ngraph::hasCoords() const {
 }
 
 void Ngraph::setCoords(coord_t* cs) {
-  local_coords = new coord_t[num_local_verts];
+  if (!local_coords)
+    local_coords = new coord_t[num_local_verts];
   for (lid_t i=0;i<num_local_verts;i++)
     for (int j=0;j<3;j++)
       local_coords[i][j] = cs[i][j];
-- 
2.43.0


From ca98b949f3be1388f749bd43236e67fe859113ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:00 +0000
Subject: [PATCH 33/39] fix: Zoltan was given ghost owners numbered in the
 small communicator

---
 partition/Multilevel/engpar_split.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/partition/Multilevel/engpar_split.cpp b/partition/Multilevel/engpar_split.cpp
index 969bf04..fac3e64 100644
--- a/partition/Multilevel/engpar_split.cpp
+++ b/partition/Multilevel/engpar_split.cpp
@@ -29,6 +29,9 @@ namespace engpar {
     agi::Migration* plan = NULL;
     inp->self = PCU_Comm_Self();
     if (method == ZOLTAN_PHG) {
+      //Zoltan runs on the large communicator and asks for the owners of ghosts
+      if (inp->isOriginal)
+        expandParts(inp->g,inp->largeComm);
       PCU_Switch_Comm(inp->largeComm);
       plan = EnGPar_Zoltan(inp,inp->total_parts,false);
       PCU_Switch_Comm(inp->smallComm);
@@ -49,7 +52,8 @@ namespace engpar {
         }
         PCU_Switch_Comm(inp->smallComm);
       }
-      expandParts(inp->g,inp->largeComm);
+      if (method != ZOLTAN_PHG)
+        expandParts(inp->g,inp->largeComm);
     }
     else {
       if (plan)
-- 
2.43.0


From c3a8e3ca24a60c9ca2fdab9a61c5f280ae92059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:07 +0000
Subject: [PATCH 34/39] fix: the graph for finite elements reported too many
 global edges

---
 interfaces/dofGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/dofGraph.cpp b/interfaces/dofGraph.cpp
index 0430e3b..5d42ef9 100644
--- a/interfaces/dofGraph.cpp
+++ b/interfaces/dofGraph.cpp
@@ -46,7 +46,7 @@ namespace agi {
         num_local_edges[type] += m->count(d);
         gid_t owned_count = countOwned(m,d);
         gid_t global_count = PCU_Add_Long(owned_count);
-        num_global_edges[type] += PCU_Add_Long(global_count);
+        num_global_edges[type] += global_count;
         offset_global_edges[d+1] = num_global_edges[type];
       }
     }
-- 
2.43.0


From 9d4f59e4aa32c50ea651c13bc36290c969111044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:07 +0000
Subject: [PATCH 35/39] fix: edges of different dimensions could get one global
 id

---
 interfaces/dofGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/dofGraph.cpp b/interfaces/dofGraph.cpp
index 5d42ef9..07161db 100644
--- a/interfaces/dofGraph.cpp
+++ b/interfaces/dofGraph.cpp
@@ -75,7 +75,7 @@ namespace agi {
         apf::MeshIterator* mitr = m->begin(d);
         while ((ent = m->iterate(mitr)) != NULL) {
           long num = apf::getNumber(edge_nums[d], ent, 0);
-          num += offset_global_edges[d+1];
+          num += offset_global_edges[d];
           gids[num] = d;
           apf::number(edge_nums[d], ent, 0, num);
           setEdge(lid++, num, numDOFs(d), type);
-- 
2.43.0


From cd66a1dad4f0146b0ff8a158cf5f23a353ea7262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:07 +0000
Subject: [PATCH 36/39] fix: making a graph of a mesh lost or overflowed its
 line in the log

---
 interfaces/apfGraph.cpp | 10 +++++-----
 interfaces/dofGraph.cpp |  7 +++----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/interfaces/apfGraph.cpp b/interfaces/apfGraph.cpp
index 2d76cfe..b85d229 100644
--- a/interfaces/apfGraph.cpp
+++ b/interfaces/apfGraph.cpp
@@ -24,12 +24,12 @@ Ngraph* createAPFGraph(apf::Mesh* m, const char* name, int primary_dimension,
 Ngraph* createAPFGraph(apf::Mesh* m, const char* name, int primary_dimension,
                        int* secondary_dimensions,int num_dimensions) {
   if (EnGPar_Is_Log_Open()) {
-    char message[50];
-    sprintf(message,"createAPFGraph %d with edges",primary_dimension);
+    std::string message = "createAPFGraph " + std::to_string(primary_dimension)
+      + " with edges ";
     for (int i=0;i<num_dimensions;i++)
-      sprintf(message,"%s%d ",message,secondary_dimensions[i]);
-    sprintf(message,"%s\n",message);
-    EnGPar_Log_Function(message);
+      message += std::to_string(secondary_dimensions[i]) + " ";
+    message += "\n";
+    EnGPar_Log_Function(&message[0]);
     EnGPar_End_Function();
   }
 
diff --git a/interfaces/dofGraph.cpp b/interfaces/dofGraph.cpp
index 07161db..07b9b43 100644
--- a/interfaces/dofGraph.cpp
+++ b/interfaces/dofGraph.cpp
@@ -10,10 +10,9 @@ namespace agi {
 
   Ngraph* createSerendipityGraph(apf::Mesh* m, const char* name, int order) {
     if (EnGPar_Is_Log_Open()) {
-      char message[50];
-      sprintf(message,"createSerendipityGraph %s with order %d\n",
-              name, order);
-      EnGPar_Log_Function(message);
+      std::string message = std::string("createSerendipityGraph ") + name
+        + " with order " + std::to_string(order) + "\n";
+      EnGPar_Log_Function(&message[0]);
       EnGPar_End_Function();
     }
 
-- 
2.43.0


From d1b1332645026fde2937f82e9ab5447dc95f649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 37/39] fix: EnGPar_Finalize freed PCU when its user had
 initialised it

handlingPCU stayed set after the first session in which EnGPar_Initialize
initialised PCU itself, so a later session inside an application that had
initialised PCU ended with the application's PCU freed.
---
 support/engpar_support.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/support/engpar_support.cpp b/support/engpar_support.cpp
index d309b21..bcd77e4 100644
--- a/support/engpar_support.cpp
+++ b/support/engpar_support.cpp
@@ -21,6 +21,7 @@ void EnGPar_Finalize() {
   EnGPar_Close_Log();
   if (handlingPCU &&PCU_Comm_Initialized())
     PCU_Comm_Free();
+  handlingPCU=false;
 }
 
 void EnGPar_Switch_Comm(MPI_Comm comm) {
-- 
2.43.0


From 1ec1f5c998438fe9d9a10fa495353e879fe6a2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:52 +0000
Subject: [PATCH 38/39] fix: file names of 256 characters or more overflowed
 buffers in save, load, VTK and log

---
 agi/agiIO.cpp           | 15 +++++++++------
 agi/agiVTK.cpp          | 19 ++++++++-----------
 interfaces/binGraph.cpp |  5 ++---
 3 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/agi/agiIO.cpp b/agi/agiIO.cpp
index 52d0310..7a807f8 100644
--- a/agi/agiIO.cpp
+++ b/agi/agiIO.cpp
@@ -3,6 +3,7 @@
 #include <stdio.h>
 #include <PCU.h>
 #include <cstring>
+#include <string>
 #include <sys/stat.h>
 #include <pcu_io.h>
 namespace agi {
@@ -124,10 +125,10 @@ namespace agi {
   //Recursive mkdir function modified from here:
   //http://nion.modprobe.de/blog/archives/357-Recursive-directory-creation.html
   void mkdir_r(const char *dir) {
-    char tmp[256];
+    std::string copy(dir);
+    char *tmp = &copy[0];
     char *p = NULL;
     size_t len;
-    snprintf(tmp, sizeof(tmp),"%s",dir);
     len = strlen(tmp);
     if(tmp[len - 1] == '/')
       tmp[len - 1] = 0;
@@ -139,8 +140,9 @@ namespace agi {
       }
   }
   void Ngraph::saveToFile(const char* prefix) {
-    char filename[256];
-    sprintf(filename,"%s_%d.bgd",prefix,PCU_Comm_Self());
+    std::string name = std::string(prefix) + "_"
+      + std::to_string(PCU_Comm_Self()) + ".bgd";
+    const char* filename = name.c_str();
     mkdir_r(filename);
     struct pcu_file* file = pcu_fopen(filename,true,false);
     if (!file) {
@@ -223,8 +225,9 @@ namespace agi {
   }
 
   void Ngraph::loadFromFile(const char* prefix) {
-    char filename[256];
-    sprintf(filename,"%s_%d.bgd",prefix,PCU_Comm_Self());
+    std::string name = std::string(prefix) + "_"
+      + std::to_string(PCU_Comm_Self()) + ".bgd";
+    const char* filename = name.c_str();
     struct pcu_file* file = pcu_fopen(filename,false,false);
     if (!file) {
       EnGPar_Error_Message("Could not open file for loading: %s#.bgd",prefix);
diff --git a/agi/agiVTK.cpp b/agi/agiVTK.cpp
index 776542e..b31af29 100644
--- a/agi/agiVTK.cpp
+++ b/agi/agiVTK.cpp
@@ -1,6 +1,7 @@
 #include "ngraph.h"
 #include <PCU.h>
 #include "agi.h"
+#include <string>
 namespace agi {
 
   void writePoints(Ngraph* g,FILE* f) {
@@ -264,11 +265,8 @@ namespace agi {
   }
 
   void writePSources(FILE* pf, const char* prefix) {
-    char filename[256];
-    for (int i=0;i<PCU_Comm_Peers();i++) {
-      sprintf(filename,"%s%d.vtu",prefix,i);
-      fprintf(pf,"<Piece Source=\"%s\"/>\n",filename);
-    }
+    for (int i=0;i<PCU_Comm_Peers();i++)
+      fprintf(pf,"<Piece Source=\"%s%d.vtu\"/>\n",prefix,i);
   }
   
   void writePVTU(FILE* pf,const char* prefix, agi::Ngraph* g, GraphTag* tag, etype t) {
@@ -282,9 +280,9 @@ namespace agi {
 
   }
   void writeVTK(Ngraph* g, const char* prefix,GraphTag* tag,etype t) {
-    char filename[256];
-    sprintf(filename,"%s%d.vtu",prefix,PCU_Comm_Self());
-    FILE* f = fopen(filename,"w");
+    std::string filename = std::string(prefix)
+      + std::to_string(PCU_Comm_Self()) + ".vtu";
+    FILE* f = fopen(filename.c_str(),"w");
     fprintf(f,"<VTKFile type=\"UnstructuredGrid\">\n");
     fprintf(f,"<UnstructuredGrid>\n");
     gid_t numCells = getNumCells(g);
@@ -304,9 +302,8 @@ namespace agi {
     fclose(f);
 
     if (!PCU_Comm_Self()) {
-      char pfilename[256];
-      sprintf(pfilename,"%s.pvtu",prefix);
-      FILE* pf = fopen(pfilename,"w");
+      std::string pfilename = std::string(prefix) + ".pvtu";
+      FILE* pf = fopen(pfilename.c_str(),"w");
       writePVTU(pf,prefix,g,tag,t);
       fclose(pf);
     }
diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index 1ae44c2..5cc87c3 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -16,9 +16,8 @@ namespace agi {
 
 Ngraph* createBinGraph(char* graph_file,char* part_file) {
   if (EnGPar_Is_Log_Open()) {
-    char message[256];
-    sprintf(message,"createBinGraph %s\n",graph_file);
-    EnGPar_Log_Function(message);
+    std::string message = std::string("createBinGraph ") + graph_file + "\n";
+    EnGPar_Log_Function(&message[0]);
     EnGPar_End_Function();
   }
 
-- 
2.43.0


From c49e0e14c43d67710df07902e193154776f32523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:52 +0000
Subject: [PATCH 39/39] fix: printStats overflowed its line with many edge
 types or large counts

---
 agi/agiConstruct.cpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 647a392..0932abb 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -1,6 +1,7 @@
 #include "ngraph.h"
 #include "engpar_support.h"
 #include <cstring>
+#include <string>
 #include <stdexcept>
 namespace agi {
 
@@ -596,22 +597,17 @@ namespace agi {
     else
       EnGPar_Status_Message("N-graph Status\n");
     EnGPar_Status_Message("Vertices: %ld\n", numGlobalVtxs());
-    char edges[100];
-    int n = sprintf(edges,"Edges: ");
-    char* temp = edges + n;
-    for (etype t = 0; t < numEdgeTypes(); t++) {
-      n = sprintf(temp,"Type %d: %ld ",t,numGlobalEdges(t));
-      temp+=n;
-    }
-    EnGPar_Status_Message("%s\n",edges);
+    std::string edges("Edges: ");
+    for (etype t = 0; t < numEdgeTypes(); t++)
+      edges += "Type " + std::to_string(t) + ": "
+        + std::to_string(numGlobalEdges(t)) + " ";
+    EnGPar_Status_Message("%s\n",edges.c_str());
     if (isHyperGraph) {
-      int n = sprintf(edges,"Pins: ");
-      char* temp = edges + n;
-      for (etype t = 0; t < numEdgeTypes(); t++) {
-        n = sprintf(temp,"Type %d: %ld ",t,numGlobalPins(t));
-        temp+=n;
-      }
-      EnGPar_Status_Message("%s\n",edges);
+      edges = "Pins: ";
+      for (etype t = 0; t < numEdgeTypes(); t++)
+        edges += "Type " + std::to_string(t) + ": "
+          + std::to_string(numGlobalPins(t)) + " ";
+      EnGPar_Status_Message("%s\n",edges.c_str());
     }
   }
   void Ngraph::makeUndirectedGraph() {
-- 
2.43.0

