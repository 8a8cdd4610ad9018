From 52b3b3e7403182ba8fd77b3a86b1253ee41432e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:33 +0000
Subject: [PATCH 01/68] fix: size the module array of a partition by the number
 of modules

---
 src/partition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partition.c b/src/partition.c
index 5fd82e1..26e0f7c 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -53,7 +53,7 @@ CreatePartition(unsigned int N, unsigned int M){
   part->M = M;
   part->nempty = M;
   part->nodes = (Node **) malloc(N*sizeof(Node*));
-  part->modules = (Module **) malloc(N*sizeof(Module*));
+  part->modules = (Module **) malloc(M*sizeof(Module*));
   if (part->nodes==NULL || part->modules == NULL)
 	perror("Error while allocating partition component");
 
-- 
2.43.0


From 7f1b4940c64d5e6397b7aa312292637196dc49e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:57 +0000
Subject: [PATCH 02/68] fix: list a self-edge at both of its ends in the
 adjacency array

---
 src/fillpartitions.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/fillpartitions.c b/src/fillpartitions.c
index 34700a4..01d32e5 100644
--- a/src/fillpartitions.c
+++ b/src/fillpartitions.c
@@ -72,19 +72,18 @@ EdgeListToAdjaArray(int *nd_in, int *nd_out, double *weight,
   // decremented each time).
   int idx_in, idx_out;
   for (i=0;i<E;i++){
-  	// Get the positions to fill.
+  	// Get the positions to fill, updating the counters to fill the
+  	// next position correctly (a self-edge fills two positions).
   	idx_in  = adj->idx[nd_in[i]+1]-degree[nd_in[i]];
+  	degree[nd_in[i]]--;
   	idx_out = adj->idx[nd_out[i]+1]-degree[nd_out[i]];
+  	degree[nd_out[i]]--;
 
   	// Fill them with target and strength.
   	adj->neighbors[idx_in] = nd_out[i];
     adj->strength[idx_in] = weight[i]/weightsum;
   	adj->neighbors[idx_out] = nd_in[i];
   	adj->strength[idx_out] = weight[i]/weightsum;
-
-  	// Update the counter to fill the next position correctly.
-  	degree[nd_in[i]]--;
-  	degree[nd_out[i]]--;
   }
 
   // int k;
-- 
2.43.0


From c9e032c0ede122bdc1869df5586b8a06de3f2593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:57 +0000
Subject: [PATCH 03/68] fix: do not count a self-edge in the modularity change
 of a move

---
 src/movements.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/movements.c b/src/movements.c
index d04a07e..ccf8da3 100644
--- a/src/movements.c
+++ b/src/movements.c
@@ -30,6 +30,8 @@ double dEChangeModule(unsigned int nodeid,
   // old and new group.
   for (i=adj->idx[nodeid]; i<adj->idx[nodeid+1]; i++){
 	int j = adj->neighbors[i]; // The index of the neighbor.
+	if (j == nodeid)
+	  continue; // A self-edge moves along with its node.
 	if (part->nodes[j]->module == old)
 	  dE -= adj->strength[i]; // - k_(i,G)
 	else if (part->nodes[j]->module == newModuleid)
-- 
2.43.0


From c8f05ffbe271aa5a141542f7665b0e6ba26badbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:57 +0000
Subject: [PATCH 04/68] fix: count every repeated edge in the modularity

---
 src/partition.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/partition.c b/src/partition.c
index 26e0f7c..a04b17f 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -264,8 +264,7 @@ PartitionModularity(Partition *part, AdjaArray *adj, int diagonal_term){
 		aij = 0;
 		for (i=adj->idx[node1->id]; i<adj->idx[node1->id+1]; i++){
 		  if (adj->neighbors[i] == node2->id){
-			aij = adj->strength[i];
-			break; // found the edge, we can stop.
+			aij += adj->strength[i]; // repeated edges add up.
 		  }
 		}
 
-- 
2.43.0


From 3736304b64c27739007918767c43510c7316bc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:57 +0000
Subject: [PATCH 05/68] fix: split a module by the components of what it
 contains

---
 src/movements.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/movements.c b/src/movements.c
index ccf8da3..7f02d13 100644
--- a/src/movements.c
+++ b/src/movements.c
@@ -273,7 +273,8 @@ SplitModuleByComponent(unsigned int targetModuleId,
 		for (i=adj->idx[j];i<adj->idx[j+1];i++){
 		  k = adj->neighbors[i]; // The index of the neighbor.
 
-		  if(!visited[k]){
+		  // Paths outside the module do not connect its nodes.
+		  if(!visited[k] && part->nodes[k]->module == targetModuleId){
 			visited[k] = 1;
 			// Add the node to the queue of nodes to visit.
 			AddToStack(k,to_visit);
-- 
2.43.0


From 58fac267cf6489590848f99855c944de5e536b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:57 +0000
Subject: [PATCH 06/68] fix: annealing returns the best partition even if it
 was found in a round without changes

---
 src/sannealing.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/sannealing.c b/src/sannealing.c
index 8ed7d9d..f02a3e1 100644
--- a/src/sannealing.c
+++ b/src/sannealing.c
@@ -49,7 +49,7 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
   unsigned int individual_movements, collective_movements;
   unsigned int target, oldg, newg, i, g1, g2, j, empty, ncomponent, err;
   double T = Ti;
-  unsigned int nochange_count=0;
+  unsigned int nochange_count=0, improved;
 
   double dE=0.0, E=0.0, previousE=0.0, best_E=-1.0/0.0;  //initial best is -infinity.
   info ("#Simulated annealing:\n");
@@ -187,6 +187,17 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 	  } // End of unless there is no empty group (=End of split).
 	} //End of collective movements
 
+	// Compare the current partition to the best partition so far and
+	// update it if needed.
+	improved = E > best_E;
+	if (improved) {
+	  info ("# Saving a new best partition (%e)\n",E);
+	  if (best_part!=NULL)
+		FreePartition(best_part);
+	  best_part = CopyPartitionStruct(part);
+	  best_E = E;
+	}
+
 	//// BREAK THE LOOP IF NO CHANGES... ////
 	if ( (fabs(E - previousE) / fabs(previousE) < EPSILON_MOD)
 		 || (fabs(previousE) < EPSILON_MOD) )
@@ -207,16 +218,8 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 		  part = CopyPartitionStruct(best_part);
 		}
 	  }
-	// Compare the current partition to the best partition so far and
-	// update it if needed.
-	else if ( E > best_E) {
-	  info ("# Saving a new best partition (%e)\n",E);
-	  if (best_part!=NULL)
-		FreePartition(best_part);
-	  best_part = CopyPartitionStruct(part);
-	  best_E = E;
+	else if (improved)
 	  nochange_count = 0;
-	}
    	// update the previous energy level.
 	previousE = E;
 
@@ -224,7 +227,11 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 
   info ("# End of SA, best partition so far: %e\n",best_E);
 
-  FreePartition(part);
+  // Without any temperature step there is nothing better than the start.
+  if (best_part == NULL)
+	best_part = part;
+  else
+	FreePartition(part);
   *ppart = best_part;
   return(0);
 }
-- 
2.43.0


From ef04a504f1d0353d068b1b54d1240ea98f3f24d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:16 +0000
Subject: [PATCH 07/68] fix: annealing of a partition with a single module ends

---
 src/sannealing.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sannealing.c b/src/sannealing.c
index f02a3e1..42f66a1 100644
--- a/src/sannealing.c
+++ b/src/sannealing.c
@@ -52,6 +52,10 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
   unsigned int nochange_count=0, improved;
 
   double dE=0.0, E=0.0, previousE=0.0, best_E=-1.0/0.0;  //initial best is -infinity.
+  // A single module can only be filled one way.
+  if (part->M < 2)
+	return(0);
+
   info ("#Simulated annealing:\n");
   explain ("#Ti: %f Tf: %f c: %f fac: %f\n",Ti,Tf,Ts,fac);
   explain ("#nochang_limit: %d, proba_components: %f \n",nochange_limit, proba_components);
-- 
2.43.0


From ba88fcb49c3d2842df77d4c81795f7eaa40b5fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:16 +0000
Subject: [PATCH 08/68] fix: compute participation coefficients from zero

---
 src/partition.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/partition.c b/src/partition.c
index a04b17f..a92cb35 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -221,6 +221,7 @@ PartitionRolesMetrics(Partition *part, AdjaArray *adj, double *connectivity, dou
 	  //it is not correct for bipartite network thanks to the
 	  //-epsilon.
 	  double strength = 0;
+	  participation[i] = 0;
 	  for (j=0;j<M;j++){
 		strength += strengthToModule[i+N*j];
 		participation[i] += strengthToModule[i+N*j]*strengthToModule[i+N*j];
-- 
2.43.0


From 2172431bfde7f033baa8bf20953255607ee5a672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:22 +0000
Subject: [PATCH 09/68] fix: do not read past the last edge, nor an unset
 strength, when projecting a bipartite edge list

---
 src/fillpartitions.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fillpartitions.c b/src/fillpartitions.c
index 01d32e5..efc049e 100644
--- a/src/fillpartitions.c
+++ b/src/fillpartitions.c
@@ -154,7 +154,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
 
   double fac1 = 0;
   double fac2 = 0;
-  double strength;
+  double strength = 0;
 
   // Count the degree of each node and assign a first data structure for the
   // projected network.
@@ -163,7 +163,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
     degree++; // degree of current team
     strength += ed[i].strength; // Strength of current team
     part->nodes[ed[i].node1]->strength += ed[i].strength; // degree of current actor
-    if (ed[i].node2 != ed[i+1].node2 || i == count-1) {
+    if (i == count-1 || ed[i].node2 != ed[i+1].node2) {
       Emax += (degree)*(degree-1) / 2;
       fac2 += strength;
       fac1 += strength * (strength-strength/degree);
@@ -181,7 +181,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   unsigned int j = 0, x, y, x0 = 0;
   for (i = 0; i <= count-1; i++) {
     degree++;
-    if (ed[i].node2 != ed[i+1].node2 || i == count-1) {
+    if (i == count-1 || ed[i].node2 != ed[i+1].node2) {
       for (x = x0; x < i+1; x++){
         for (y = x0; y < x; y++) {
           if (ed[x].node1 < ed[y].node1){
@@ -205,7 +205,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   E = j;
   unsigned int *degree_proj = calloc(N,sizeof(unsigned int));
   for (i = 0; i < j; i++) {
-    if (EdgeCompare(&projected[i],&projected[i+1]) != 0 || i == j-1) {
+    if (i == j-1 || EdgeCompare(&projected[i],&projected[i+1]) != 0) {
       degree_proj[projected[i].node1]++;
       degree_proj[projected[i].node2]++;
     }
@@ -230,7 +230,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   for (i = 0; i < j; i++) {
     adj->strength[idx[projected[i].node1]] += projected[i].strength;
     adj->strength[idx[projected[i].node2]] += projected[i].strength;
-    if (EdgeCompare(&projected[i],&projected[i+1]) != 0){
+    if (i == j-1 || EdgeCompare(&projected[i],&projected[i+1]) != 0){
       //printf("%d %d %f:\n",projected[i].node1,projected[i].node2,projected[i].strength);
       adj->neighbors[idx[projected[i].node1]] = projected[i].node2;
       adj->neighbors[idx[projected[i].node2]] = projected[i].node1;
-- 
2.43.0


From 81577f47c554a246bfbc024ec6496af0471bd2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:22 +0000
Subject: [PATCH 10/68] fix: keep the fraction of the weights of a weighted
 projection

---
 src/bipartite.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 8323fe4..ce7e3cd 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -610,7 +610,7 @@ ProjectBipartWeighted(struct binet *binet)
   struct node_gra *p1 = NULL, *p2 = NULL;
   void *dict = NULL;
   struct node_tree *ntree=NULL;
-  int weight;
+  double weight;
 
   /* Create the header of the projection network */
   last = projnet = CreateHeaderGraph();
@@ -631,14 +631,14 @@ ProjectBipartWeighted(struct binet *binet)
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
     while ((p2 = p2->next) != NULL) {
-	  weight = (double)SumProductsOfCommonWeightsBipart(p1,p2);
+	  weight = SumProductsOfCommonWeightsBipart(p1,p2);
       if (weight > 0) {
 	AddAdjacency(GetNodeDict(p1->label, dict),
 		     GetNodeDict(p2->label, dict),
-		     0, 0, (double)weight, 0);
+		     0, 0, weight, 0);
 	AddAdjacency(GetNodeDict(p2->label, dict),
 		     GetNodeDict(p1->label, dict),
-		     0, 0, (double)weight, 0);
+		     0, 0, weight, 0);
       }
     }
   }
-- 
2.43.0


From dd976f078923e3150c4f6024caf88533e7d7bfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:54 +0000
Subject: [PATCH 11/68] fix: rounding errors are no variation of the
 within-module strength

---
 src/partition.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/partition.c b/src/partition.c
index a92cb35..3de728e 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -197,8 +197,12 @@ PartitionRolesMetrics(Partition *part, AdjaArray *adj, double *connectivity, dou
 	mod = part->nodes[i]->module;
 	std[mod] += (strengthToModule[i+N*mod]-mean[mod]) * (strengthToModule[i+N*mod]-mean[mod]);
   }
-  for (j=0; j<M; j++)
+  for (j=0; j<M; j++){
 	std[j] = sqrt(std[j]/part->modules[j]->size);
+	// Rounding errors are not a variation.
+	if (std[j] <= 1e-10 * fabs(mean[j]))
+	  std[j] = 0;
+  }
 
   // Compute the z-score.
   for (i=0; i<N; i++){
-- 
2.43.0


From efc7c873b9b68f2040c16acd1ba1446a79bd8002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:16 +0000
Subject: [PATCH 12/68] fix: read back a partition printed by netcarto, module
 by module

---
 src/io.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/io.c b/src/io.c
index 8e0c0c5..fd52e68 100644
--- a/src/io.c
+++ b/src/io.c
@@ -244,13 +244,21 @@ ClusteringOutput(FILE *outf,
   }
 }
 
+/**
+Fill a partition from a file with the labels of the nodes of one
+module per line, separated by tabulations. Anything that is not the
+label of a node (e.g. the modularity in the output of netcarto) is
+ignored.
+
+@return The number of nodes missing from the file.
+**/
 int
 AssignNodesToModulesFromFile(FILE *inF,
 							 Partition *part,
 							 char **labels){
-  char label[MAX_LABEL_LENGTH];
-  char sep[2];
-  int j = 0, nfields = 0, nnode = part->N;
+  char *line = NULL, *label;
+  size_t bufsiz = 0;
+  int j = 0, found, nnode = part->N;
   hcreate(part->N);
   int i;
   ENTRY e, *ep;
@@ -261,13 +269,16 @@ AssignNodesToModulesFromFile(FILE *inF,
 	ep = hsearch(e, ENTER);
   }
 
-  while (!feof(inF)){
-	nfields=fscanf(inF,"%[^\t\n]%[\t\n]",&label,&sep);
-	if (nfields) {
+  while (getline(&line, &bufsiz, inF) != -1){
+	found = 0;
+	for (label = strtok(line,"\t\r\n"); label != NULL; label = strtok(NULL,"\t\r\n")) {
 	  e.key = label;
 	  ep = hsearch(e, FIND);
+	  if (ep == NULL)
+		continue;
 	  i = (int) ep->data;
 	  nnode--;
+	  found = 1;
 
 	  if (!part->modules[j]->size){
 		part->nempty --;
@@ -285,10 +296,12 @@ AssignNodesToModulesFromFile(FILE *inF,
 		part->nodes[i]->prev = part->modules[j]->last;
 		part->modules[j]->last = part->nodes[i];
 	  }
-	  if(sep[0]=='\n')
-		j++;
 	}
+	// The next line is another module.
+	if (found)
+	  j++;
   }
+  free(line);
 
   CompressPartition(part);
   hdestroy();
-- 
2.43.0


From 54c7529573d8a9083d0ef9cd8f834f882b4dcec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:16 +0000
Subject: [PATCH 13/68] fix: netcarto stops when its input cannot be read

---
 netcarto/main_netcarto.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/netcarto/main_netcarto.c b/netcarto/main_netcarto.c
index ddc2a7e..49b1f2c 100644
--- a/netcarto/main_netcarto.c
+++ b/netcarto/main_netcarto.c
@@ -169,6 +169,7 @@ main(int argc, char **argv)
 	err = EdgeListFileInput(inF, weighted, bipartite+invert,
 								 &nodes1, &nodes2, &weights, &labels,
 								 &E, &N);
+	if (err) return(1);
 	if (Ngroups==0) Ngroups=N;
 
 	if (!bipartite){
-- 
2.43.0


From ff9909d38d7d18cda00afced06d48aff795bae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:13 +0000
Subject: [PATCH 14/68] fix: IsThereNode compares labels, not the addresses of
 strings

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 7f63069..d771337 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -792,7 +792,7 @@ IsThereNode(char *label, struct node_gra *p)
 {
   
   while ((p = p->next) != NULL)
-    if (p->label == label)
+    if (strcmp(p->label, label) == 0)
       return 1;
 
   return 0;
-- 
2.43.0


From efbcabfa9e9a3c2af274e075633229ac6c11dbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:13 +0000
Subject: [PATCH 15/68] fix: the average squared degree is not truncated to an
 integer

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index d771337..37b50bd 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1433,7 +1433,7 @@ AverageSquaredDegree(struct node_gra *root)
     k2sum += k * k;
   }
 
-  return k2sum / nnod;
+  return (double)k2sum / (double)nnod;
 
 }
 
-- 
2.43.0


From e4a6585e9894fec33ab0152d90a3feb6fb9398b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:13 +0000
Subject: [PATCH 16/68] fix: square clustering of nodes without second
 neighbors in disconnected networks

---
 src/graph.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 37b50bd..ec25a4a 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1906,7 +1906,7 @@ SquareClustering(struct node_gra *root)
 
       k1 = k2 = 0;
       pl = (list->next)->next; // Pointer to the first neighbor
-      while(pl->d<2){
+      while(pl != NULL && pl->d<2){
 	pl = pl->next;
 	k1++;
       }   // count first neighbors and place the pointer at the first
@@ -1921,7 +1921,7 @@ SquareClustering(struct node_gra *root)
 	pl = pl->next;
       }
 
-      if(k1>1){
+      if(k1>1 && k2>0){
 	C_av += (double)(C_v)/(double)(k2*k1*(k1-1));
       }
       else
-- 
2.43.0


From 6b4eccf8a1472bb14cfe00f30482df4245c45f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:13 +0000
Subject: [PATCH 17/68] fix: GetAllConnectedSets keeps the links of every
 component

---
 src/graph.c | 35 +++++++++--------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index ec25a4a..db89254 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2842,25 +2842,6 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
 
 //Function to remove those links that go to other components
 ////It is necessary for the next function
-void ClearAdjacencies(struct node_gra *p,int *net)
-{
-  struct node_lis *nei,*temp;
-
-  while(p->next!=NULL){
-    p=p->next;
-    nei=p->neig;
-    while(nei->next!=NULL){
-      if(net[(nei->next)->node]==0){
-        temp=nei->next;
-        if(temp->next==NULL)  nei->next=NULL;
-        else  nei->next=temp->next;
-        free(temp);
-      }else{
-        nei=nei->next;
-      }
-    }
-  }
-}
 
 
 // Returns the number of connected components found. 
@@ -2882,12 +2863,12 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
   int d;
 
   int numComponents=0;
-  int MAX_SIZE_NET=10001;
 
-  selected=(int *)malloc(sizeof(int)*MAX_SIZE_NET);
-  thisNet=(int *)malloc(sizeof(int)*MAX_SIZE_NET);
+  numNodes=CountNodes(network);
+  selected=(int *)malloc(sizeof(int)*(numNodes+1));
+  thisNet=(int *)malloc(sizeof(int)*(numNodes+1));
 
-  for(i=0;i<MAX_SIZE_NET;i++)
+  for(i=0;i<numNodes;i++)
     selected[i]=0;
 
   network_cop=CopyNetwork(network);
@@ -2895,7 +2876,6 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
   res1=0;
   size=&res1;
 
-  numNodes=CountNodes(network);
   //printf("Network has %i nodes\nDetecting connected components\n",numNodes);
   list=CreateHeaderList();
 
@@ -2909,7 +2889,7 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
     selected[p->num]=1;
 
 
-    for(i=0;i<MAX_SIZE_NET;i++)
+    for(i=0;i<numNodes;i++)
       thisNet[i]=0;
     d=0;
 
@@ -2950,7 +2930,8 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
       d++;
     }while(*size!=sizeAnt);
 
-    ClearAdjacencies(network_loc,thisNet);
+    /* The copied adjacencies know their targets only by label */
+    CleanAdjacencies(network_loc);
     RewireAdjacencyByLabel(network_loc);
 
     net_list[numComponents]=network_loc;
@@ -2961,6 +2942,8 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
   }while(anod<numNodes);
 
   free(list);
+  free(selected);
+  free(thisNet);
   RemoveGraph(network_cop);
 
   return numComponents;
-- 
2.43.0


From 53eed5db078bb81c6be8cceff9d057b5613c5e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:13 +0000
Subject: [PATCH 18/68] fix: AddTwoNetworks adds up the weights of the links

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index db89254..577bbb2 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -3210,7 +3210,7 @@ AddTwoNetworks(struct node_gra *netA, struct node_gra *netB)
     while ((n = n->next) != NULL) {
       AddAdjacency(GetNodeDict(p->label, nodeDictSum),
 		   GetNodeDict(n->ref->label, nodeDictSum),
-		   1, 0, 1, 0);
+		   1, 1, n->weight, 0);
     }
   }
   FreeLabelDict(nodeDictSum);
-- 
2.43.0


From 9ef6ca691dd92812f44cac07b98724e82886a96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:13 +0000
Subject: [PATCH 19/68] fix: AddRandomLinks adds directed links to directed
 networks

---
 src/graph.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 577bbb2..b89588c 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -998,7 +998,8 @@ AddRandomLinks(struct node_gra *net,
       n2 = gsl_rng_uniform_int(gen, nnod);
     } while ((n1 == n2) || IsThereLink(nlist[n1], nlist[n2]) == 1);
     AddAdjacency(nlist[n1], nlist[n2], 0, 0, 1.0, 0);
-    AddAdjacency(nlist[n2], nlist[n1], 0, 0, 1.0, 0);
+    if (symmetric_sw != 0)
+      AddAdjacency(nlist[n2], nlist[n1], 0, 0, 1.0, 0);
   }
 
   /* Done */
-- 
2.43.0


From 1a0bb4859dde9d992a1b7a1e62303e3b5659b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:36 +0000
Subject: [PATCH 20/68] fix: networks are written with all the digits of their
 weights

---
 src/bipartite.c | 2 +-
 src/graph.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index ce7e3cd..1724c3b 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -825,7 +825,7 @@ FPrintBipart (FILE *outf, struct binet *binet, int weight_sw)
                 p->label, n->ref->label);
       else
         fprintf(outf,
-                "%s %s %g\n", 
+                "%s %s %.15g\n", 
                 p->label, n->ref->label, n->weight);
 
     }
diff --git a/src/graph.c b/src/graph.c
index b89588c..9610dab 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -653,7 +653,7 @@ FPrintNetAdjacencyList(FILE *outf,
       }
       else {
 	if (symmetric_sw == 0 || label_cmp <= 0) {
-	  fprintf(outf, "%s %s %g\n", 
+	  fprintf(outf, "%s %s %.15g\n", 
 		  p->label, n->ref->label, n->weight);
 	}
       }
-- 
2.43.0


From e2e6745720f7bed6eb55ab8ec6f2e0ddbf7d0d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:44 +0000
Subject: [PATCH 21/68] fix: weakly connected sets reached through later nodes
 are not split

---
 src/graph.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph.c b/src/graph.c
index 9610dab..9706ce3 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2805,6 +2805,8 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
 	  d++;
 	}while(*size != size_ant);
 
+	/* Nodes already passed over may point to the ones just added */
+	p3 = p;
       }
     }
 
-- 
2.43.0


From ab30e3d3e0b0f39b129e44fbb63f86a7dbaf76c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:44 +0000
Subject: [PATCH 22/68] fix: link betweenness weighs shortest paths equally

---
 src/graph.c | 58 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 9706ce3..600495a 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2047,6 +2047,30 @@ OneNodeSquareClustering(struct node_gra *node,
 }
 
 
+/*
+  ---------------------------------------------------------------------
+  Number of shortest paths from the first node of a BFS list to each of
+  the nodes in the list
+  ---------------------------------------------------------------------
+*/
+static void
+CountShortestPaths(struct node_bfs *list, double *npath)
+{
+  struct node_bfs *lp = list;
+  struct pred *ppre;
+
+  while ((lp = lp->next) != NULL) {
+    if (CountPredecessors(lp) == 0) {
+      npath[lp->ref->num] = 1.0;
+    }
+    else {
+      npath[lp->ref->num] = 0.0;
+      for (ppre = lp->pred; ppre != NULL; ppre = ppre->next)
+	npath[lp->ref->num] += npath[ppre->ref->ref->num];
+    }
+  }
+}
+
 /*
   ---------------------------------------------------------------------
   Calculates the betweenness of each link and stores in the btw field
@@ -2059,8 +2083,7 @@ CalculateLinkBetweenness(struct node_gra *root)
   int a,d,*size,i,counter,size_ant;
   struct node_gra *p = root;
   struct node_bfs *list,*lp;
-  double *bet_loc;
-  int n_pred;
+  double *bet_loc, *npath, share;
   struct pred *ppre;
   int *ocupacio;
   struct node_lis *tar,*temp;
@@ -2068,6 +2091,7 @@ CalculateLinkBetweenness(struct node_gra *root)
 
   ocupacio = allocate_i_vec(nnod);
   bet_loc = allocate_d_vec(nnod);
+  npath = allocate_d_vec(nnod);
 
   list = CreateHeaderList();
 
@@ -2110,22 +2134,24 @@ CalculateLinkBetweenness(struct node_gra *root)
       bet_loc[i] = (double)ocupacio[i];
     }
     
+    CountShortestPaths(list, npath);
     lp = list->last;
-    while((n_pred = CountPredecessors(lp)) != 0){
+    while(CountPredecessors(lp) != 0){
       ppre = lp->pred;
       while(ppre != NULL){
-	bet_loc[((ppre->ref)->ref)->num] +=
-	  bet_loc[(lp->ref)->num]/(double)n_pred;
+	share = bet_loc[(lp->ref)->num] *
+	  npath[((ppre->ref)->ref)->num] / npath[(lp->ref)->num];
+	bet_loc[((ppre->ref)->ref)->num] += share;
 	
 	tar = ((lp->ref)->neig)->next;
 	while((tar->node) != ((ppre->ref)->ref)->num)
 	  tar = tar->next;
-	tar->btw += bet_loc[(lp->ref)->num]/(double)n_pred;
+	tar->btw += share;
 
 	tar = (((ppre->ref)->ref)->neig)->next;
 	while((tar->node) != (lp->ref)->num)
 	  tar = tar->next;
-	tar->btw += bet_loc[(lp->ref)->num]/(double)n_pred;
+	tar->btw += share;
 
 	ppre = ppre->next;
       }
@@ -2137,6 +2163,7 @@ CalculateLinkBetweenness(struct node_gra *root)
   
   free_i_vec(ocupacio);
   free_d_vec(bet_loc);
+  free_d_vec(npath);
   free(list);
 }
 
@@ -2150,8 +2177,7 @@ CalculateBiggestLinkBetweenness(struct node_gra *root,int *n1,int *n2)
   int a,d,*size,i,counter,size_ant;
   struct node_gra *p = root;
   struct node_bfs *list,*lp;
-  double *bet_loc;
-  int n_pred;
+  double *bet_loc, *npath, share;
   struct pred *ppre;
   int *ocupacio;
   struct node_lis *big = NULL;
@@ -2160,6 +2186,7 @@ CalculateBiggestLinkBetweenness(struct node_gra *root,int *n1,int *n2)
 
   ocupacio = allocate_i_vec(nnod);
   bet_loc = allocate_d_vec(nnod);
+  npath = allocate_d_vec(nnod);
   list = CreateHeaderList();
 
   for(i = 0;i<nnod;i++){
@@ -2201,17 +2228,19 @@ CalculateBiggestLinkBetweenness(struct node_gra *root,int *n1,int *n2)
       bet_loc[i] = (double)ocupacio[i];
     }
     
+    CountShortestPaths(list, npath);
     lp = list->last;
-    while((n_pred = CountPredecessors(lp)) != 0){
+    while(CountPredecessors(lp) != 0){
       ppre = lp->pred;
       while(ppre != NULL){
-	bet_loc[((ppre->ref)->ref)->num] +=
-	  bet_loc[(lp->ref)->num]/(double)n_pred;
+	share = bet_loc[(lp->ref)->num] *
+	  npath[((ppre->ref)->ref)->num] / npath[(lp->ref)->num];
+	bet_loc[((ppre->ref)->ref)->num] += share;
 	
 	tar = ((lp->ref)->neig)->next;
 	while((tar->node) != ((ppre->ref)->ref)->num)
 	  tar = tar->next;
-	tar->btw += bet_loc[(lp->ref)->num]/(double)n_pred;
+	tar->btw += share;
 	if(big ==  NULL || tar->btw > big->btw){
 	  big = tar;
 	  *n2 = (lp->ref)->num;
@@ -2221,7 +2250,7 @@ CalculateBiggestLinkBetweenness(struct node_gra *root,int *n1,int *n2)
 	tar = (((ppre->ref)->ref)->neig)->next;
 	while((tar->node) != (lp->ref)->num)
 	  tar = tar->next;
-	tar->btw += bet_loc[(lp->ref)->num]/(double)n_pred;
+	tar->btw += share;
 
 	ppre = ppre->next;
       }
@@ -2233,6 +2262,7 @@ CalculateBiggestLinkBetweenness(struct node_gra *root,int *n1,int *n2)
 
   free_i_vec(ocupacio);
   free_d_vec(bet_loc);
+  free_d_vec(npath);
   free(list);
 }
 
-- 
2.43.0


From 39ce57986792c8a8a215702e61785ced9c9201e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:44 +0000
Subject: [PATCH 23/68] fix: bipartite roles go to the file they were asked for

---
 src/bipartite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 1724c3b..4fcef8d 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -994,7 +994,7 @@ FPrintTabNodesBipart(FILE *outf, struct binet *network,  struct group *modules,
 		z = WithinModuleRelativeStrength(n->ref, g);
 		role = GetRole(P,z) + 1;
 	  }
-	  printf ("%-20s\t%d\tR%d\t%f\t%f\n",
+	  fprintf (outf, "%-20s\t%d\tR%d\t%f\t%f\n",
 			  n->nodeLabel,
 			  group_nb,
 			  role,
-- 
2.43.0


From c297cfde1189c7aa242f76896896e750b9428c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:14 +0000
Subject: [PATCH 24/68] fix: a node removed from a group is no longer recorded
 in it

---
 src/modules.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/modules.c b/src/modules.c
index 45cd990..c1d0dd1 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -480,6 +480,10 @@ RemoveNodeFromGroup(struct group *g, struct node_gra *node)
     g->inlinksW -= inweight;
     g->outlinksW = g->totlinksW - g->inlinksW;
 
+    /* Update the properties of the node */
+    if (node->inGroup == g->label)
+      node->inGroup = -1;
+
     /* Done */
     return 1;
   }
@@ -516,6 +520,10 @@ RemoveNodeFromGroupFast(struct group *g, struct node_gra *node)
     /* Partially update the properties of the group */
     g->size--;
 
+    /* Update the properties of the node */
+    if (node->inGroup == g->label)
+      node->inGroup = -1;
+
     /* Done */
     return 1;
   }
-- 
2.43.0


From f8815a335850a24ca2df54a1349decd09b881c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:14 +0000
Subject: [PATCH 25/68] fix: CreateEquiNPartition when the size does not divide
 the nodes or they were in groups

---
 src/modules.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index c1d0dd1..acddec3 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -192,12 +192,14 @@ CreateEquiNPartition(struct node_gra *net, int gsize)
   p = net;
   part = CreateHeaderGroup();
   ngroups = CountNodes(net) / gsize;
+  ResetNetGroup(net);
 
   /* Create the groups and assign the nodes */
   for (i=0; i<=ngroups; i++) {
     g = CreateGroup(part,i);
     for (j=0; j<gsize; j++) {
-      if ((p = p->next) != NULL) {
+      if (p->next != NULL) {
+	p = p->next;
 	AddNodeToGroup(g, p);
       }
     }
-- 
2.43.0


From ea254bd1ea7a14ae4598e5e9281c78ee0520c75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:14 +0000
Subject: [PATCH 26/68] fix: link counts of the groups of
 CreatePartitionFromInGroup

---
 src/modules.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules.c b/src/modules.c
index acddec3..9473d19 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -279,6 +279,9 @@ CreatePartitionFromInGroup(struct node_gra *net)
     AddNodeToGroup(glist[p->inGroup], p);
   }
 
+  /* The links to nodes not yet added were counted too */
+  MapPartToNet(part, net);
+
   /* Free memory and return */
   free(glist);
   return part;
-- 
2.43.0


From ab21cc8bfbae7a41f7facdf6ba474554c591a364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:14 +0000
Subject: [PATCH 27/68] fix: removing links of groups read links already freed

---
 src/modules.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 9473d19..1487fc9 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -690,8 +690,8 @@ RemoveWithinGroupLinks(struct group *g, int symmetric_sw)
   nod = g->nodeList;
   while ((nod = nod->next) != NULL) {
     nei = nod->ref->neig;
-    while ((nei = nei->next) != NULL)
-      RemoveLink(nod->ref, nei->ref, symmetric_sw);
+    while (nei->next != NULL)
+      RemoveLink(nod->ref, nei->next->ref, symmetric_sw);
   }
 
   return;
@@ -713,9 +713,11 @@ RemoveBetweenGroupLinks(struct group *part, int symmetric_sw)
     nod = g->nodeList;
     while ((nod = nod->next) != NULL) {
       nei = nod->ref->neig;
-      while ((nei = nei->next) != NULL) {
-	if (nod->ref->inGroup != nei->ref->inGroup)
-	  RemoveLink(nod->ref,nei->ref, symmetric_sw);
+      while (nei->next != NULL) {
+	if (nod->ref->inGroup != nei->next->ref->inGroup)
+	  RemoveLink(nod->ref, nei->next->ref, symmetric_sw);
+	else
+	  nei = nei->next;
       }
     }
   }
-- 
2.43.0


From a61bd5a88073c8d4b5db7b3366d6b00e0fe928d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:14 +0000
Subject: [PATCH 28/68] fix: BuildNetFromGroupNeig wired links to other nodes

---
 src/modules.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 1487fc9..ea698d5 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1149,7 +1149,8 @@ BuildNetFromGroupNeig(struct group *group)
   }
 
   CleanAdjacencies(net);
-  RewireAdjacencyByNum(net);
+  RewireAdjacencyByLabel(net);
+  RenumberNodes(net);
 
   return net;
 }
-- 
2.43.0


From ea6ea3d9b4bf08151aaccdbbebc9b7b797c35317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:51 +0000
Subject: [PATCH 29/68] fix: MapPartToNetSoft on a network with some of the
 nodes, and it leaves the partition alone

---
 src/modules.c | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index ea698d5..a459289 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1395,7 +1395,6 @@ MapPartToNetSoft(struct group *part, struct node_gra *net)
   struct group *g = NULL;
   struct node_lis *nod;
   void *nodeDict = NULL;
-  struct node_tree *treeNode = NULL;
   struct node_gra *node = NULL;
 
   /* Reset the group of all nodes */
@@ -1404,30 +1403,22 @@ MapPartToNetSoft(struct group *part, struct node_gra *net)
   /* Create the nodeDict for fast access to nodes by label */
   nodeDict = MakeLabelDict(net);
 
-  /* Go through the groups, reset attributes, and point pointers */
+  /* Go through the groups and set the group of the nodes */
   g = part;
   while ((g = g->next) != NULL) {
-    g->totlinks = 0;
-    g->inlinks = 0;
-    g->outlinks = 0;
-    g->totlinksW = 0.0;
-    g->inlinksW = 0.0;
-    g->outlinksW = 0.0;
-
     nod = g->nodeList;
     while ((nod = nod->next) != NULL) {
       /* Get the node_gra by label */
-      treeNode = CreateNodeTree();
-      strcpy(treeNode->label, nod->nodeLabel);
-      node = (*(struct node_tree **)tfind((void *)treeNode,
-					  &nodeDict,
-					  NodeTreeLabelCompare))->ref;
-      FreeNodeTree(treeNode);
-      /* Update the properties of the node */
-      node->inGroup = g->label;
+      node = GetNodeDict(nod->nodeLabel, nodeDict);
+      /* Update the properties of the node, if it is in the network */
+      if (node != NULL)
+	node->inGroup = g->label;
     }
   }
 
+  /* Free memory allocated locally */
+  FreeLabelDict(nodeDict);
+
   return;
 }
 
-- 
2.43.0


From ccc19c8d7f8597bfa03c9fa968b81652d1ee8393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:51 +0000
Subject: [PATCH 30/68] fix: RemoveInterGroupLinks read links already freed

---
 src/modules.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index a459289..b20ebdf 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1511,9 +1511,11 @@ RemoveInterGroupLinks(struct node_gra *net)
   while ((p = p->next) != NULL) {
     thisgroup = p->inGroup;
     n = p->neig;
-    while ((n = n->next) != NULL) {
-      if(n->ref->inGroup != thisgroup)
-	RemoveLink(p, n->ref, 0);
+    while (n->next != NULL) {
+      if(n->next->ref->inGroup != thisgroup)
+	RemoveLink(p, n->next->ref, 0);
+      else
+	n = n->next;
     }
   }
 }
-- 
2.43.0


From c671c823aec2e87b2775e606b80614ec54def7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:18 +0000
Subject: [PATCH 31/68] fix: CorrectlyClassified divided by twice the number of
 nodes

---
 src/modules.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index b20ebdf..fc3820b 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1768,7 +1768,6 @@ CorrectlyClassified(struct group *refpart, struct group *actpart)
   /* Count correctly classified nodes */
   g2 = actpart;
   while ((g2 = g2->next) != NULL) {
-    nnod += g2->size;
     if (map[g2->label] > -1){
       p = g2->nodeList;
       while ((p = p->next) != NULL) {
-- 
2.43.0


From 22b6a19af0153f2ae8ebba943551265dd19eae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:18 +0000
Subject: [PATCH 32/68] fix: MutualInformation of partitions of many nodes
 overflowed

---
 src/modules.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index fc3820b..cb8e17b 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1671,8 +1671,8 @@ MutualInformation(struct group *part1, struct group *part2, int label_sw)
 	    }
 	  } /* Overlap size S12 has been calculated */
 	  if (S12 > 0)
-	    H12 += (double)S12 * log((double)(S12 * S) /
-				 (double)(S1 * S2));
+	    H12 += (double)S12 * log(((double)S12 * (double)S) /
+				 ((double)S1 * (double)S2));
 	}
       }
     }
-- 
2.43.0


From 316fa25622ed902f8d94335bb6a891c1743464e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:33 +0000
Subject: [PATCH 33/68] fix: SACommunityIdent crashed when no partition
 improved on the initial one

---
 src/modules.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules.c b/src/modules.c
index cb8e17b..93b1da0 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -2386,6 +2386,8 @@ SACommunityIdent(struct node_gra *net,
   /* Determine initial values */
   T = Ti;
   energy = Modularity(part);
+  best_part = CopyPartition(part);
+  MapPartToNet(part, net); /*  MUST DO this after copying a part! */
 
   /* Temperature loop */
   while (T > Tf && count < limit) {
-- 
2.43.0


From 97bffd771705040c3a76e7a384fa27e8fc40bc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:45 +0000
Subject: [PATCH 34/68] fix: SACommunityIdent with ngroup 0 and random initial
 groups

---
 src/modules.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules.c b/src/modules.c
index 93b1da0..50d3ce3 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -2352,6 +2352,8 @@ SACommunityIdent(struct node_gra *net,
     break;
 
   case 'r':        /*  Random placement of nodes in groups */
+    if (ngroup == 0)
+      ngroup = nnod;
     glist = (struct group **) calloc(ngroup, sizeof(struct group *));
     lastg = part;
     for (i=0; i<ngroup; i++)
-- 
2.43.0


From 21de0870d4b113ac83fbf5a9223d15f2bc696de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:45 +0000
Subject: [PATCH 35/68] fix: SACommunityIdent did not end when there is only
 one group

---
 src/modules.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules.c b/src/modules.c
index 50d3ce3..1c79672 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -2375,6 +2375,8 @@ SACommunityIdent(struct node_gra *net,
     cicle1 = 10;
   else
     cicle1 = floor(fac * (double)(nnod * nnod));
+  if (ngroup < 2)      /* there is no other group to move to */
+    cicle1 = 0;
 
   if (fac * (double)nnod < 2)
     cicle2 = 2;
-- 
2.43.0


From 95186094dad3df16800bf0e600d5a347aa8bcaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:43 +0000
Subject: [PATCH 36/68] fix: rounding errors in WithinModuleRelativeStrength

---
 src/modules.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 1c79672..df80cb6 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1988,13 +1988,19 @@ WithinModuleRelativeStrength(struct node_gra *node, struct group *part)
   // standard deviation of the within-module strength
   p = group->nodeList;
   while ((p = p->next) != NULL) {
-    inStrength = StrengthToGroup(p->ref, group);
-    kmean += (double)inStrength;
-    k2mean += (double)inStrength * (double)inStrength;
+    kmean += StrengthToGroup(p->ref, group);
   }
   kmean /= (double)(group->size);
+  p = group->nodeList;
+  while ((p = p->next) != NULL) {
+    inStrength = StrengthToGroup(p->ref, group);
+    k2mean += (inStrength - kmean) * (inStrength - kmean);
+  }
   k2mean /= (double)(group->size);
-  kstd = sqrt(k2mean - kmean * kmean);
+  kstd = sqrt(k2mean);
+  // Rounding errors are not a variation.
+  if (kstd <= 1e-10 * fabs(kmean))
+    kstd = 0.0;
 
   // Calculate the z-score
   if (kstd == 0.0)
-- 
2.43.0


From b7272fa0fa1649e203f01074bbe7822a5af26a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:43 +0000
Subject: [PATCH 37/68] fix: participation of a node without shared memberships
 is 0

---
 src/bipartite.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 4fcef8d..d3cb176 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -1049,11 +1049,13 @@ ParticipationCoefficientBipart(struct node_gra *node)
   }
 
   /* Compute the participation coefficient */
-  for (i=0; i<=maxNum; i++)
-    P +=
-      (double)inGroupCount[i] * (double)inGroupCount[i] /
-      ((double)norm * (double)norm);
-  P = 1.0 - P;
+  if (norm > 0) {
+    for (i=0; i<=maxNum; i++)
+      P +=
+	(double)inGroupCount[i] * (double)inGroupCount[i] /
+	((double)norm * (double)norm);
+    P = 1.0 - P;
+  }
 
   /* Free memory */
   free_i_vec(inGroupCount);
-- 
2.43.0


From 8cc99b2587f41c2635ce655b8003b36d7141c0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:30 +0000
Subject: [PATCH 38/68] fix: LinkScoreMCStep: no links to groups outside the
 shortlist

---
 src/missing.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 38cfa02..70c9ea9 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -185,6 +185,9 @@ LinkScoreMCStep(int factor,
     if (g->size > 0)
       slg[slgsize++] = g->label;
 
+  for (i=0; i<nnod; i++)
+    n2gList[i] = 0;  // No links to the groups that are not in the list
+
   /* Steps */
   for (move=0; move<nnod*factor; move++) {
 
-- 
2.43.0


From a8ae4d01e819a7cdd1c3e52aca49e022cc7fd067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:30 +0000
Subject: [PATCH 39/68] fix: Gibbs link score steps: know the node when its
 group is the only one

---
 src/missing.c        | 12 ++++++++++++
 src/multiblock.c     | 24 ++++++++++++++++++++++++
 src/only_deg.c       | 12 ++++++++++++
 src/sparse_missing.c | 12 ++++++++++++
 4 files changed, 60 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 70c9ea9..c2d4f6b 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -2056,6 +2056,18 @@ GibbsLinkScoreStep(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* The old group and the links of the node to all groups */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
diff --git a/src/multiblock.c b/src/multiblock.c
index ee89278..550cb0b 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -1356,6 +1356,18 @@ GibbsLinkScoreStepMB(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* The old group and the links of the node to all groups */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
@@ -1992,6 +2004,18 @@ ORGibbsLinkScoreStepMB(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* The old group and the links of the node to all groups */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
diff --git a/src/only_deg.c b/src/only_deg.c
index d271ea3..9c99c68 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -719,6 +719,18 @@ GibbsLinkScoreStepMB_OD(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* The old group and the links of the node to all groups */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
diff --git a/src/sparse_missing.c b/src/sparse_missing.c
index bde304a..0e34675 100644
--- a/src/sparse_missing.c
+++ b/src/sparse_missing.c
@@ -123,6 +123,18 @@ SparseGibbsLinkScoreStep(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* The old group and the links of the node to all groups */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
-- 
2.43.0


From fb7a4cbb9d93b77ebe4445ac8360dc7ab3b634a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:39 +0000
Subject: [PATCH 40/68] fix: harmonic numbers up to r + 2, r the pairs of
 nodes, are used

---
 src/multiblock.c | 8 ++++----
 src/only_deg.c   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/multiblock.c b/src/multiblock.c
index 550cb0b..f853b8c 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -481,7 +481,7 @@ LinkScoreMB(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA_AND = allocate_d_mat(nnod, nnod);
@@ -1111,7 +1111,7 @@ ORLinkScoreMB(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA_OR = allocate_d_mat(nnod, nnod);
@@ -1763,7 +1763,7 @@ GibbsLinkScoreMB(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
@@ -2411,7 +2411,7 @@ ORGibbsLinkScoreMB(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
diff --git a/src/only_deg.c b/src/only_deg.c
index 9c99c68..8b7def7 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -480,7 +480,7 @@ LinkScoreMB_OD(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA = allocate_d_mat(nnod, nnod);
@@ -1126,7 +1126,7 @@ GibbsLinkScoreMB_OD(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
-- 
2.43.0


From f7d66d9c5f524d6f05b1f28cbbc2f946b35eedbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:39 +0000
Subject: [PATCH 41/68] fix: decorrelation steps of small networks: two
 different times, at least one step

---
 src/missing.c    |  8 ++++++--
 src/multiblock.c | 10 ++++++++--
 src/only_deg.c   |  5 ++++-
 src/recommend.c  |  6 ++++--
 4 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index c2d4f6b..7cd9ffa 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -354,6 +354,8 @@ GetDecorrelationStep(double *H,
   int norm=0;
 
   x2 = nnod / 5;
+  if (x2 < 10)
+    x2 = 10;
   x1 = x2 / 4;
 
   /* Get the nrep initial estimates */
@@ -422,7 +424,8 @@ GetDecorrelationStep(double *H,
   /* Clean up */
   free_d_vec(decay);
 
-  return result / norm;
+  result /= norm;
+  return (result < 1.0) ? 1 : (int)result;
 }
 
 /*
@@ -1629,7 +1632,8 @@ LSGetDecorrelationStepKState(int K,
   /* Clean up */
   free_d_vec(decay);
 
-  return (int)(result / norm + 0.5);
+  result /= norm;
+  return (result < 1.0) ? 1 : (int)(result + 0.5);
 }
 
 
diff --git a/src/multiblock.c b/src/multiblock.c
index f853b8c..539f446 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -284,6 +284,8 @@ GetDecorrelationStepMB(double *H,
   int norm=0;
 
   x2 = nnod / 5;
+  if (x2 < 10)
+    x2 = 10;
   x1 = x2 / 4;
 
   /* Get the nrep initial estimates */
@@ -353,7 +355,8 @@ GetDecorrelationStepMB(double *H,
   /* Clean up */
   free_d_vec(decay);
 
-  return result / norm;
+  result /= norm;
+  return (result < 1.0) ? 1 : (int)result;
 }
 
 /*
@@ -914,6 +917,8 @@ ORGetDecorrelationStepMB(double *H,
   int norm=0;
 
   x2 = nnod / 5;
+  if (x2 < 10)
+    x2 = 10;
   x1 = x2 / 4;
 
   /* Get the nrep initial estimates */
@@ -983,7 +988,8 @@ ORGetDecorrelationStepMB(double *H,
   /* Clean up */
   free_d_vec(decay);
 
-  return result / norm;
+  result /= norm;
+  return (result < 1.0) ? 1 : (int)result;
 }
 
 /*
diff --git a/src/only_deg.c b/src/only_deg.c
index 8b7def7..d720406 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -282,6 +282,8 @@ GetDecorrelationStepMB_OD(double *H,
   int norm=0;
 
   x2 = nnod / 5;
+  if (x2 < 10)
+    x2 = 10;
   x1 = x2 / 4;
 
   /* Get the nrep initial estimates */
@@ -351,7 +353,8 @@ GetDecorrelationStepMB_OD(double *H,
   /* Clean up */
   free_d_vec(decay);
 
-  return result / norm;
+  result /= norm;
+  return (result < 1.0) ? 1 : (int)result;
 }
 
 /*
diff --git a/src/recommend.c b/src/recommend.c
index cc5e06a..5939d2b 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -637,7 +637,8 @@ GetDecorrelationStep2State(double *H,
   free_d_vec(decay1);
   free_d_vec(decay2);
 
-  return (int)(result / norm + 0.5);
+  result /= norm;
+  return (result < 1.0) ? 1 : (int)(result + 0.5);
 }
 
 
@@ -1475,7 +1476,8 @@ GetDecorrelationStepKState(int K,
   free_d_vec(decay1);
   free_d_vec(decay2);
 
-  return (int)(result / norm + 0.5);
+  result /= norm;
+  return (result < 1.0) ? 1 : (int)(result + 0.5);
 }
 
 
-- 
2.43.0


From 4220f19dff0ddeba89b7e8b270d487b37dff6420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:00 +0000
Subject: [PATCH 42/68] fix: GibbsLinkScoreMB_OD tells about the energies of
 its own model

---
 src/only_deg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/only_deg.c b/src/only_deg.c
index d720406..b1968d4 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -1047,7 +1047,7 @@ GibbsThermalizeLSMCMB_OD(double *H,
 	/*PartitionHMB(part, linC, HarmonicList);*/ /* Number of groups */
 	break;
       case 'd':
-	fprintf(stderr, "%lf %lf %d\n", *H, PartitionHMB(part, linC, HarmonicList),
+	fprintf(stderr, "%lf %lf %d\n", *H, PartitionHMB_OD(part, linC, HarmonicList),
 		NNonEmptyGroups(part));
 	break;
       default:
@@ -1173,7 +1173,7 @@ GibbsLinkScoreMB_OD(struct node_gra *net,
   }
 
   /* Initial energy */
-  H = PartitionHMB(part, linC, HarmonicList);
+  H = PartitionHMB_OD(part, linC, HarmonicList);
 
   /*
     GET READY FOR THE SAMPLING
@@ -1219,7 +1219,7 @@ GibbsLinkScoreMB_OD(struct node_gra *net,
       fprintf(stderr, "%d %lf\n", iter, H);
       break;
     case 'd':
-      fprintf(stderr, "%d %lf %lf %d\n", iter, H, PartitionHMB(part, linC, HarmonicList),
+      fprintf(stderr, "%d %lf %lf %d\n", iter, H, PartitionHMB_OD(part, linC, HarmonicList),
 	      NNonEmptyGroups(part));
       /* FPrintPartition(stderr, part, 0); */
       break;
-- 
2.43.0


From 22d18076cc555f6404544e98d922537c57ca91c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:00 +0000
Subject: [PATCH 43/68] fix: PartitionSampling: at least one step between
 samples

---
 src/missing.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index 7cd9ffa..98e0bc4 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1151,7 +1151,7 @@ PartitionSampling(struct node_gra *net,
   struct group **partList=NULL;
   struct group *lastg=NULL;
   double H;
-  int iter, decorStep;
+  int iter, decorStep, thinStep;
   int **G2G=NULL;
   int *n2gList=NULL;
   int LogChooseListSize = 500;
@@ -1257,9 +1257,14 @@ PartitionSampling(struct node_gra *net,
     break;
   }
 
+  /* Steps between samples: at least one */
+  thinStep = (int)(decorStep * thinning);
+  if (thinStep < 1)
+    thinStep = 1;
+
   /* Do the MC Steps */
   for (iter=0; iter<nIter; iter++) {
-    LinkScoreMCStep((int)(decorStep*thinning), &H, linC, nlist, glist, part,
+    LinkScoreMCStep(thinStep, &H, linC, nlist, glist, part,
 		    nnod, G2G, n2gList, LogChooseList, LogChooseListSize,
 		    LogFactList, LogFactListSize,
 		    gen);
-- 
2.43.0


From 87629f1f1120611db4e534c4567951b464a35a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:08 +0000
Subject: [PATCH 44/68] fix: NetReconstruct: complete networks and networks
 without links

---
 src/missing.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 98e0bc4..0244db3 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1084,6 +1084,7 @@ NetReconstruct(struct node_gra *netObs,
 	 score */
       maxLinkScore = 0.0;
       minLinkScore = 1.0;
+      n1Add = n1Remove = NULL;
       for (n1=0; n1<nnod; n1++) {
 	for (n2=n1+1; n2<nnod; n2++) {
 	  if ((linkScores[n1][n2] > maxLinkScore) &&
@@ -1101,6 +1102,10 @@ NetReconstruct(struct node_gra *netObs,
 	}
       }
 
+      /* All pairs or no pairs are linked: there is nothing to change */
+      if ((n1Add == NULL) || (n1Remove == NULL))
+	break;
+
       /* Add and remove links */
       AddAdjacency(n1Add, n2Add, 0, 0, 1.0, 2);
       AddAdjacency(n2Add, n1Add, 0, 0, 1.0, 2);
-- 
2.43.0


From 063de3543c1f8cbc085d0e6ce5c667247fa9539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:00 +0000
Subject: [PATCH 45/68] fix: thermalization did not end when all partitions
 have the same energy

---
 src/missing.c   | 2 +-
 src/recommend.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index 0244db3..b67d454 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1698,7 +1698,7 @@ LSThermalizeMCKState(int K,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if (HMean0 - HStd0 / sqrt(nrep) - EPSILON < HMean1 + HStd1 / sqrt(nrep)) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
diff --git a/src/recommend.c b/src/recommend.c
index 5939d2b..ce1dc87 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -699,7 +699,7 @@ ThermalizeMC2State(int decorStep,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if (HMean0 - HStd0 / sqrt(nrep) - EPSILON < HMean1 + HStd1 / sqrt(nrep)) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
@@ -1532,7 +1532,7 @@ ThermalizeMCKState(int K,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if (HMean0 - HStd0 / sqrt(nrep) - EPSILON < HMean1 + HStd1 / sqrt(nrep)) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
@@ -2214,7 +2214,7 @@ GibbsThermalizeKState(int K,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if (HMean0 - HStd0 / sqrt(nrep) - EPSILON < HMean1 + HStd1 / sqrt(nrep)) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
-- 
2.43.0


From 82f7ccb1fc45095e55e7c2d7756763e26f4731c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:00 +0000
Subject: [PATCH 46/68] fix: steps of the recommender did not end with one node
 in each set

---
 src/recommend.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/recommend.c b/src/recommend.c
index ce1dc87..8efa731 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -300,6 +300,10 @@ MCStep2State(int factor,
   int j; 
   int move_in;
 
+  /* With one node in each set, there is nowhere to move */
+  if (nnod1 < 2 && nnod2 < 2)
+    return;
+
   /* Ratio of moves in each of the sets */
   set_ratio = (double)(nnod1*nnod1-1) / (double)(nnod1*nnod1+nnod2*nnod2-2);
 
@@ -1144,6 +1148,10 @@ MCStepKState(int K,
   int move_in;
   int k;
 
+  /* With one node in each set, there is nowhere to move */
+  if (nnod1 < 2 && nnod2 < 2)
+    return;
+
   /* Ratio of moves in each of the sets */
   set_ratio = (double)(nnod1*nnod1-1) / (double)(nnod1*nnod1+nnod2*nnod2-2);
 
-- 
2.43.0


From 2d4f353c7a3470b95ad258a5d8daebe15b6a391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 47/68] fix: PAGraph: a node could be chosen as its own
 neighbour and got fewer links

---
 src/models.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models.c b/src/models.c
index c947bb6..9cda97b 100644
--- a/src/models.c
+++ b/src/models.c
@@ -117,7 +117,8 @@ PAGraph(int S, int m, gsl_rng *gen)
 	/* preferential attachment */
 	node2 = paList[(int)(gsl_rng_uniform(gen) * norm)];
       }
-      while (IsThereLink(nodeList[node1], nodeList[node2]) == 1);
+      while (node2 == node1 ||
+	     IsThereLink(nodeList[node1], nodeList[node2]) == 1);
       AddAdjacency(nodeList[node1], nodeList[node2], 0, 0, 0, 0);
       AddAdjacency(nodeList[node2], nodeList[node1], 0, 0, 0, 0);
       paList[norm++]=node1;
-- 
2.43.0


From 60d29eb8f77fe739a1d8dc2b7a017306109626b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:43 +0000
Subject: [PATCH 48/68] fix: modularbipart: teams had the size of the modules,
 whatever was asked for

---
 utils/main_modularbipart.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/main_modularbipart.c b/utils/main_modularbipart.c
index c8514b2..b50a7c0 100644
--- a/utils/main_modularbipart.c
+++ b/utils/main_modularbipart.c
@@ -36,7 +36,7 @@ main(int argc, char **argv)
 
   /* Build the network */
   binet = BuildModularBipartiteNetwork(NULL, modSize, nMod, NULL,
-				       nTeam, modSize, modSize, -1.,
+				       nTeam, teamSize, teamSize, -1.,
 				       teamHomog, randGen);
   FPrintPajekFileBipart ("binet.net", binet, 0, 0);
 
-- 
2.43.0


From 26596f8a6a93788cfdd361d2c6aeb6ddfe800100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:43 +0000
Subject: [PATCH 49/68] fix: netprop: networks of more than 1000 components

---
 utils/main_netprop.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/main_netprop.c b/utils/main_netprop.c
index 1479434..64b7863 100644
--- a/utils/main_netprop.c
+++ b/utils/main_netprop.c
@@ -15,7 +15,7 @@ main(int argc, char **argv)
   char *netF;
   FILE *infile=NULL;
   struct node_gra *net=NULL;
-  struct node_gra *components[1000];
+  struct node_gra **components=NULL;
   int i,ncomponents,sizeGC=0,sizeothers=0;
 /*   struct prng *rand_gen; */
 /*   int seed; */
@@ -39,6 +39,8 @@ main(int argc, char **argv)
     Calculate and print a variety of network properties
   */
   /* Calculate the size of the giant component and the number of components */
+  components = (struct node_gra **)calloc(CountNodes(net) + 1,
+					  sizeof(struct node_gra *));
   ncomponents = GetAllConnectedSets(net,components);
   for(i=0;i<ncomponents;i++)
   {
-- 
2.43.0


From 5ea61673926c15699aeec65ba51ba94efab55b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:58 +0000
Subject: [PATCH 50/68] fix: programs: usage instead of a crash when the last
 argument is missing

---
 multiblock/main_reliability_links_mb.c            | 2 +-
 multiblock/main_reliability_links_mb_OR.c         | 2 +-
 multiblock/main_reliability_links_mb_gibbs.c      | 2 +-
 multiblock/main_reliability_links_mb_gibbs_OR.c   | 2 +-
 only_deg/main_only_degeneration_mb.c              | 2 +-
 only_deg/main_only_degeneration_mb_gibbs.c        | 2 +-
 recommender/main_multi_recommend_2.c              | 2 +-
 recommender/main_multi_recommend_k.c              | 2 +-
 recommender/main_multi_recommend_k_gibbs.c        | 2 +-
 reliability/main_reliability_links.c              | 2 +-
 reliability/main_reliability_links_gibbs.c        | 2 +-
 reliability/main_reliability_links_gibbs_sparse.c | 2 +-
 reliability/main_reliability_links_k.c            | 2 +-
 utils/main_netrandomize.c                         | 2 +-
 14 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/multiblock/main_reliability_links_mb.c b/multiblock/main_reliability_links_mb.c
index 4df38e4..d166f06 100644
--- a/multiblock/main_reliability_links_mb.c
+++ b/multiblock/main_reliability_links_mb.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
diff --git a/multiblock/main_reliability_links_mb_OR.c b/multiblock/main_reliability_links_mb_OR.c
index 533564b..864186a 100644
--- a/multiblock/main_reliability_links_mb_OR.c
+++ b/multiblock/main_reliability_links_mb_OR.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: reliability_links_mb_OR net_file seed\n\n");
     return -1;
   }
diff --git a/multiblock/main_reliability_links_mb_gibbs.c b/multiblock/main_reliability_links_mb_gibbs.c
index 3480993..3771c8b 100644
--- a/multiblock/main_reliability_links_mb_gibbs.c
+++ b/multiblock/main_reliability_links_mb_gibbs.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return;
   }
diff --git a/multiblock/main_reliability_links_mb_gibbs_OR.c b/multiblock/main_reliability_links_mb_gibbs_OR.c
index a4ab09d..b245070 100644
--- a/multiblock/main_reliability_links_mb_gibbs_OR.c
+++ b/multiblock/main_reliability_links_mb_gibbs_OR.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: reliability_links_mb_OR net_file seed\n\n");
     return;
   }
diff --git a/only_deg/main_only_degeneration_mb.c b/only_deg/main_only_degeneration_mb.c
index 0eb3bcc..269661a 100644
--- a/only_deg/main_only_degeneration_mb.c
+++ b/only_deg/main_only_degeneration_mb.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: only_degeneration_mb net_file seed\n\n");
     return;
   }
diff --git a/only_deg/main_only_degeneration_mb_gibbs.c b/only_deg/main_only_degeneration_mb_gibbs.c
index 79d49df..cdd9d68 100644
--- a/only_deg/main_only_degeneration_mb_gibbs.c
+++ b/only_deg/main_only_degeneration_mb_gibbs.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: only_degeneration_mb net_file seed\n\n");
     return;
   }
diff --git a/recommender/main_multi_recommend_2.c b/recommender/main_multi_recommend_2.c
index 4c702a7..c4e2e81 100644
--- a/recommender/main_multi_recommend_2.c
+++ b/recommender/main_multi_recommend_2.c
@@ -32,7 +32,7 @@ main(int argc, char **argv)
   double *scores;
 
   /* Command line parameters */
-  if (argc < 3) {
+  if (argc < 4) {
     printf("\nUse: multi_recommend_2.out observation_file query_file seed\n\n");
     return -1;
   }
diff --git a/recommender/main_multi_recommend_k.c b/recommender/main_multi_recommend_k.c
index bd5f603..16a01e7 100644
--- a/recommender/main_multi_recommend_k.c
+++ b/recommender/main_multi_recommend_k.c
@@ -33,7 +33,7 @@ main(int argc, char **argv)
   int K, k;
 
   /* Command line parameters */
-  if (argc < 4) {
+  if (argc < 5) {
     printf("\nUse: multi_recommend_k.out K observation_file query_file seed\n\n");
     return -1;
   }
diff --git a/recommender/main_multi_recommend_k_gibbs.c b/recommender/main_multi_recommend_k_gibbs.c
index ab54b04..aa48c9a 100644
--- a/recommender/main_multi_recommend_k_gibbs.c
+++ b/recommender/main_multi_recommend_k_gibbs.c
@@ -33,7 +33,7 @@ main(int argc, char **argv)
   int K, k;
 
   /* Command line parameters */
-  if (argc < 4) {
+  if (argc < 5) {
     printf("\nUse: multi_recommend_k_gibbs K observation_file query_file seed\n\n");
     return -1;
   }
diff --git a/reliability/main_reliability_links.c b/reliability/main_reliability_links.c
index 547ddbe..2924baf 100644
--- a/reliability/main_reliability_links.c
+++ b/reliability/main_reliability_links.c
@@ -31,7 +31,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
diff --git a/reliability/main_reliability_links_gibbs.c b/reliability/main_reliability_links_gibbs.c
index 64eef2c..9b24aaa 100644
--- a/reliability/main_reliability_links_gibbs.c
+++ b/reliability/main_reliability_links_gibbs.c
@@ -31,7 +31,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
diff --git a/reliability/main_reliability_links_gibbs_sparse.c b/reliability/main_reliability_links_gibbs_sparse.c
index e20bf8c..39428cc 100644
--- a/reliability/main_reliability_links_gibbs_sparse.c
+++ b/reliability/main_reliability_links_gibbs_sparse.c
@@ -31,7 +31,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return;
   }
diff --git a/reliability/main_reliability_links_k.c b/reliability/main_reliability_links_k.c
index 7b6c31d..79edad3 100644
--- a/reliability/main_reliability_links_k.c
+++ b/reliability/main_reliability_links_k.c
@@ -34,7 +34,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 3) {
+  if (argc < 4) {
     printf("\nUse: reliability_links_k K net_file seed\n\n");
     return -1;
   }
diff --git a/utils/main_netrandomize.c b/utils/main_netrandomize.c
index 80d52e4..eee87b7 100644
--- a/utils/main_netrandomize.c
+++ b/utils/main_netrandomize.c
@@ -26,7 +26,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: netrandomize.out net_file seed\n\n");
     return -1;
   }
-- 
2.43.0


From 3cf928a1fb487f6d62986394d28eb0dd740bc42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:03 +0000
Subject: [PATCH 51/68] fix: names of the score files: no overflow for long
 names of the network file

---
 multiblock/main_reliability_links_mb.c          | 4 +++-
 multiblock/main_reliability_links_mb_OR.c       | 4 +++-
 multiblock/main_reliability_links_mb_gibbs.c    | 4 +++-
 multiblock/main_reliability_links_mb_gibbs_OR.c | 4 +++-
 only_deg/main_only_degeneration_mb.c            | 4 +++-
 only_deg/main_only_degeneration_mb_gibbs.c      | 4 +++-
 6 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/multiblock/main_reliability_links_mb.c b/multiblock/main_reliability_links_mb.c
index d166f06..c58b9e5 100644
--- a/multiblock/main_reliability_links_mb.c
+++ b/multiblock/main_reliability_links_mb.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA_AND;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200], outFileNameAND[200];
+  char *outFileNameAND=NULL;
 
   /*
     ---------------------------------------------------------------------------
@@ -60,9 +60,11 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileNameAND = (char *)malloc(strlen(netF) + 20);
   strcpy(outFileNameAND, netF);
   strcat(outFileNameAND, ".AND_scores");
   outfileAND = fopen(outFileNameAND, "w");
+  free(outFileNameAND);
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
diff --git a/multiblock/main_reliability_links_mb_OR.c b/multiblock/main_reliability_links_mb_OR.c
index 864186a..87687e4 100644
--- a/multiblock/main_reliability_links_mb_OR.c
+++ b/multiblock/main_reliability_links_mb_OR.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA_OR;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200];
+  char *outFileNameOR=NULL;
 
   /*
     ---------------------------------------------------------------------------
@@ -60,9 +60,11 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileNameOR = (char *)malloc(strlen(netF) + 20);
   strcpy(outFileNameOR, netF);
   strcat(outFileNameOR, ".OR_scores");
   outfileOR = fopen(outFileNameOR, "w");
+  free(outFileNameOR);
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
diff --git a/multiblock/main_reliability_links_mb_gibbs.c b/multiblock/main_reliability_links_mb_gibbs.c
index 3771c8b..30a845e 100644
--- a/multiblock/main_reliability_links_mb_gibbs.c
+++ b/multiblock/main_reliability_links_mb_gibbs.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA_AND;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200], outFileNameAND[200];
+  char *outFileNameAND=NULL;
 
   /*
     ---------------------------------------------------------------------------
@@ -60,9 +60,11 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileNameAND = (char *)malloc(strlen(netF) + 20);
   strcpy(outFileNameAND, netF);
   strcat(outFileNameAND, ".AND_scores");
   outfileAND = fopen(outFileNameAND, "w");
+  free(outFileNameAND);
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
diff --git a/multiblock/main_reliability_links_mb_gibbs_OR.c b/multiblock/main_reliability_links_mb_gibbs_OR.c
index b245070..a5e1077 100644
--- a/multiblock/main_reliability_links_mb_gibbs_OR.c
+++ b/multiblock/main_reliability_links_mb_gibbs_OR.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA_OR;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200];
+  char *outFileNameOR=NULL;
 
   /*
     ---------------------------------------------------------------------------
@@ -60,9 +60,11 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileNameOR = (char *)malloc(strlen(netF) + 20);
   strcpy(outFileNameOR, netF);
   strcat(outFileNameOR, ".OR_scores");
   outfileOR = fopen(outFileNameOR, "w");
+  free(outFileNameOR);
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
diff --git a/only_deg/main_only_degeneration_mb.c b/only_deg/main_only_degeneration_mb.c
index 269661a..8fd5d47 100644
--- a/only_deg/main_only_degeneration_mb.c
+++ b/only_deg/main_only_degeneration_mb.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileName[200];
+  char *outFileName=NULL;
 
   /*
     ---------------------------------------------------------------------------
@@ -60,9 +60,11 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileName = (char *)malloc(strlen(netF) + 20);
   strcpy(outFileName, netF);
   strcat(outFileName, ".scores");
   outfile = fopen(outFileName, "w");
+  free(outFileName);
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
diff --git a/only_deg/main_only_degeneration_mb_gibbs.c b/only_deg/main_only_degeneration_mb_gibbs.c
index cdd9d68..7bed6b3 100644
--- a/only_deg/main_only_degeneration_mb_gibbs.c
+++ b/only_deg/main_only_degeneration_mb_gibbs.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileName[200];
+  char *outFileName=NULL;
 
   /*
     ---------------------------------------------------------------------------
@@ -60,9 +60,11 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileName = (char *)malloc(strlen(netF) + 20);
   strcpy(outFileName, netF);
   strcat(outFileName, ".scores");
   outfile = fopen(outFileName, "w");
+  free(outFileName);
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
-- 
2.43.0


From 90602f714713645cf9ea7c5f095a0fdb5cf1b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:03 +0000
Subject: [PATCH 52/68] fix: scoring programs: defined exit status when the
 arguments are missing

---
 multiblock/main_reliability_links_mb_gibbs.c      | 2 +-
 multiblock/main_reliability_links_mb_gibbs_OR.c   | 2 +-
 only_deg/main_only_degeneration_mb.c              | 2 +-
 only_deg/main_only_degeneration_mb_gibbs.c        | 2 +-
 reliability/main_reliability_links_gibbs_sparse.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/multiblock/main_reliability_links_mb_gibbs.c b/multiblock/main_reliability_links_mb_gibbs.c
index 30a845e..1553725 100644
--- a/multiblock/main_reliability_links_mb_gibbs.c
+++ b/multiblock/main_reliability_links_mb_gibbs.c
@@ -32,7 +32,7 @@ main(int argc, char **argv)
   */
   if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
diff --git a/multiblock/main_reliability_links_mb_gibbs_OR.c b/multiblock/main_reliability_links_mb_gibbs_OR.c
index a5e1077..972f846 100644
--- a/multiblock/main_reliability_links_mb_gibbs_OR.c
+++ b/multiblock/main_reliability_links_mb_gibbs_OR.c
@@ -32,7 +32,7 @@ main(int argc, char **argv)
   */
   if (argc < 3) {
     printf("\nUse: reliability_links_mb_OR net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
diff --git a/only_deg/main_only_degeneration_mb.c b/only_deg/main_only_degeneration_mb.c
index 8fd5d47..fc3d4d5 100644
--- a/only_deg/main_only_degeneration_mb.c
+++ b/only_deg/main_only_degeneration_mb.c
@@ -32,7 +32,7 @@ main(int argc, char **argv)
   */
   if (argc < 3) {
     printf("\nUse: only_degeneration_mb net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
diff --git a/only_deg/main_only_degeneration_mb_gibbs.c b/only_deg/main_only_degeneration_mb_gibbs.c
index 7bed6b3..01bd70c 100644
--- a/only_deg/main_only_degeneration_mb_gibbs.c
+++ b/only_deg/main_only_degeneration_mb_gibbs.c
@@ -32,7 +32,7 @@ main(int argc, char **argv)
   */
   if (argc < 3) {
     printf("\nUse: only_degeneration_mb net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
diff --git a/reliability/main_reliability_links_gibbs_sparse.c b/reliability/main_reliability_links_gibbs_sparse.c
index 39428cc..8475dda 100644
--- a/reliability/main_reliability_links_gibbs_sparse.c
+++ b/reliability/main_reliability_links_gibbs_sparse.c
@@ -33,7 +33,7 @@ main(int argc, char **argv)
   */
   if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
-- 
2.43.0


From 763ab1cd7dc6a02c06697a2ccd6c7e7c2ae356b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:21 +0000
Subject: [PATCH 53/68] fix: ArrangeComponents: centers of the components start
 at zero

---
 src/layout.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/layout.c b/src/layout.c
index 3c78de9..4bf1a77 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -149,6 +149,7 @@ void ArrangeComponents(struct node_gra *net, gsl_rng *gen)
       g = g->next;
       glist[g->label] = g;
       dxtot[g->label] = dytot[g->label] = 0.0;
+      xce[g->label] = yce[g->label] = 0.0;
 
       // Find the center of the component and of the network
       node = g->nodeList;
-- 
2.43.0


From 8023f9c035ef8d45c2fe0503f41c5182bc0b086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:21 +0000
Subject: [PATCH 54/68] fix: ArrangeComponents: leak of the displacements

---
 src/layout.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/layout.c b/src/layout.c
index 4bf1a77..3ec8a80 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -237,6 +237,8 @@ void ArrangeComponents(struct node_gra *net, gsl_rng *gen)
     free(xce);
     free(yce);
     free(rad);
+    free(dxtot);
+    free(dytot);
     free(glist);
     RemoveGraph(cnet);
     RemovePartition(part);
-- 
2.43.0


From a49cfdd68a7917e962e763f3b3b12c46c4939041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:21 +0000
Subject: [PATCH 55/68] fix: PotentialEnergy3D: all the boxes, not only those
 of the first plane

---
 src/layout.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout.c b/src/layout.c
index 3ec8a80..041622b 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -837,7 +837,7 @@ double PotentialEnergy3D(struct node_gra *net,
 
   // Electrostatic interaction with all other nodes in neighboring
   // boxes
-  nbox = boxprow * boxprow;
+  nbox = boxprow * boxprow * boxprow;
   for (box=0; box<nbox; box++) {
     
     // Neighboring boxes
-- 
2.43.0


From a10bdbf560ecd52c6bbb99ba04906dca8b636b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:21 +0000
Subject: [PATCH 56/68] fix: progress of the 3D layouts goes to stderr, not
 among the coordinates

---
 src/layout.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layout.c b/src/layout.c
index 041622b..7bb345d 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -1081,7 +1081,7 @@ MDGraphLayout3D(struct node_gra *net, double drag, double dt,
       nbox = 1;
   }
   nb3 = nbox * nbox * nbox;
-  printf("# Using %dx%dx%d boxes\n", nbox, nbox, nbox);
+  fprintf(stderr, "# Using %dx%dx%d boxes\n", nbox, nbox, nbox);
 
   // Allocate memory
   Fx = allocate_d_vec(nnod);
@@ -1191,7 +1191,7 @@ MDGraphLayout3D(struct node_gra *net, double drag, double dt,
     }
 
     // Screen output
-    printf("%d %g\n", i, T/(double)nnod);
+    fprintf(stderr, "%d %g\n", i, T/(double)nnod);
 /*     printf("%d %g %g %g\n", i, T/(double)nnod, */
 /* 	   U/(double)nnod, */
 /* 	   (T+U)/(double)nnod); */
@@ -1253,7 +1253,7 @@ MDGraphLayout2Dp(struct node_gra *net, double drag, double dt,
       nbox = 1;
   }
   nb3 = nbox * nbox * nbox;
-  printf("# Using %dx%dx%d boxes\n", nbox, nbox, nbox);
+  fprintf(stderr, "# Using %dx%dx%d boxes\n", nbox, nbox, nbox);
 
   // Allocate memory
   Fx = allocate_d_vec(nnod);
@@ -1363,7 +1363,7 @@ MDGraphLayout2Dp(struct node_gra *net, double drag, double dt,
     }
 
     // Screen output
-    printf("%d %g\n", i, T/(double)nnod);
+    fprintf(stderr, "%d %g\n", i, T/(double)nnod);
 /*     printf("%d %g %g %g\n", i, T/(double)nnod, */
 /* 	   U/(double)nnod, */
 /* 	   (T+U)/(double)nnod); */
-- 
2.43.0


From fdc59388d34b0ef1793e30b9af6e7f6dc900e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:31 +0000
Subject: [PATCH 57/68] fix: CountLinesInFile counted a line of 1000 or more
 characters more than once

---
 src/tools.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tools.c b/src/tools.c
index 4b05dc3..10f68a3 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -610,11 +610,15 @@ CountLinesInFile(char *inFileName)
 {
   char line[1000];
   int n=0;
+  int unfinished=0;
   FILE *inFile;
 
   inFile = fopen(inFileName, "r");
-  while (fgets(line, 1000, inFile))
-    n++;
+  while (fgets(line, 1000, inFile)) {
+    if (!unfinished)
+      n++;
+    unfinished = (strchr(line, '\n') == NULL); /* longer than the buffer */
+  }
   fclose(inFile);
 
   return n;
-- 
2.43.0


From 49c781e8ea179521f9e0d51412a705c4978f10ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:31 +0000
Subject: [PATCH 58/68] fix: SACommunityIdent is declared, so that its result
 is not cut to an int

---
 src/modules.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/modules.h b/src/modules.h
index ed30750..cea7849 100644
--- a/src/modules.h
+++ b/src/modules.h
@@ -156,6 +156,14 @@ double CorrectlyClassified(struct group *refpart,
 */
 double Modularity(struct group *part);
 double ModularityWeight(struct group *part);
+struct group *SACommunityIdent(struct node_gra *net,
+			       double Ti, double Tf, double Ts,
+			       double fac,
+			       int ngroup,
+			       char initial_sw,
+			       int collective_sw,
+			       char output_sw,
+			       gsl_rng *gen);
 
 /*
   ---------------------------------------------------------------------
-- 
2.43.0


From 34502a0a75e065a5cc7aabc9272b0b5a97ce875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:31 +0000
Subject: [PATCH 59/68] fix: netcarto-legacy: file name asked for, seed and
 standard input as the usage says

---
 netcarto/main_netcarto_legacy.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/netcarto/main_netcarto_legacy.c b/netcarto/main_netcarto_legacy.c
index 8e9718e..6f2b767 100644
--- a/netcarto/main_netcarto_legacy.c
+++ b/netcarto/main_netcarto_legacy.c
@@ -2,6 +2,7 @@
 #include <math.h>
 #include <unistd.h>
 #include <stdlib.h>
+#include <string.h>
  
 #include <gsl/gsl_rng.h>
 #include "tools.h"
@@ -40,7 +41,8 @@ main(int argc, char **argv)
   double Tsched = 0.995, Tf = 0.0;
   double iterfac = 1.0;
   gsl_rng *rand_gen;
-  char *netF;
+  char *netF = "-";
+  char netFName[1000];
   /*
     ------------------------------------------------------------
     Prompt for user-defined parameters
@@ -50,10 +52,11 @@ main(int argc, char **argv)
   if (argc == 1) {
 
   printf("\n# Enter random number seed (POSITIVE integer): ");
-  scanf("%d", &seed);
+  scanf("%ld", &seed);
 
   printf("\n# Enter the name of the network file: ");
-  scanf("%s", &netF);
+  scanf("%999s", netFName);
+  netF = netFName;
 
   printf("\n# Enter iteration factor (recommended 1.0): ");
   scanf("%lf", &iterfac);
@@ -104,9 +107,17 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
   */
   fprintf(stderr, "\n# Creating the network\n");
 
-  inFile=fopen(netF,"r");
+  if (strcmp(netF, "-") == 0)
+    inFile = stdin;
+  else
+    inFile = fopen(netF, "r");
+  if (inFile == NULL) {
+    perror(netF);
+    return EXIT_FAILURE;
+  }
   net = FBuildNetwork(inFile, 0, 0, 0, 1);
-  fclose(inFile);
+  if (inFile != stdin)
+    fclose(inFile);
 
   S = CountNodes(net);
   fprintf(stderr, "\n# The network has %d nodes\n", S);
-- 
2.43.0


From 610e3d767596f833bf63ce8a63b202fa3adcd1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:04 +0000
Subject: [PATCH 60/68] fix: pattern of connections: probability inside a
 group, expected links between groups

---
 src/modules.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index df80cb6..be78f6a 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -785,7 +785,7 @@ BlockModel(struct group *part, char type_sw, int list_sw)
 	    break;
 	  case 'p':
 	    if (g1 == g2)
-	      bij = (double)NG2GLinks(g1, g2) /
+	      bij = 2.0 * (double)NG2GLinks(g1, g2) /
 		(double)(g1->size * (g1->size - 1));
 	    else
 	      bij = (double)NG2GLinks(g1, g2) /
@@ -801,7 +801,7 @@ BlockModel(struct group *part, char type_sw, int list_sw)
 	      bij = (double)NG2GLinks(g1, g2) / (double)links -
 		(double)((g1->inlinks + g1->totlinks) *
 			 (g2->inlinks + g2->totlinks)) /
-		((double)(4 * links * links));
+		((double)(2 * links * links));
 	    break;
 	  case 'z':
 	    if (g1 == g2) {
-- 
2.43.0


From 4da089faa81d96e054872878b2e537db203ad279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:04 +0000
Subject: [PATCH 61/68] fix: pattern of connections of networks with many links

---
 src/modules.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index be78f6a..e0bef30 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -794,14 +794,14 @@ BlockModel(struct group *part, char type_sw, int list_sw)
 	  case 'e':
 	    if (g1 == g2)
 	      bij = (double)g1->inlinks / (double)links -
-		(double)((g1->inlinks + g1->totlinks) *
-			 (g2->inlinks + g2->totlinks)) /
-		((double)(4 * links * links));
+		(double)(g1->inlinks + g1->totlinks) *
+		(double)(g2->inlinks + g2->totlinks) /
+		(4.0 * (double)links * (double)links);
 	    else
 	      bij = (double)NG2GLinks(g1, g2) / (double)links -
-		(double)((g1->inlinks + g1->totlinks) *
-			 (g2->inlinks + g2->totlinks)) /
-		((double)(2 * links * links));
+		(double)(g1->inlinks + g1->totlinks) *
+		(double)(g2->inlinks + g2->totlinks) /
+		(2.0 * (double)links * (double)links);
 	    break;
 	  case 'z':
 	    if (g1 == g2) {
-- 
2.43.0


From d36917bae787fd26aa59b4c1d9dbb6243b2b4ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:45 +0000
Subject: [PATCH 62/68] fix: betweenness of networks with many shortest paths
 between two nodes

---
 src/graph.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 600495a..670ca9d 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2282,8 +2282,8 @@ CalculateNodeBetweenness(struct node_gra *net)
   struct stack *S;
   struct queue *Q;
   struct queue **P;
-  int *sigma, *d;
-  double *delta;
+  int *d;
+  double *sigma, *delta;
   int nnod = CountNodes(net);
   int i;
 
@@ -2297,17 +2297,17 @@ CalculateNodeBetweenness(struct node_gra *net)
   while ((s = s->next) != NULL) {
     S = stack_create();
     P = (struct queue **)calloc(nnod, sizeof(struct queue *));
-    sigma = allocate_i_vec(nnod);
+    sigma = allocate_d_vec(nnod);
     d = allocate_i_vec(nnod);
     delta = allocate_d_vec(nnod);
     Q = queue_create();
     for (i=0; i<nnod; i++) {
       P[i] = queue_create();
-      sigma[i] = 0;
+      sigma[i] = 0.0;
       d[i] = -1;
       delta[i] = 0.0;
     }
-    sigma[s->num] = 1;
+    sigma[s->num] = 1.0;
     d[s->num] = 0;
     queue_enqueue(Q, (void *)s);
     while (!queue_empty(Q)) {
@@ -2346,7 +2346,7 @@ CalculateNodeBetweenness(struct node_gra *net)
       queue_free(P[i]);
     }
     free(P);
-    free_i_vec(sigma);
+    free_d_vec(sigma);
     free_i_vec(d);
     free_d_vec(delta);
     queue_free(Q);
-- 
2.43.0


From 60177a22c7073181188453445ed2ba2186cf9334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:03 +0000
Subject: [PATCH 63/68] fix: degree statistics, clustering and assortativity of
 networks with hubs

---
 src/graph.c | 60 ++++++++++++++++++++++++++---------------------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 670ca9d..29f5bc6 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1426,15 +1426,16 @@ double
 AverageSquaredDegree(struct node_gra *root)
 {
   struct node_gra *p=root;
-  int k, nnod=0, k2sum=0;
+  int k, nnod=0;
+  double k2sum=0.0;
 
   while ((p = p->next) != NULL) {
     nnod++;
     k = NodeDegree(p);
-    k2sum += k * k;
+    k2sum += (double)k * k;
   }
 
-  return (double)k2sum / (double)nnod;
+  return k2sum / (double)nnod;
 
 }
 
@@ -1802,7 +1803,7 @@ ClusteringCoefficient(struct node_gra *root)
     if(k_v>1){
       p->state = 0;
       C_v = CalculateLinksBetweenNeig(list,root);
-      C_av += (double)C_v/(double)(k_v*(k_v-1));
+      C_av += (double)C_v/((double)k_v*(k_v-1));
     }
     else {
       nodes--;
@@ -1827,11 +1828,11 @@ ClusteringCoefficient2(struct node_gra *root)
   int nodes,*size,res_size;
   struct node_bfs *list;
   struct node_gra *p = root;
-  int tri,ctr;  //#triangles and #connected triplets
+  double tri,ctr;  //#triangles and #connected triplets
   int k_v;
   double C;
 
-  tri = ctr = 0;
+  tri = ctr = 0.0;
   res_size = 0;
   size = &res_size;
   list = CreateHeaderList();
@@ -1850,14 +1851,14 @@ ClusteringCoefficient2(struct node_gra *root)
     if(k_v>1){
       p->state = 0;
       tri += CalculateLinksBetweenNeig(list,root);
-      ctr += k_v*(k_v-1);
+      ctr += (double)k_v*(k_v-1);
     }
     else
       nodes--;
     ClearList(list,size);
   }
 
-  C = (double)tri/(double)ctr;
+  C = tri/ctr;
 
   free(list);
   return C;
@@ -1877,7 +1878,7 @@ SquareClustering(struct node_gra *root)
   struct node_gra *p = root;
   double C_av;
   int k1,k2;
-  int C_v;
+  double C_v;
   int npre;
   int totnodes;
   int k1b;
@@ -1914,16 +1915,16 @@ SquareClustering(struct node_gra *root)
 	  // second neighbor
       printf("%d %d = %d %d\n",p->num+1,k1,k1b,totnodes);
     
-      C_v = 0;
+      C_v = 0.0;
       while(pl != NULL){
 	k2++;
 	npre = CountPredecessors(pl);
-	C_v += npre*(npre-1);
+	C_v += (double)npre*(npre-1);
 	pl = pl->next;
       }
 
       if(k1>1 && k2>0){
-	C_av += (double)(C_v)/(double)(k2*k1*(k1-1));
+	C_av += C_v/((double)k2*k1*(k1-1));
       }
       else
 	nodes--;
@@ -1991,7 +1992,7 @@ OneNodeSquareClustering(struct node_gra *node,
   struct node_bfs *lp;
   struct node_bfs *pl;
   int k1,k2;
-  int C_v;
+  double C_v;
   int npre;
   double T;
   int sizeant;
@@ -2024,11 +2025,11 @@ OneNodeSquareClustering(struct node_gra *node,
     }   // count first neighbors and place the pointer at the first
 	// second neighbor
     
-    C_v = 0;
+    C_v = 0.0;
     while(pl != NULL){
       k2++;
       npre = CountPredecessors(pl);
-      C_v += npre*(npre-1);
+      C_v += (double)npre*(npre-1);
       pl = pl->next;
     }
 
@@ -2038,7 +2039,7 @@ OneNodeSquareClustering(struct node_gra *node,
   else
     return -3; // all nodes are first neighbors!!
   
-  T = (double)C_v/((double)k2*(double)k1*(double)(k1-1));
+  T = C_v/((double)k2*(double)k1*(double)(k1-1));
 
   ClearList(list,size);
   free(list);
@@ -2398,16 +2399,16 @@ Assortativity(struct node_gra *net)
   struct node_gra *p;
   struct node_lis *li;
   int *deg;
-  int jk,jpk,j2pk2;
-  int M;
+  double jk,jpk,j2pk2;
+  double M;
   double r;
 
   // Initialize variables
   deg = allocate_i_vec(CountNodes(net));
-  M = 0;
-  jk = 0;
-  jpk = 0;
-  j2pk2 = 0;
+  M = 0.0;
+  jk = 0.0;
+  jpk = 0.0;
+  j2pk2 = 0.0;
 
   // Calculate nodes degrees
   p = net;
@@ -2421,18 +2422,15 @@ Assortativity(struct node_gra *net)
   while ((p = p->next) != NULL) {
     li = p->neig;
     while ((li = li->next) != NULL) {
-      jk += deg[p->num] * deg[(li->ref)->num];
-      jpk += deg[p->num] + deg[(li->ref)->num];
-      j2pk2 += deg[p->num] * deg[p->num] + 
-	deg[(li->ref)->num] * deg[(li->ref)->num];
+      jk += (double)deg[p->num] * deg[(li->ref)->num];
+      jpk += (double)deg[p->num] + deg[(li->ref)->num];
+      j2pk2 += (double)deg[p->num] * deg[p->num] + 
+	(double)deg[(li->ref)->num] * deg[(li->ref)->num];
     }
   }
 
-  r = ((double)jk / (double)M - ((double)jpk / (double)(2 * M)) *
-       ((double)jpk / (double)(2 * M))) / 
-    ((double)j2pk2 / (double)(2 * M) -
-     ((double)jpk / (double)(2 * M)) *
-     ((double)jpk / (double)(2 * M)));
+  r = (jk / M - (jpk / (2.0 * M)) * (jpk / (2.0 * M))) /
+    (j2pk2 / (2.0 * M) - (jpk / (2.0 * M)) * (jpk / (2.0 * M)));
 
   // Free memory and return
   free_i_vec(deg);
-- 
2.43.0


From b726373e1ce082a1306c0907856b0fe9f98f38e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:14 +0000
Subject: [PATCH 64/68] fix: distances in networks with paths of 10000 links or
 more

---
 src/graph.c | 47 ++++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 29f5bc6..bec70d4 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1485,7 +1485,7 @@ NodeStrength(struct node_gra *node)
 void
 FPrintDistanceHistogram(FILE *file, struct node_gra *root)
 {
-  double histogram[10000];
+  double *histogram; // by distance, shorter than the number of nodes
   int a, d, nodes, *size, i, counter, size_ant;
   struct node_gra *p = root;
   struct node_bfs *list, *lp;
@@ -1496,15 +1496,15 @@ FPrintDistanceHistogram(FILE *file, struct node_gra *root)
 
   list = CreateHeaderList();
 
-  for(i = 0;i<10000;i++)
+  nodes = CountNodes(root);
+  histogram = allocate_d_vec(nodes + 2);
+  for(i = 0;i<nodes+2;i++)
     histogram[i] = 0.0;
 
   counter = 0;
   a = 0;
   size = &a;
 
-  nodes = CountNodes(root);
-
   p = root;
   while(p->next != NULL){
     counter++;
@@ -1530,7 +1530,7 @@ FPrintDistanceHistogram(FILE *file, struct node_gra *root)
 
   // Output the histogram
   av_dis = norm = 0.0;
-  for(i = 0;i<10000;i++){
+  for(i = 0;i<nodes+2;i++){
     if(histogram[i] != 0.0){
       fprintf(file,"%d %lf\n",i,histogram[i]/(double)(nodes-1));
       av_dis += (double)(i)*histogram[i]/(double)(nodes-1);
@@ -1541,6 +1541,7 @@ FPrintDistanceHistogram(FILE *file, struct node_gra *root)
   fprintf(file,"#Normalization = %lf\n",norm);
   fprintf(file,"#z = %lf\n",histogram[1]);
 
+  free_d_vec(histogram);
   free_i_mat(max_dis_pairs, CountNodes(root));
   free(list);
 }
@@ -1554,7 +1555,7 @@ FPrintDistanceHistogramFromNode(FILE *file,
 				struct node_gra *root,
 				int orinode)
 {
-  double histogram[10000];
+  double *histogram; // by distance, shorter than the number of nodes
   int a,d,nodes,*size,i,counter,size_ant;
   struct node_gra *p = root;
   struct node_bfs *list,*lp;
@@ -1562,15 +1563,15 @@ FPrintDistanceHistogramFromNode(FILE *file,
 
   list = CreateHeaderList();
 
-  for(i = 0;i<10000;i++)
+  nodes = CountNodes(root);
+  histogram = allocate_d_vec(nodes + 2);
+  for(i = 0;i<nodes+2;i++)
     histogram[i] = 0.0;
 
   counter = 0;
   a = 0;
   size = &a;
 
-  nodes = CountNodes(root);
-
   p = root;
   while(p->next != NULL){
     counter++;
@@ -1597,7 +1598,7 @@ FPrintDistanceHistogramFromNode(FILE *file,
   }
 
   av_dis = norm = 0.0;
-  for(i = 0;i<10000;i++){
+  for(i = 0;i<nodes+2;i++){
     if(histogram[i] != 0.0){
 /*       fprintf(file,"%d %lf\n",i,histogram[i]); */
       av_dis += (double)(i)*histogram[i]/(double)(nodes-1);
@@ -1608,6 +1609,7 @@ FPrintDistanceHistogramFromNode(FILE *file,
 /*   fprintf(file,"#Normalization = %lf\n",norm); */
   fprintf(file,"#z = %lf\n",histogram[1]);
 
+  free_d_vec(histogram);
   free(list);
 }
 
@@ -1617,7 +1619,7 @@ FPrintDistanceHistogramFromNode(FILE *file,
 double
 AveragePathLength(struct node_gra *root)
 {
-  double histogram[10000];
+  double *histogram; // by distance, shorter than the number of nodes
   int a, d, nodes, *size, i, counter, size_ant;
   struct node_gra *p=root;
   struct node_bfs *list,*lp;
@@ -1625,14 +1627,14 @@ AveragePathLength(struct node_gra *root)
 
   list = CreateHeaderList();
 
-  for(i = 0;i<10000;i++)
+  nodes = CountNodes(root);
+  histogram = allocate_d_vec(nodes + 2);
+  for(i = 0;i<nodes+2;i++)
     histogram[i] = 0.0;
 
   counter = 0;
   a = 0;
   size = &a;
-
-  nodes = CountNodes(root);
   
   p = root;
   while(p->next != NULL){
@@ -1657,6 +1659,7 @@ AveragePathLength(struct node_gra *root)
       printf("Sorry, the network is not connected!\n");
       ClearList(list,size);
       free(list);
+      free_d_vec(histogram);
       return -1;
     }
 
@@ -1664,12 +1667,13 @@ AveragePathLength(struct node_gra *root)
   }
 
   av_dis = norm = 0.0;
-  for(i = 0;i<10000;i++){
+  for(i = 0;i<nodes+2;i++){
     if(histogram[i] != 0.0){
       av_dis += (double)(i)*histogram[i]/(double)(nodes-1);
     }
   }
 
+  free_d_vec(histogram);
   free(list);
 
   return av_dis;
@@ -1682,7 +1686,7 @@ AveragePathLength(struct node_gra *root)
 double
 AverageInverseDistance(struct node_gra *root)
 {
-  double histogram[10000];
+  double *histogram; // by distance, shorter than the number of nodes
   int a,d,nodes,*size,i,counter,size_ant;
   struct node_gra *p = root;
   struct node_bfs *list,*lp;
@@ -1690,14 +1694,14 @@ AverageInverseDistance(struct node_gra *root)
 
   list = CreateHeaderList();
 
-  for(i = 0; i<10000; i++)
+  nodes = CountNodes(root);
+  histogram = allocate_d_vec(nodes + 2);
+  for(i = 0; i<nodes+2; i++)
     histogram[i] = 0.0;
 
   counter = 0;
   a = 0;
   size = &a;
-
-  nodes = CountNodes(root);
   
   p = root;
   while(p->next !=  NULL){
@@ -1723,12 +1727,13 @@ AverageInverseDistance(struct node_gra *root)
 
   // Calculate the average inverse distance
   av_dis = norm = 0.0;
-  for(i = 0; i<10000; i++){
+  for(i = 0; i<nodes+2; i++){
     if(histogram[i] !=  0.0){
-      av_dis +=  histogram[i]/(double)( i * (nodes-1) );
+      av_dis +=  histogram[i]/((double)i * (nodes-1));
     }
   }
 
+  free_d_vec(histogram);
   free(list);
 
   return av_dis;
-- 
2.43.0


From 9e2332395f753bf1e54c11665d72862ad93bf576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:09 +0000
Subject: [PATCH 65/68] fix: bipartite modularity of networks with large teams

---
 src/bipartite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index d3cb176..ea16a1b 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -858,7 +858,7 @@ ModularityBipart(struct binet *binet, struct group *part)
   /* Calculate sms=sum(m_s) and sms2=sum(m_s^2) */
   while ((p = p->next) != NULL) {
     sms += (double)NodeDegree(p);
-    sms2 += (double)(NodeDegree(p) * NodeDegree(p));
+    sms2 += (double)NodeDegree(p) * (double)NodeDegree(p);
   }
   s2ms = sms * sms;
 
@@ -872,7 +872,7 @@ ModularityBipart(struct binet *binet, struct group *part)
         t1 = NodeDegree(n1->ref);
         t2 = NodeDegree(n2->ref);
 
-	      bimod += (double)c12 / (sms2 - sms) - (double)(t1 * t2) / s2ms;
+	      bimod += (double)c12 / (sms2 - sms) - (double)t1 * (double)t2 / s2ms;
       }
     }
   }
-- 
2.43.0


From 1bb46def9bc8ee20a9aee646601f2f2ef1e56821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:45 +0000
Subject: [PATCH 66/68] fix: number of moves of searches in networks of more
 than 46340 nodes

---
 src/modules.c    | 4 ++--
 src/sannealing.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index e0bef30..924f9ae 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -2377,10 +2377,10 @@ SACommunityIdent(struct node_gra *net,
     Determine the number of iterations at each temperature
     -------------------------------------------------------------------
   */
-  if (fac * (double)(nnod * nnod) < 10)
+  if (fac * (double)nnod * (double)nnod < 10)
     cicle1 = 10;
   else
-    cicle1 = floor(fac * (double)(nnod * nnod));
+    cicle1 = floor(fac * (double)nnod * (double)nnod);
   if (ngroup < 2)      /* there is no other group to move to */
     cicle1 = 0;
 
diff --git a/src/sannealing.c b/src/sannealing.c
index 42f66a1..f989ca2 100644
--- a/src/sannealing.c
+++ b/src/sannealing.c
@@ -61,10 +61,10 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
   explain ("#nochang_limit: %d, proba_components: %f \n",nochange_limit, proba_components);
 
   // Get the number of individual and collective movements.
-  if (fac * (double)(part->N * part->N) < 10)
+  if (fac * (double)part->N * (double)part->N < 10)
 	individual_movements = 10;
   else
-	individual_movements = floor(fac * (double)(part->N * part->N));
+	individual_movements = floor(fac * (double)part->N * (double)part->N);
   if (fac * (double)part->N < 2)
 	collective_movements = 2;
   else
-- 
2.43.0


From a0c891430722a69f9f6085a579352cc23e74a1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:57 +0000
Subject: [PATCH 67/68] fix: labels of 100 characters or more, unfinished
 partitions and queries are refused when read

They overwrote memory beyond the labels, or were read for ever.
---
 src/bipartite.c |  5 +++++
 src/graph.c     | 26 ++++++++++++++++++++++++++
 src/graph.h     |  1 +
 src/io.c        | 23 +++++++++++++++++++++++
 src/modules.c   | 19 +++++++++++--------
 src/recommend.c |  9 +++++++--
 src/tools.c     |  2 ++
 7 files changed, 75 insertions(+), 10 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index ea16a1b..9504841 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -72,6 +72,11 @@ FBuildNetworkBipart(FILE *inFile,
 
   
   while ((nbytes = getline(&line, &bufsiz, inFile)) != -1){
+    if (!LabelsFit(line)) {
+      printf ("Failed to read input: label too long in line %s. \n", line);
+      return NULL;
+    }
+
     /* Read the labels (and weight, if necessary) */
     if (weight_sw == 0) {
       noReadItems = sscanf(line, "%s %s", label1, label2);
diff --git a/src/graph.c b/src/graph.c
index bec70d4..045157a 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -526,6 +526,27 @@ NodeTreeLabelCompare(const void *n1, const void *n2)
 		((const struct node_tree *) n2)->label);
 }
 
+/*
+  ---------------------------------------------------------------------
+  Check that the first two words of a line are short enough to be
+  labels.
+  ---------------------------------------------------------------------
+*/
+int
+LabelsFit(char *line)
+{
+  int i;
+
+  for (i=0; i<2; i++) {
+    line += strspn(line, " \t\n\v\f\r");
+    if (strcspn(line, " \t\n\v\f\r") >= MAX_LABEL_LENGTH)
+      return 0;
+    line += strcspn(line, " \t\n\v\f\r");
+  }
+
+  return 1;
+}
+
 // ---------------------------------------------------------------------
 // Builds a network from an imput file, which contains the list of
 // links in the network (and, maybe, the weight of each link).
@@ -553,6 +574,11 @@ FBuildNetwork(FILE *inFile,
   
   // Go through the input file
   while ((nbytes = getline(&line, &bufsiz, inFile)) != -1){
+    if (!LabelsFit(line)) {
+      printf ("Failed to read input: label too long in line %s. \n", line);
+      return NULL;
+    }
+
     /* Read the labels (and weight, if necessary) */
     if (weight_sw == 0) {
       noReadItems = sscanf(line, "%s %s", label1, label2);
diff --git a/src/graph.h b/src/graph.h
index c923126..30f39c9 100644
--- a/src/graph.h
+++ b/src/graph.h
@@ -129,6 +129,7 @@ void FreeLabelDict(void *dict);
   Network input
   ---------------------------------------------------------------------
 */
+int LabelsFit(char *line);
 int NodeTreeLabelCompare(const void *n1,
 			 const void *n2);
 struct node_gra *FBuildNetwork(FILE *inFile,
diff --git a/src/io.c b/src/io.c
index fd52e68..db4faba 100644
--- a/src/io.c
+++ b/src/io.c
@@ -16,6 +16,24 @@ node_compare(const void *node1, const void *node2)
 }
 
 
+/**
+Check that the first two words of a line are short enough to be labels.
+*/
+static int
+labels_fit(const char *line)
+{
+  int i;
+
+  for (i=0; i<2; i++) {
+    line += strspn(line, " \t\n\v\f\r");
+    if (strcspn(line, " \t\n\v\f\r") >= MAX_LABEL_LENGTH)
+      return 0;
+    line += strcspn(line, " \t\n\v\f\r");
+  }
+
+  return 1;
+}
+
 struct node_t
 {
   /* Callers expect this to be the first element in the structure - do not
@@ -91,6 +109,11 @@ EdgeListFileInput(FILE *inFile, int weighted, int bipartite, unsigned int **node
   while ((nbytes = getline(&line, &bufsiz, inFile)) != -1){
     //printf("N=%d/%d, E=%d/%d\n",N,Nmax,E,Emax);
 
+    if (!labels_fit(line)) {
+      printf ("Failed to read input: label too long in line %s. \n", line);
+      return 1;
+    }
+
     struct node *node1 = malloc(sizeof(struct node));
     struct node *node2 = malloc(sizeof(struct node));
     struct node *temp = NULL;
diff --git a/src/modules.c b/src/modules.c
index 924f9ae..f0f3099 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -143,7 +143,7 @@ FReadPartition(FILE *inF){
 struct group *
 FCreatePartition(FILE *inF)
 {
-  char label[MAX_LABEL_LENGTH];
+  char label[MAX_LABEL_LENGTH+1];
   char *separator = "///";
   struct group *g = NULL;
   struct group *part = NULL;
@@ -157,16 +157,19 @@ FCreatePartition(FILE *inF)
   while (!feof(inF)) {
     g = CreateGroup(part, npart);
     npart++;
-    noReadItems = fscanf(inF, "%s\n", &label[0]);
-	if (noReadItems != 1)
-	  printf ("Failed to read input, incorrect field number (%d != 1)\n",noReadItems);
+    noReadItems = fscanf(inF, "%100s\n", &label[0]);
+	if (noReadItems != 1 || strlen(label) >= MAX_LABEL_LENGTH) {
+	  printf ("Failed to read input, incorrect field number (%d != 1) or label\n",noReadItems);
+	  return NULL;
+	}
 
     while (strcmp(label, separator) != 0) {
       AddNodeToGroupSoft(g, label);
-      noReadItems = fscanf(inF, "%s\n", &label[0]);
-	  if (noReadItems != 1)
-		printf ("Failed to read input, incorrect field number (%d != 1)\n",noReadItems);
-
+      noReadItems = fscanf(inF, "%100s\n", &label[0]);
+	  if (noReadItems != 1 || strlen(label) >= MAX_LABEL_LENGTH) {
+		printf ("Failed to read input, incorrect field number (%d != 1) or label\n",noReadItems);
+		return NULL;
+	  }
     }
   }
 
diff --git a/src/recommend.c b/src/recommend.c
index 8efa731..2e34635 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -159,7 +159,7 @@ struct query **
 ReadQueries(FILE *inFile, int nQueries, struct binet *binet)
 {
   void *dict1, *dict2;
-  char node1[MAX_LABEL_LENGTH], node2[MAX_LABEL_LENGTH];
+  char node1[MAX_LABEL_LENGTH+1], node2[MAX_LABEL_LENGTH+1];
   struct query **querySet;
   struct query *q=NULL;
   int nq;
@@ -175,7 +175,12 @@ ReadQueries(FILE *inFile, int nQueries, struct binet *binet)
 
   /* Go through the file and create the queries */
   for (nq=0; nq<nQueries; nq++) {
-    dummy = fscanf(inFile, "%s %s\n", &node1[0], &node2[0]);
+    dummy = fscanf(inFile, "%100s %100s\n", &node1[0], &node2[0]);
+    if (dummy != 2 || strlen(node1) >= MAX_LABEL_LENGTH ||
+	strlen(node2) >= MAX_LABEL_LENGTH) {
+      printf ("Failed to read input: query %d is not a pair of labels.\n", nq+1);
+      return NULL;
+    }
     n1 = GetNodeDict(node1, dict1);
     /* add to binet if absent */
     if (n1 == NULL) {
diff --git a/src/tools.c b/src/tools.c
index 10f68a3..ab1d74a 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -614,6 +614,8 @@ CountLinesInFile(char *inFileName)
   FILE *inFile;
 
   inFile = fopen(inFileName, "r");
+  if (inFile == NULL)
+    return 0;
   while (fgets(line, 1000, inFile)) {
     if (!unfinished)
       n++;
-- 
2.43.0


From dff3d3fba57e60bed2416be93661b63934d8a84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:57 +0000
Subject: [PATCH 68/68] fix: programs refuse files that are missing or
 malformed

They crashed on them.
---
 conflict/main_conflict.c                          |  6 ++++++
 multiblock/main_reliability_links_mb.c            |  6 ++++++
 multiblock/main_reliability_links_mb_OR.c         |  6 ++++++
 multiblock/main_reliability_links_mb_gibbs.c      |  6 ++++++
 multiblock/main_reliability_links_mb_gibbs_OR.c   |  6 ++++++
 netcarto/main_netcarto_legacy.c                   |  2 ++
 only_deg/main_only_degeneration_mb.c              |  6 ++++++
 only_deg/main_only_degeneration_mb_gibbs.c        |  6 ++++++
 recommender/main_multi_recommend_2.c              | 12 ++++++++++++
 recommender/main_multi_recommend_k.c              | 12 ++++++++++++
 recommender/main_multi_recommend_k_gibbs.c        | 12 ++++++++++++
 reliability/main_reliability_links.c              |  6 ++++++
 reliability/main_reliability_links_gibbs.c        |  6 ++++++
 reliability/main_reliability_links_gibbs_sparse.c |  6 ++++++
 reliability/main_reliability_links_k.c            |  6 ++++++
 reliability/main_reliability_reconstruct.c        |  6 ++++++
 utils/main_bipartitemodularity.c                  | 12 ++++++++++++
 utils/main_bipartitemodularity_w.c                | 12 ++++++++++++
 utils/main_countlinks.c                           |  6 ++++++
 utils/main_getgiant.c                             |  6 ++++++
 utils/main_lapspec.c                              |  6 ++++++
 utils/main_multinetlayout.c                       |  6 ++++++
 utils/main_mutualinfo.c                           | 12 ++++++++++++
 utils/main_netcompare.c                           | 12 ++++++++++++
 utils/main_netlayout.c                            |  8 +++++++-
 utils/main_netprop.c                              |  6 ++++++
 utils/main_netrandomize.c                         |  6 ++++++
 utils/main_nodeprop.c                             |  6 ++++++
 28 files changed, 207 insertions(+), 1 deletion(-)

diff --git a/conflict/main_conflict.c b/conflict/main_conflict.c
index a53100f..4921171 100644
--- a/conflict/main_conflict.c
+++ b/conflict/main_conflict.c
@@ -42,8 +42,14 @@ main(int argc, char **argv)
 
   /* Build the observation network */
   infile = fopen(obsFile, "r");
+  if (infile == NULL) {
+    perror(obsFile);
+    return EXIT_FAILURE;
+  }
   ratings = ReadRecommenderObservations(infile);
   fclose(infile);
+  if (ratings == NULL)
+    return EXIT_FAILURE;
   nquery = CountNodes(ratings->net1) * CountNodes(ratings->net2);
 
   /* Get the scores and print them */
diff --git a/multiblock/main_reliability_links_mb.c b/multiblock/main_reliability_links_mb.c
index c58b9e5..049df57 100644
--- a/multiblock/main_reliability_links_mb.c
+++ b/multiblock/main_reliability_links_mb.c
@@ -45,8 +45,14 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return EXIT_FAILURE;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
   fclose(infile);
+  if (net == NULL)
+    return EXIT_FAILURE;
 
   /*
     ---------------------------------------------------------------------------
diff --git a/multiblock/main_reliability_links_mb_OR.c b/multiblock/main_reliability_links_mb_OR.c
index 87687e4..c01e1ed 100644
--- a/multiblock/main_reliability_links_mb_OR.c
+++ b/multiblock/main_reliability_links_mb_OR.c
@@ -45,8 +45,14 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return EXIT_FAILURE;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
   fclose(infile);
+  if (net == NULL)
+    return EXIT_FAILURE;
 
   /*
     ---------------------------------------------------------------------------
diff --git a/multiblock/main_reliability_links_mb_gibbs.c b/multiblock/main_reliability_links_mb_gibbs.c
index 1553725..df8d09a 100644
--- a/multiblock/main_reliability_links_mb_gibbs.c
+++ b/multiblock/main_reliability_links_mb_gibbs.c
@@ -45,8 +45,14 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return EXIT_FAILURE;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
   fclose(infile);
+  if (net == NULL)
+    return EXIT_FAILURE;
 
   /*
     ---------------------------------------------------------------------------
diff --git a/multiblock/main_reliability_links_mb_gibbs_OR.c b/multiblock/main_reliability_links_mb_gibbs_OR.c
index 972f846..8ddd24c 100644
--- a/multiblock/main_reliability_links_mb_gibbs_OR.c
+++ b/multiblock/main_reliability_links_mb_gibbs_OR.c
@@ -45,8 +45,14 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return EXIT_FAILURE;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
   fclose(infile);
+  if (net == NULL)
+    return EXIT_FAILURE;
 
   /*
     ---------------------------------------------------------------------------
diff --git a/netcarto/main_netcarto_legacy.c b/netcarto/main_netcarto_legacy.c
index 6f2b767..837b88e 100644
--- a/netcarto/main_netcarto_legacy.c
+++ b/netcarto/main_netcarto_legacy.c
@@ -118,6 +118,8 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
   net = FBuildNetwork(inFile, 0, 0, 0, 1);
   if (inFile != stdin)
     fclose(inFile);
+  if (net == NULL)
+    return EXIT_FAILURE;
 
   S = CountNodes(net);
   fprintf(stderr, "\n# The network has %d nodes\n", S);
diff --git a/only_deg/main_only_degeneration_mb.c b/only_deg/main_only_degeneration_mb.c
index fc3d4d5..d1dc103 100644
--- a/only_deg/main_only_degeneration_mb.c
+++ b/only_deg/main_only_degeneration_mb.c
@@ -45,8 +45,14 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return EXIT_FAILURE;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
   fclose(infile);
+  if (net == NULL)
+    return EXIT_FAILURE;
 
   /*
     ---------------------------------------------------------------------------
diff --git a/only_deg/main_only_degeneration_mb_gibbs.c b/only_deg/main_only_degeneration_mb_gibbs.c
index 01bd70c..7280c39 100644
--- a/only_deg/main_only_degeneration_mb_gibbs.c
+++ b/only_deg/main_only_degeneration_mb_gibbs.c
@@ -45,8 +45,14 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return EXIT_FAILURE;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
   fclose(infile);
+  if (net == NULL)
+    return EXIT_FAILURE;
 
   /*
     ---------------------------------------------------------------------------
diff --git a/recommender/main_multi_recommend_2.c b/recommender/main_multi_recommend_2.c
index c4e2e81..13291c1 100644
--- a/recommender/main_multi_recommend_2.c
+++ b/recommender/main_multi_recommend_2.c
@@ -44,15 +44,27 @@ main(int argc, char **argv)
 
   /* Build the observations */
   infile = fopen(obsFile, "r");
+  if (infile == NULL) {
+    perror(obsFile);
+    return EXIT_FAILURE;
+  }
   ratings = ReadRecommenderObservations(infile);
   fclose(infile);
+  if (ratings == NULL)
+    return EXIT_FAILURE;
 
   /* Get the number of queries and build the query set */
   nquery = CountLinesInFile(queFile);
   fprintf(stderr, ">> %d queries\n", nquery);
   infile = fopen(queFile, "r");
+  if (infile == NULL) {
+    perror(queFile);
+    return EXIT_FAILURE;
+  }
   queries = ReadQueries(infile, nquery, ratings);
   fclose(infile);
+  if (queries == NULL)
+    return EXIT_FAILURE;
 
   /* Get the scores of the queries and print them */
 /*   scores = MultiLinkScore2State(ratings, */
diff --git a/recommender/main_multi_recommend_k.c b/recommender/main_multi_recommend_k.c
index 16a01e7..9073066 100644
--- a/recommender/main_multi_recommend_k.c
+++ b/recommender/main_multi_recommend_k.c
@@ -46,15 +46,27 @@ main(int argc, char **argv)
 
   /* Build the observations */
   infile = fopen(obsFile, "r");
+  if (infile == NULL) {
+    perror(obsFile);
+    return EXIT_FAILURE;
+  }
   ratings = ReadRecommenderObservations(infile);
   fclose(infile);
+  if (ratings == NULL)
+    return EXIT_FAILURE;
 
   /* Get the number of queries and build the query set */
   nquery = CountLinesInFile(queFile);
   fprintf(stderr, ">> %d queries\n", nquery);
   infile = fopen(queFile, "r");
+  if (infile == NULL) {
+    perror(queFile);
+    return EXIT_FAILURE;
+  }
   queries = ReadQueries(infile, nquery, ratings);
   fclose(infile);
+  if (queries == NULL)
+    return EXIT_FAILURE;
 
   /* Get the scores of the queries and print them */
   scores = MultiLinkScoreKState(K, ratings,
diff --git a/recommender/main_multi_recommend_k_gibbs.c b/recommender/main_multi_recommend_k_gibbs.c
index aa48c9a..be5aac0 100644
--- a/recommender/main_multi_recommend_k_gibbs.c
+++ b/recommender/main_multi_recommend_k_gibbs.c
@@ -46,15 +46,27 @@ main(int argc, char **argv)
 
   /* Build the observations */
   infile = fopen(obsFile, "r");
+  if (infile == NULL) {
+    perror(obsFile);
+    return EXIT_FAILURE;
+  }
   ratings = ReadRecommenderObservations(infile);
   fclose(infile);
+  if (ratings == NULL)
+    return EXIT_FAILURE;
 
   /* Get the number of queries end build the query set */
   nquery = CountLinesInFile(queFile);
   fprintf(stderr, ">> %d queries\n", nquery);
   infile = fopen(queFile, "r");
+  if (infile == NULL) {
+    perror(queFile);
+    return EXIT_FAILURE;
+  }
   queries = ReadQueries(infile, nquery, ratings);
   fclose(infile);
+  if (queries == NULL)
+    return EXIT_FAILURE;
 
   /* Get the scores of the queries and print them */
   scores = GibbsMultiLinkScoreKState(K, ratings,
diff --git a/reliability/main_reliability_links.c b/reliability/main_reliability_links.c
index 2924baf..13a177b 100644
--- a/reliability/main_reliability_links.c
+++ b/reliability/main_reliability_links.c
@@ -46,8 +46,14 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return EXIT_FAILURE;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
   fclose(infile);
+  if (net == NULL)
+    return EXIT_FAILURE;
 
   /*
     ---------------------------------------------------------------------------
diff --git a/reliability/main_reliability_links_gibbs.c b/reliability/main_reliability_links_gibbs.c
index 9b24aaa..90647a3 100644
--- a/reliability/main_reliability_links_gibbs.c
+++ b/reliability/main_reliability_links_gibbs.c
@@ -46,8 +46,14 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return EXIT_FAILURE;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
   fclose(infile);
+  if (net == NULL)
+    return EXIT_FAILURE;
 
   /*
     ---------------------------------------------------------------------------
diff --git a/reliability/main_reliability_links_gibbs_sparse.c b/reliability/main_reliability_links_gibbs_sparse.c
index 8475dda..c69d175 100644
--- a/reliability/main_reliability_links_gibbs_sparse.c
+++ b/reliability/main_reliability_links_gibbs_sparse.c
@@ -46,8 +46,14 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return EXIT_FAILURE;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
   fclose(infile);
+  if (net == NULL)
+    return EXIT_FAILURE;
 
   /*
     ---------------------------------------------------------------------------
diff --git a/reliability/main_reliability_links_k.c b/reliability/main_reliability_links_k.c
index 79edad3..69e8f7f 100644
--- a/reliability/main_reliability_links_k.c
+++ b/reliability/main_reliability_links_k.c
@@ -50,8 +50,14 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return EXIT_FAILURE;
+  }
   net = FBuildNetwork(infile, 1, 0, 0, 1);
   fclose(infile);
+  if (net == NULL)
+    return EXIT_FAILURE;
 
   /*
     ---------------------------------------------------------------------------
diff --git a/reliability/main_reliability_reconstruct.c b/reliability/main_reliability_reconstruct.c
index b56ddf4..5ccd4fc 100644
--- a/reliability/main_reliability_reconstruct.c
+++ b/reliability/main_reliability_reconstruct.c
@@ -38,8 +38,14 @@ main(int argc, char **argv)
 
   /* Build the network */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return EXIT_FAILURE;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
   fclose(infile);
+  if (net == NULL)
+    return EXIT_FAILURE;
 
   /* Reconstruct the network */
   rand_gen = gsl_rng_alloc(gsl_rng_mt19937);
diff --git a/utils/main_bipartitemodularity.c b/utils/main_bipartitemodularity.c
index 902a04c..edcbd80 100644
--- a/utils/main_bipartitemodularity.c
+++ b/utils/main_bipartitemodularity.c
@@ -21,14 +21,26 @@ int main(int argc,char* argv[])
   */
   //fprintf(stderr, "Creating the network...");
   inf = fopen(argv[1], "r");
+  if (inf == NULL) {
+    perror(argv[1]);
+    return EXIT_FAILURE;
+  }
   binet = FBuildNetworkBipart(inf, 0, 0);
   fclose(inf);
+  if (binet == NULL)
+    return EXIT_FAILURE;
   //fprintf(stderr, "done.\n");
 
   //fprintf(stderr, "Creating the partition...");
   inf = fopen(argv[2], "r");
+  if (inf == NULL) {
+    perror(argv[2]);
+    return EXIT_FAILURE;
+  }
   part = FCreatePartition(inf);
   fclose(inf);
+  if (part == NULL)
+    return EXIT_FAILURE;
   //fprintf(stderr, "done.\n");
 
   //fprintf(stderr, "Inverting the network...");
diff --git a/utils/main_bipartitemodularity_w.c b/utils/main_bipartitemodularity_w.c
index c914b31..b42734e 100644
--- a/utils/main_bipartitemodularity_w.c
+++ b/utils/main_bipartitemodularity_w.c
@@ -21,14 +21,26 @@ int main(int argc,char* argv[])
   */
   //fprintf(stderr, "Creating the network...");
   inf = fopen(argv[1], "r");
+  if (inf == NULL) {
+    perror(argv[1]);
+    return EXIT_FAILURE;
+  }
   binet = FBuildNetworkBipart(inf, 1, 0);
   fclose(inf);
+  if (binet == NULL)
+    return EXIT_FAILURE;
   //fprintf(stderr, "done.\n");
 
   //fprintf(stderr, "Creating the partition...");
   inf = fopen(argv[2], "r");
+  if (inf == NULL) {
+    perror(argv[2]);
+    return EXIT_FAILURE;
+  }
   part = FCreatePartition(inf);
   fclose(inf);
+  if (part == NULL)
+    return EXIT_FAILURE;
   //fprintf(stderr, "done.\n");
 
   //fprintf(stderr, "Inverting the network...");
diff --git a/utils/main_countlinks.c b/utils/main_countlinks.c
index 40e54ef..e862eb4 100644
--- a/utils/main_countlinks.c
+++ b/utils/main_countlinks.c
@@ -35,8 +35,14 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return EXIT_FAILURE;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
   fclose(infile);
+  if (net == NULL)
+    return EXIT_FAILURE;
 
   /*
     ---------------------------------------------------------------------------
diff --git a/utils/main_getgiant.c b/utils/main_getgiant.c
index b454f0a..4c107a5 100644
--- a/utils/main_getgiant.c
+++ b/utils/main_getgiant.c
@@ -21,8 +21,14 @@ main(int argc, char **argv)
 
   /* Build the network */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return EXIT_FAILURE;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
   fclose(infile);
+  if (net == NULL)
+    return EXIT_FAILURE;
 
   /* Get the giant component and print it */
   giant = GetLargestWeaklyConnectedSet(net, 10000000);
diff --git a/utils/main_lapspec.c b/utils/main_lapspec.c
index 274be38..bdf931a 100644
--- a/utils/main_lapspec.c
+++ b/utils/main_lapspec.c
@@ -26,8 +26,14 @@ main(int argc, char **argv)
 
   /* Build the network */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return EXIT_FAILURE;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
   fclose(infile);
+  if (net == NULL)
+    return EXIT_FAILURE;
   nnod = CountNodes(net);
 
   /* Calculate the spectrum of the Laplacian */
diff --git a/utils/main_multinetlayout.c b/utils/main_multinetlayout.c
index 63fdae0..c1e617b 100644
--- a/utils/main_multinetlayout.c
+++ b/utils/main_multinetlayout.c
@@ -43,8 +43,14 @@ main(int argc, char **argv)
   for (i=0; i<nnet; i++) {
     netF = argv[i+1];
     inFile = fopen(netF, "r");
+    if (inFile == NULL) {
+      perror(netF);
+      return EXIT_FAILURE;
+    }
     net[i] = FBuildNetwork(inFile, 0, 0, 0, 1);
     fclose(inFile);
+    if (net[i] == NULL)
+      return EXIT_FAILURE;
   }
 
   /*
diff --git a/utils/main_mutualinfo.c b/utils/main_mutualinfo.c
index ed59c9d..1eabb81 100644
--- a/utils/main_mutualinfo.c
+++ b/utils/main_mutualinfo.c
@@ -20,13 +20,25 @@ int main(int argc,char* argv[])
   */
   //fprintf(stderr, "Creating the partition...\n");
   inf = fopen(argv[1], "r");
+  if (inf == NULL) {
+    perror(argv[1]);
+    return EXIT_FAILURE;
+  }
   part1 = FCreatePartition(inf);
   fclose(inf);
+  if (part1 == NULL)
+    return EXIT_FAILURE;
 
   //fprintf(stderr, "Creating the partition...\n");
   inf = fopen(argv[2], "r");
+  if (inf == NULL) {
+    perror(argv[2]);
+    return EXIT_FAILURE;
+  }
   part2 = FCreatePartition(inf);
   fclose(inf);
+  if (part2 == NULL)
+    return EXIT_FAILURE;
 
   /*
     ------------------------------------------------------------
diff --git a/utils/main_netcompare.c b/utils/main_netcompare.c
index 04b9bd0..c5ff109 100644
--- a/utils/main_netcompare.c
+++ b/utils/main_netcompare.c
@@ -41,12 +41,24 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   inFile = fopen(netFA, "r");
+  if (inFile == NULL) {
+    perror(netFA);
+    return EXIT_FAILURE;
+  }
   netA = FBuildNetwork(inFile, 0, 0, 0, 1);
   fclose(inFile);
+  if (netA == NULL)
+    return EXIT_FAILURE;
 
   inFile = fopen(netFB, "r");
+  if (inFile == NULL) {
+    perror(netFB);
+    return EXIT_FAILURE;
+  }
   netB = FBuildNetwork(inFile, 0, 0, 0, 1);
   fclose(inFile);
+  if (netB == NULL)
+    return EXIT_FAILURE;
 
   /*
     ---------------------------------------------------------------------------
diff --git a/utils/main_netlayout.c b/utils/main_netlayout.c
index 175cc1a..7ef83e5 100644
--- a/utils/main_netlayout.c
+++ b/utils/main_netlayout.c
@@ -54,9 +54,15 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  inFile=fopen(netF, "r");
+  inFile = fopen(netF, "r");
+  if (inFile == NULL) {
+    perror(netF);
+    return EXIT_FAILURE;
+  }
   net = FBuildNetwork(inFile, 0, 0, 0, 1);
   fclose(inFile);
+  if (net == NULL)
+    return EXIT_FAILURE;
   S = CountNodes(net);
   L = TotalNLinks(net, 1);
 
diff --git a/utils/main_netprop.c b/utils/main_netprop.c
index 64b7863..c5f3457 100644
--- a/utils/main_netprop.c
+++ b/utils/main_netprop.c
@@ -32,8 +32,14 @@ main(int argc, char **argv)
 
   /* Build the network */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return EXIT_FAILURE;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
   fclose(infile);
+  if (net == NULL)
+    return EXIT_FAILURE;
 
   /*
     Calculate and print a variety of network properties
diff --git a/utils/main_netrandomize.c b/utils/main_netrandomize.c
index eee87b7..939062c 100644
--- a/utils/main_netrandomize.c
+++ b/utils/main_netrandomize.c
@@ -41,8 +41,14 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return EXIT_FAILURE;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
   fclose(infile);
+  if (net == NULL)
+    return EXIT_FAILURE;
 
   /*
     ---------------------------------------------------------------------------
diff --git a/utils/main_nodeprop.c b/utils/main_nodeprop.c
index 0c42d9e..85159ea 100644
--- a/utils/main_nodeprop.c
+++ b/utils/main_nodeprop.c
@@ -35,8 +35,14 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return EXIT_FAILURE;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
   fclose(infile);
+  if (net == NULL)
+    return EXIT_FAILURE;
 
   /*
     ---------------------------------------------------------------------------
-- 
2.43.0

