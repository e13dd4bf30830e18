From 6b88eceeb666f3eef73a0006e14bf223dbe871ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 01/26] Guarded simulation hooks: tuning overrides and
 maintenance point (CAL_SIM)

---
 src/calCacheTableTwo.c | 4 ++++
 src/calInt.h           | 6 ++++++
 src/calUtil.c          | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/src/calCacheTableTwo.c b/src/calCacheTableTwo.c
index 8450793..9ddca72 100644
--- a/src/calCacheTableTwo.c
+++ b/src/calCacheTableTwo.c
@@ -44,6 +44,10 @@
 /* cache table management related constants */
 #define CACHE_TABLE_DEFAULT_SIZE_INDEX 16
 #define CACHE_TABLE_DEFAULT_CACHE_RATIO 4
+#ifdef CAL_SIM
+#undef CACHE_TABLE_DEFAULT_SIZE_INDEX
+#define CACHE_TABLE_DEFAULT_SIZE_INDEX CAL_SIM_CACHE_SIZE_INDEX
+#endif
 
 /*---------------------------------------------------------------------------*/
 /* Type declarations                                                         */
diff --git a/src/calInt.h b/src/calInt.h
index 0a88629..33e2fad 100644
--- a/src/calInt.h
+++ b/src/calInt.h
@@ -245,6 +245,12 @@ extern unsigned long calPrimes[];
 #define  CAL_LARGE_BDD (1<<19) /* For smaller BDDs, we would
                                   use depth-first exist and forall routines */
 
+/* Deterministic-simulation builds (-DCAL_SIM -DCAL_SIM_HEADER='"..."') may
+   override the tuning constants above and observe maintenance points. */
+#ifdef CAL_SIM
+#include CAL_SIM_HEADER
+#endif
+
 
 /*---------------------------------------------------------------------------*/
 /* Type declarations                                                         */
diff --git a/src/calUtil.c b/src/calUtil.c
index 66df24e..bdf5cae 100644
--- a/src/calUtil.c
+++ b/src/calUtil.c
@@ -214,6 +214,9 @@ CalBddPreProcessing(Cal_BddManager_t *bddManager, int count, ...)
 int
 CalBddPostProcessing(Cal_BddManager_t *bddManager)
 {
+#ifdef CAL_SIM
+  CAL_SIM_MAINTENANCE_POINT(bddManager);
+#endif
   if (bddManager->gcCheck > 0) return CAL_BDD_OK;
   bddManager->gcCheck = CAL_GC_CHECK;
   if(bddManager->numNodes > bddManager->uniqueTableGCLimit){
-- 
2.43.0


From 21878cfabb4ee0a2659116c23e7472e8a7b80b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:17 +0000
Subject: [PATCH 02/26] fix: pairwise operations process every pair from the
 topmost level

The starting level was overwritten by each pair, so requests of earlier
pairs with a higher top variable were never processed.
---
 src/calBddOp.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/calBddOp.c b/src/calBddOp.c
index cf6e2f2..01518c9 100644
--- a/src/calBddOp.c
+++ b/src/calBddOp.c
@@ -678,8 +678,8 @@ BddArrayOpBF(Cal_BddManager_t * bddManager, Cal_Bdd_t*  bddArray,
                 int numFunction, CalOpProc_t calOpProc)
 {
   Cal_BddId_t minId, bddId;
-  /*Cal_BddIndex_t minIndex = 0;*/
-  int minIndex = 0;
+  int minIndex = bddManager->numVars;
+  int pairMinIndex;
   int bddIndex;
   CalHashTable_t *hashTable, **hashTableArray, *uniqueTableForId;
   Cal_Bdd_t F, G, result;
@@ -692,8 +692,9 @@ BddArrayOpBF(Cal_BddManager_t * bddManager, Cal_Bdd_t*  bddArray,
     F = bddArray[i<<1];
     G = bddArray[(i<<1)+1];
     if ((*calOpProc)(bddManager, F, G, &result) == 0){
-      CalBddGetMinIdAndMinIndex(bddManager, F, G, minId, minIndex);
+      CalBddGetMinIdAndMinIndex(bddManager, F, G, minId, pairMinIndex);
       CalHashTableFindOrAdd(hashTableArray[minId], F, G, &result);
+      if (pairMinIndex < minIndex) minIndex = pairMinIndex;
     }
     resultArray[i] = result;
   }
-- 
2.43.0


From ca6226f016740fd621bf3ea1a73f93a7daa95ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:57 +0000
Subject: [PATCH 03/26] fix: free the old bins when repacking several levels

---
 src/calHashTable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calHashTable.c b/src/calHashTable.c
index c9e187b..ed2e92c 100644
--- a/src/calHashTable.c
+++ b/src/calHashTable.c
@@ -799,6 +799,7 @@ CalBddPackNodesForMultipleIds(Cal_BddManager_t *bddManager,
           Cal_Assert(!(CalBddNodeIsRefCountZero(dupNode)));
         }
       }
+      Cal_MemFree(oldBins);
 
 #ifdef __FOO__
       /*fprintf(stdout,"Repacking id = %d, index = %d\n", id, index+level);*/
-- 
2.43.0


From eb196dd98e84a2a00f0c9027d6cfffa3d8d98ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:05 +0000
Subject: [PATCH 04/26] fix: forward associated functions only when their nodes
 were repacked

---
 src/calAssociation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calAssociation.c b/src/calAssociation.c
index 5a196aa..d46fe3d 100644
--- a/src/calAssociation.c
+++ b/src/calAssociation.c
@@ -385,7 +385,7 @@ CalVarAssociationRepackUpdate(Cal_BddManager_t *  bddManager,
     nextAssoc = assoc->next;
     for (i=1; i <= bddManager->numVars; i++){
       if (CalBddGetBddId(assoc->varAssociation[i]) == id){
-        CalBddForward(assoc->varAssociation[i]);
+        CalBddIsForwardedTo(assoc->varAssociation[i]);
       }
     }
   }
@@ -393,7 +393,7 @@ CalVarAssociationRepackUpdate(Cal_BddManager_t *  bddManager,
   assoc = bddManager->tempAssociation;
   for (i=1; i <= bddManager->numVars; i++){
     if (CalBddGetBddId(assoc->varAssociation[i]) == id){
-      CalBddForward(assoc->varAssociation[i]);
+      CalBddIsForwardedTo(assoc->varAssociation[i]);
     }
   }
 }
-- 
2.43.0


From cb259673587e43a692f8b06d20e9e5e6c01631d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 05/26] fix: associated functions and saturated nodes count as
 roots of the interaction matrix

---
 src/calInteract.c | 53 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/src/calInteract.c b/src/calInteract.c
index 6d7caa4..035b3bd 100644
--- a/src/calInteract.c
+++ b/src/calInteract.c
@@ -79,6 +79,7 @@
 static void ddSuppInteract(Cal_BddManager_t *bddManager, Cal_Bdd_t f, int *support);
 static void ddClearLocal(Cal_Bdd_t f);
 static void ddUpdateInteract(Cal_BddManager_t *bddManager, int *support);
+static void ddRootInteract(Cal_BddManager_t *bddManager, Cal_Bdd_t f, int *support);
 
 /**AutomaticEnd***************************************************************/
 
@@ -172,6 +173,9 @@ CalInitInteract(Cal_BddManager_t *bddManager)
   long numBins;
   CalBddNode_t **bins, *bddNode, *nextBddNode;
 
+  CalAssociation_t *assoc;
+  int id;
+
   int n = bddManager->numVars;
 
   words = ((n * (n-1)) >> (1 + LOGBPL)) + 1;
@@ -201,6 +205,34 @@ CalInitInteract(Cal_BddManager_t *bddManager)
       ddUpdateInteract(bddManager, support);
     }
   }
+  /* The functions of the variable associations are roots as well */
+  for (assoc = bddManager->associationList; assoc; assoc = assoc->next){
+    for (i=1; i<=n; i++){
+      ddRootInteract(bddManager, assoc->varAssociation[i], support);
+    }
+  }
+  assoc = bddManager->tempAssociation;
+  for (i=1; i<=n; i++){
+    ddRootInteract(bddManager, assoc->varAssociation[i], support);
+  }
+  /* Nodes with a saturated reference count stay even when no root reaches
+     them any more */
+  for (id=1; id<=n; id++){
+    bins = bddManager->uniqueTable[id]->bins;
+    numBins = bddManager->uniqueTable[id]->numBins;
+    for (i=0; i<numBins; i++){
+      for (bddNode = bins[i]; bddNode; bddNode = nextBddNode) {
+        nextBddNode = CalBddNodeGetNextBddNode(bddNode);
+        if (CalBddNodeIsRefCountMax(bddNode) &&
+            (bddNode != CalBddGetBddNode(bddManager->varBdds[id]))){
+          Cal_Bdd_t internalBdd;
+          CalBddPutBddId(internalBdd, id);
+          CalBddPutBddNode(internalBdd, bddNode);
+          ddRootInteract(bddManager, internalBdd, support);
+        }
+      }
+    }
+  }
   /* If there are some results pending in the pipeline, we need to
      take those into account as well */
 
@@ -308,3 +340,24 @@ ddUpdateInteract(Cal_BddManager_t *bddManager, int *support)
   }
   }
 } /* end of ddUpdateInteract */
+
+
+/**Function********************************************************************
+  Marks as interacting all pairs of variables in the support of f, which may be
+  null.
+******************************************************************************/
+static void
+ddRootInteract(Cal_BddManager_t *bddManager, Cal_Bdd_t f, int *support)
+{
+  int k;
+
+  if (CalBddIsBddNull(bddManager, f) || CalBddIsBddConst(f)){
+    return;
+  }
+  for (k = 0; k < bddManager->numVars; k++) {
+    support[k] = 0;
+  }
+  ddSuppInteract(bddManager, f, support);
+  ddClearLocal(f);
+  ddUpdateInteract(bddManager, support);
+} /* end of ddRootInteract */
-- 
2.43.0


From 2c803ef068b82d0a6bf0f00498dc089be243f154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 06/26] fix: reordering keeps variable blocks together

---
 src/cal.c     |  4 +++-
 src/calBlk.c  | 18 ++++++++++++++++++
 src/calInt.h  |  1 +
 src/calUtil.c |  4 +++-
 4 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/cal.c b/src/cal.c
index eac49b8..0363541 100644
--- a/src/cal.c
+++ b/src/cal.c
@@ -458,7 +458,9 @@ Cal_BddReorder(Cal_BddManager bddManager)
     return;
   }
   CalCacheTableTwoFlush(bddManager->cacheTable);
-  if (bddManager->reorderMethod == CAL_REORDER_METHOD_DF){
+  /* Only the depth-first method knows about variable blocks */
+  if (bddManager->reorderMethod == CAL_REORDER_METHOD_DF ||
+      CalBddHasVarBlocks(bddManager)){
     CalBddReorderAuxDF(bddManager);
   }
   else if (bddManager->reorderMethod == CAL_REORDER_METHOD_BF){
diff --git a/src/calBlk.c b/src/calBlk.c
index 214ee0a..e34bc17 100644
--- a/src/calBlk.c
+++ b/src/calBlk.c
@@ -138,6 +138,24 @@ CalBddFindBlock(Cal_Block block, long index)
   return i;
 }
 
+/**Function********************************************************************
+  Tells whether any block of more than one variable has been declared.
+******************************************************************************/
+int
+CalBddHasVarBlocks(Cal_BddManager_t *bddManager)
+{
+  Cal_Block superBlock = bddManager->superBlock;
+  long i;
+
+  for (i=0; i < superBlock->numChildren; ++i){
+    if (superBlock->children[i]->firstIndex <
+        superBlock->children[i]->lastIndex){
+      return 1;
+    }
+  }
+  return 0;
+}
+
 /**Function********************************************************************
 ******************************************************************************/
 void
diff --git a/src/calInt.h b/src/calInt.h
index 33e2fad..9b94320 100644
--- a/src/calInt.h
+++ b/src/calInt.h
@@ -1525,6 +1525,7 @@ EXTERN Cal_Bdd_t CalBddOpBF(Cal_BddManager_t * bddManager, CalOpProc_t calOpProc
 EXTERN Cal_Bdd_t CalBddVarSubstitute(Cal_BddManager bddManager, Cal_Bdd_t f, unsigned short opCode, CalAssociation_t *assoc);
 EXTERN int CalOpBddVarSubstitute(Cal_BddManager_t * bddManager, Cal_Bdd_t f, Cal_Bdd_t * resultBddPtr);
 EXTERN long CalBddFindBlock(Cal_Block block, long index);
+EXTERN int CalBddHasVarBlocks(Cal_BddManager_t *bddManager);
 EXTERN void CalBddBlockDelta(Cal_Block b, long delta);
 EXTERN Cal_Block CalBddShiftBlock(Cal_BddManager_t *bddManager, Cal_Block b, long index);
 EXTERN unsigned long CalBlockMemoryConsumption(Cal_Block block);
diff --git a/src/calUtil.c b/src/calUtil.c
index bdf5cae..fcde4bd 100644
--- a/src/calUtil.c
+++ b/src/calUtil.c
@@ -226,7 +226,9 @@ CalBddPostProcessing(Cal_BddManager_t *bddManager)
         (3*bddManager->numNodes > 2* bddManager->uniqueTableGCLimit) &&
         (bddManager->reorderTechnique != CAL_REORDER_NONE)){
       CalCacheTableTwoFlush(bddManager->cacheTable);
-      if (bddManager->reorderMethod == CAL_REORDER_METHOD_BF){
+      /* Only the depth-first method knows about variable blocks */
+      if (bddManager->reorderMethod == CAL_REORDER_METHOD_BF &&
+          !CalBddHasVarBlocks(bddManager)){
         CalBddReorderAuxBF(bddManager);
       }
       else{
-- 
2.43.0


From 6ef06803e08e39ad97bc459c197b3fe8b2d93ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:43 +0000
Subject: [PATCH 07/26] fix: Cal_BddPrintFunctionProfile prints the profile of
 valid functions

---
 src/calPrintProfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calPrintProfile.c b/src/calPrintProfile.c
index 3360319..96da4fa 100644
--- a/src/calPrintProfile.c
+++ b/src/calPrintProfile.c
@@ -135,7 +135,7 @@ Cal_BddPrintFunctionProfile(Cal_BddManager bddManager,
                             FILE * fp)
 {
   long *levelCounts;
-  if (CalBddPreProcessing(bddManager, 1, f)){
+  if (CalBddPreProcessing(bddManager, 1, f) == 0){
 	return;
   }
   levelCounts = Cal_MemAlloc(long, bddManager->numVars+1);
-- 
2.43.0


From ded854d534387a16f9aac1a04e3443e52cba5d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:12 +0000
Subject: [PATCH 08/26] fix: function profile of several functions keeps one
 entry per function

---
 src/calBddSize.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/calBddSize.c b/src/calBddSize.c
index 18db633..b225da3 100644
--- a/src/calBddSize.c
+++ b/src/calBddSize.c
@@ -299,9 +299,16 @@ Cal_BddFunctionProfileMultiple(Cal_BddManager bddManager, Cal_Bdd
   for(f = fArray; !CalBddIsBddNull(bddManager, *f); ++f){
     BddHighestRefStep(bddManager, *f, h);
   }
-  i = -1;
   for(f = fArray; !CalBddIsBddNull(bddManager, *f); ++f){
-    CalHashTableOneInsert(h, *f, (char *)&i);
+    int *dataPtr;
+    /* A function may already be known as a subfunction of another one */
+    if (CalHashTableOneLookup(h, *f, (char **)&dataPtr)){
+      *dataPtr = -1;
+    }
+    else{
+      int level = -1;
+      CalHashTableOneInsert(h, *f, (char *)&level);
+    }
   }
   for(f = fArray; !CalBddIsBddNull(bddManager, *f); ++f){
     BddDominatedStep(bddManager, *f, funcCounts, h);
-- 
2.43.0


From fe93f3dc096d91ee88926786719b10d49c1cb13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:27 +0000
Subject: [PATCH 09/26] fix: function profiles do not read functions from
 before a collection or reordering

---
 src/calBddSize.c | 66 ++++++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/src/calBddSize.c b/src/calBddSize.c
index b225da3..bedb6e5 100644
--- a/src/calBddSize.c
+++ b/src/calBddSize.c
@@ -72,6 +72,7 @@ static int BddCountNoNodes(Cal_Bdd_t f);
 static int BddCountNodes(Cal_Bdd_t f);
 static long BddSizeStep(Cal_Bdd_t f, CountFn_t countFn);
 static void BddProfileStep(Cal_BddManager_t * bddManager, Cal_Bdd_t f, long * levelCounts, CountFn_t countFn);
+static void BddProfileAux(Cal_BddManager_t * bddManager, Cal_Bdd_t *fArray, long * levelCounts, int negout);
 static void BddHighestRefStep(Cal_BddManager_t * bddManager, Cal_Bdd_t f, CalHashTable_t * h);
 static void BddDominatedStep(Cal_BddManager_t * bddManager, Cal_Bdd_t f, long * funcCounts, CalHashTable_t * h);
 
@@ -150,17 +151,11 @@ void
 Cal_BddProfile(Cal_BddManager bddManager, Cal_Bdd fUserBdd,
                long * levelCounts, int  negout)
 {
-  Cal_BddIndex_t i;
-  Cal_Bdd_t f, g;
+  Cal_Bdd_t fArray[2];
   if(CalBddPreProcessing(bddManager, 1, fUserBdd)){
-    f = CalBddGetInternalBdd(bddManager, fUserBdd);
-    for(i = 0; i <=  bddManager->numVars; i++){
-      levelCounts[i] = 0l;
-    }
-    g = CalBddOne(bddManager);
-    CalBddPutMark(g, 0);
-    BddMarkBdd(f);
-    BddProfileStep(bddManager, f, levelCounts, countingFns[!negout]);
+    fArray[0] = CalBddGetInternalBdd(bddManager, fUserBdd);
+    fArray[1] = bddManager->bddNull;
+    BddProfileAux(bddManager, fArray, levelCounts, negout);
   }
 }
 
@@ -171,8 +166,7 @@ void
 Cal_BddProfileMultiple(Cal_BddManager bddManager, Cal_Bdd *fUserBddArray,
                        long * levelCounts, int  negout)
 {
-  Cal_Bdd_t *f, *fArray;
-  Cal_Bdd_t g;
+  Cal_Bdd_t *fArray;
   int i, j;
 
   Cal_Bdd userBdd;
@@ -187,17 +181,7 @@ Cal_BddProfileMultiple(Cal_BddManager bddManager, Cal_Bdd *fUserBddArray,
   }
   fArray[j] = bddManager->bddNull;
 
-  for(i = 0; i <=  bddManager->numVars; i++){
-    levelCounts[i] = 0l;
-  }
-  g = CalBddOne(bddManager);
-  CalBddPutMark(g, 0);
-  for(f = fArray; !CalBddIsBddNull(bddManager, *f); ++f){
-    BddMarkBdd(*f);
-  }
-  for(f = fArray; !CalBddIsBddNull(bddManager, *f); ++f){
-    BddProfileStep(bddManager, *f, levelCounts, countingFns[!negout]);
-  }
+  BddProfileAux(bddManager, fArray, levelCounts, negout);
   Cal_MemFree(fArray);
 }
 
@@ -225,9 +209,12 @@ Cal_BddFunctionProfile(Cal_BddManager bddManager, Cal_Bdd fUserBdd,
   /* level n we add in the result from level n+1 and subtract the */
   /* number of subfunctions whose highest reference is at level n. */
 
-  Cal_BddProfile(bddManager, fUserBdd, funcCounts, 0);
   if(CalBddPreProcessing(bddManager, 1, fUserBdd)){
+    Cal_Bdd_t fArray[2];
     f = CalBddGetInternalBdd(bddManager, fUserBdd);
+    fArray[0] = f;
+    fArray[1] = bddManager->bddNull;
+    BddProfileAux(bddManager, fArray, funcCounts, 0);
     /* Encode the profile.  The low bit of a count will be zero for */
     /* those levels where f actually has a node. */
     for(j = 0; j < bddManager->numVars; ++j){
@@ -286,7 +273,7 @@ Cal_BddFunctionProfileMultiple(Cal_BddManager bddManager, Cal_Bdd
   fArray[j] = bddManager->bddNull;
 
   /* See cmu_bdd_function_profile for the strategy involved here. */
-  Cal_BddProfileMultiple(bddManager, fUserBddArray, funcCounts, 0);
+  BddProfileAux(bddManager, fArray, funcCounts, 0);
   for(j = 0; j < bddManager->numVars; ++j){
     if(!funcCounts[j]){
       funcCounts[j] = 1;
@@ -438,6 +425,35 @@ BddProfileStep(
 
 
 
+/**Function********************************************************************
+  Profile of the null-terminated array of internal BDDs. Never collects or
+  reorders.
+******************************************************************************/
+static void
+BddProfileAux(
+  Cal_BddManager_t * bddManager,
+  Cal_Bdd_t * fArray,
+  long * levelCounts,
+  int negout)
+{
+  Cal_BddIndex_t i;
+  Cal_Bdd_t *f, g;
+
+  for(i = 0; i <=  bddManager->numVars; i++){
+    levelCounts[i] = 0l;
+  }
+  g = CalBddOne(bddManager);
+  CalBddPutMark(g, 0);
+  for(f = fArray; !CalBddIsBddNull(bddManager, *f); ++f){
+    BddMarkBdd(*f);
+  }
+  for(f = fArray; !CalBddIsBddNull(bddManager, *f); ++f){
+    BddProfileStep(bddManager, *f, levelCounts, countingFns[!negout]);
+  }
+}
+
+
+
 /**Function********************************************************************
 ******************************************************************************/
 static void
-- 
2.43.0


From 4f15bf81a81a0b973a82d5ab5d9bf10582e8dd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:00 +0000
Subject: [PATCH 10/26] fix: Cal_BddReduce and Cal_BddBetween accept an empty
 care set

---
 src/calReduce.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calReduce.c b/src/calReduce.c
index 81d2420..33a7947 100644
--- a/src/calReduce.c
+++ b/src/calReduce.c
@@ -232,6 +232,10 @@ BddReduceBF(
   int bddIndex;
   Cal_BddId_t bddId, minId;
 
+  /* Nothing has to agree with f */
+  if (CalBddIsBddZero(bddManager, c)){
+    return f;
+  }
 
   if ((*calOpProc)(bddManager, f, c, &result) == 1){
     return result;
-- 
2.43.0


From 26899b61580addf7d9dce05763f9378b6eaab1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:01 +0000
Subject: [PATCH 11/26] fix: Cal_BddDumpBdd reports write errors, frees the
 support and keeps its indices

---
 src/calDump.c | 88 +++++++++++++++++++++++++++++----------------------
 1 file changed, 50 insertions(+), 38 deletions(-)

diff --git a/src/calDump.c b/src/calDump.c
index d9e8870..a79d9b6 100644
--- a/src/calDump.c
+++ b/src/calDump.c
@@ -81,8 +81,8 @@ static long indexMask[] = {0xffl, 0xffffl, 0xffffffl};
 /* Static function prototypes                                                */
 /*---------------------------------------------------------------------------*/
 
-static void Write(Cal_BddManager_t * bddManager, unsigned long n, int bytes, FILE * fp);
-static void BddDumpBddStep(Cal_BddManager_t * bddManager, Cal_Bdd_t f, FILE * fp, CalHashTable_t * h, Cal_BddIndex_t * normalizedIndexes, int indexSize, int nodeNumberSize);
+static void Write(int * ok, unsigned long n, int bytes, FILE * fp);
+static void BddDumpBddStep(Cal_BddManager_t * bddManager, Cal_Bdd_t f, FILE * fp, CalHashTable_t * h, Cal_BddIndex_t * normalizedIndexes, int indexSize, int nodeNumberSize, int * ok);
 static unsigned long Read(int * error, int bytes, FILE * fp);
 static Cal_Bdd_t BddUndumpBddStep(Cal_BddManager_t * bddManager, Cal_Bdd_t * vars, FILE * fp, Cal_BddIndex_t numberVars, Cal_Bdd_t * shared, long numberShared, long * sharedSoFar, int indexSize, int nodeNumberSize, int * error);
 static int BytesNeeded(long n);
@@ -198,7 +198,7 @@ Cal_BddDumpBdd(
   long i;
   Cal_BddIndex_t *normalizedIndexes;
   Cal_BddIndex_t vIndex;
-  Cal_Bdd_t f;
+  Cal_Bdd_t f, v;
   Cal_BddIndex_t numberVars;
   Cal_Bdd *support;
   int ok;
@@ -207,43 +207,50 @@ Cal_BddDumpBdd(
   long next;
   int nodeNumberSize;
 
+  if(CalBddArrayPreProcessing(bddManager, userVars) == 0){
+    return (0);
+  }
   if(CalBddPreProcessing(bddManager, 1, fUserBdd)){
-    f = CalBddGetInternalBdd(bddManager, fUserBdd);
     for(i = 0; userVars[i]; ++i){
-      if(Cal_BddType(bddManager, userVars[i]) !=  CAL_BDD_TYPE_POSVAR){
+      v = CalBddGetInternalBdd(bddManager, userVars[i]);
+      if(CalBddTypeAux(bddManager, v) !=  CAL_BDD_TYPE_POSVAR){
         CalBddWarningMessage("Cal_BddDumpBdd: support is not all positive variables");
         return (0);
       }
     }
+    support = Cal_MemAlloc(Cal_Bdd, bddManager->numVars+1);
+    Cal_BddSupport(bddManager, fUserBdd, support);
+    /* Nothing below collects or reorders: the indices stay as they are */
     normalizedIndexes = Cal_MemAlloc(Cal_BddIndex_t, bddManager->numVars);
     for(i = 0; i < bddManager->numVars; ++i){
       normalizedIndexes[i] = CAL_BDD_CONST_INDEX;
     }
-    for(i = 0; userVars[i]; ++i){
-      vIndex = Cal_BddGetIfIndex(bddManager, userVars[i]);
+    ok = 1;
+    for(i = 0; ok && userVars[i]; ++i){
+      v = CalBddGetInternalBdd(bddManager, userVars[i]);
+      vIndex = CalBddGetBddIndex(bddManager, v);
       if(normalizedIndexes[vIndex] !=  CAL_BDD_CONST_INDEX){
         CalBddWarningMessage("Cal_BddDumpBdd: variables duplicated in support");
-        Cal_MemFree(normalizedIndexes);
-        return 0;
+        ok = 0;
       }
       normalizedIndexes[vIndex] = i;
     }
     numberVars = i;
-    support = Cal_MemAlloc(Cal_Bdd, bddManager->numVars+1);
-    Cal_BddSupport(bddManager, fUserBdd, support);
-    ok = 1;
     for(i = 0; ok && support[i]; ++i){
-      if(normalizedIndexes[Cal_BddGetIfIndex(bddManager, support[i])] == CAL_BDD_CONST_INDEX){
+      v = CalBddGetInternalBdd(bddManager, support[i]);
+      if(normalizedIndexes[CalBddGetBddIndex(bddManager, v)] == CAL_BDD_CONST_INDEX){
         CalBddWarningMessage("Cal_BddDumpBdd: incomplete support specified");
         ok = 0;
       }
     }
+    for(i = 0; support[i]; ++i){
+      Cal_BddFree(bddManager, support[i]);
+    }
+    Cal_MemFree(support);
     if(!ok){
       Cal_MemFree(normalizedIndexes);
-      Cal_MemFree(support);
       return 0;
     }
-    Cal_MemFree(support);
     /* Everything checked now; barring I/O errors, we should be able to */
     /* Write a valid output file. */
     f = CalBddGetInternalBdd(bddManager, fUserBdd);
@@ -253,13 +260,16 @@ Cal_BddDumpBdd(
     next = 0;
     CalBddNumberSharedNodes(bddManager, f, h, &next);
     nodeNumberSize = BytesNeeded(next);
-    Write(bddManager, MAGIC_COOKIE, sizeof(long), fp);
-    Write(bddManager, (unsigned long)numberVars, sizeof(Cal_BddIndex_t), fp);
-    Write(bddManager, (unsigned long)next, sizeof(long), fp);
-    BddDumpBddStep(bddManager, f, fp, h, normalizedIndexes, indexSize, nodeNumberSize);
+    Write(&ok, MAGIC_COOKIE, sizeof(long), fp);
+    Write(&ok, (unsigned long)numberVars, sizeof(Cal_BddIndex_t), fp);
+    Write(&ok, (unsigned long)next, sizeof(long), fp);
+    BddDumpBddStep(bddManager, f, fp, h, normalizedIndexes, indexSize, nodeNumberSize, &ok);
+    if(fflush(fp) == EOF){
+      ok = 0;
+    }
     CalHashTableOneQuit(h);
     Cal_MemFree(normalizedIndexes);
-    return (1);
+    return (ok);
   }
   return (0);
 }
@@ -268,13 +278,14 @@ Cal_BddDumpBdd(
 ******************************************************************************/
 static void
 Write(
-  Cal_BddManager_t * bddManager,
+  int * ok,
   unsigned long  n,
   int  bytes,
   FILE * fp)
 {
   while(bytes){
     if(fputc((char)(n >> (8*(bytes-1)) & 0xff), fp) == EOF){
+      *ok = 0;
     }
     --bytes;
   }
@@ -290,7 +301,8 @@ BddDumpBddStep(
   CalHashTable_t * h,
   Cal_BddIndex_t * normalizedIndexes,
   int  indexSize,
-  int  nodeNumberSize)
+  int  nodeNumberSize,
+  int * ok)
 {
   int negated;
   long *number;
@@ -298,27 +310,27 @@ BddDumpBddStep(
 
   switch(CalBddTypeAux(bddManager, f)){
   case CAL_BDD_TYPE_ZERO:
-    Write(bddManager, FALSE_ENCODING, indexSize+1, fp);
+    Write(ok, FALSE_ENCODING, indexSize+1, fp);
     break;
   case CAL_BDD_TYPE_ONE:
-    Write(bddManager, TRUE_ENCODING, indexSize+1, fp);
+    Write(ok, TRUE_ENCODING, indexSize+1, fp);
     break;
   case CAL_BDD_TYPE_CONSTANT:
-    Write(bddManager, CONSTANT_ENCODING, indexSize+1, fp);
+    Write(ok, CONSTANT_ENCODING, indexSize+1, fp);
 #ifdef JAGESH
-    Write(bddManager, (unsigned long)BDD_DATA(f)[0], sizeof(long), fp);
-    Write(bddManager, (unsigned long)BDD_DATA(f)[1], sizeof(long), fp);
+    Write(ok, (unsigned long)BDD_DATA(f)[0], sizeof(long), fp);
+    Write(ok, (unsigned long)BDD_DATA(f)[1], sizeof(long), fp);
 #endif
     break;
   case CAL_BDD_TYPE_POSVAR:
-    Write(bddManager, POSVAR_ENCODING, indexSize+1, fp);
-    Write(bddManager,
+    Write(ok, POSVAR_ENCODING, indexSize+1, fp);
+    Write(ok,
         (unsigned long)normalizedIndexes[CalBddGetBddIndex(bddManager, f)],
         indexSize, fp);
     break;
   case CAL_BDD_TYPE_NEGVAR:
-    Write(bddManager, NEGVAR_ENCODING, indexSize+1, fp);
-    Write(bddManager,
+    Write(ok, NEGVAR_ENCODING, indexSize+1, fp);
+    Write(ok,
         (unsigned long)normalizedIndexes[CalBddGetBddIndex(bddManager, f)],
         indexSize, fp);
     break;
@@ -334,25 +346,25 @@ BddDumpBddStep(
     CalHashTableOneLookup(h, f, (char **)&number);
     if(number && *number < 0){
     if(negated)
-      Write(bddManager, NEGNODE_ENCODING, indexSize+1, fp);
+      Write(ok, NEGNODE_ENCODING, indexSize+1, fp);
     else
-      Write(bddManager, POSNODE_ENCODING, indexSize+1, fp);
-    Write(bddManager, (unsigned long)(-*number-1), nodeNumberSize, fp);
+      Write(ok, POSNODE_ENCODING, indexSize+1, fp);
+    Write(ok, (unsigned long)(-*number-1), nodeNumberSize, fp);
     }
     else{
       if(number){
-        Write(bddManager, NODELABEL_ENCODING, indexSize+1, fp);
+        Write(ok, NODELABEL_ENCODING, indexSize+1, fp);
         *number =  -*number-1;
       }
-      Write(bddManager,
+      Write(ok,
           (unsigned long)normalizedIndexes[CalBddGetBddIndex(bddManager, f)],
           indexSize, fp);
       CalBddGetThenBdd(f, thenBdd);
       BddDumpBddStep(bddManager, thenBdd, fp, h, normalizedIndexes,
-          indexSize, nodeNumberSize);
+          indexSize, nodeNumberSize, ok);
       CalBddGetElseBdd(f, elseBdd);
       BddDumpBddStep(bddManager, elseBdd, fp, h, normalizedIndexes,
-          indexSize, nodeNumberSize);
+          indexSize, nodeNumberSize, ok);
     }
     break;
   default:
-- 
2.43.0


From f9a0cd62440e0b89dc75e64ab642140afaf34a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:52 +0000
Subject: [PATCH 12/26] fix: Cal_BddUndumpBdd checks labels and grows its table
 as they appear

---
 src/calDump.c | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/calDump.c b/src/calDump.c
index a79d9b6..eb7efcf 100644
--- a/src/calDump.c
+++ b/src/calDump.c
@@ -44,6 +44,7 @@
 /* Constant declarations                                                     */
 /*---------------------------------------------------------------------------*/
 #define MAGIC_COOKIE 0x5e02f795l
+#define SHARED_CHUNK 256
 #define CAL_BDD_IOERROR 100
 
 #define TRUE_ENCODING 0xffffff00l
@@ -84,7 +85,7 @@ static long indexMask[] = {0xffl, 0xffffl, 0xffffffl};
 static void Write(int * ok, unsigned long n, int bytes, FILE * fp);
 static void BddDumpBddStep(Cal_BddManager_t * bddManager, Cal_Bdd_t f, FILE * fp, CalHashTable_t * h, Cal_BddIndex_t * normalizedIndexes, int indexSize, int nodeNumberSize, int * ok);
 static unsigned long Read(int * error, int bytes, FILE * fp);
-static Cal_Bdd_t BddUndumpBddStep(Cal_BddManager_t * bddManager, Cal_Bdd_t * vars, FILE * fp, Cal_BddIndex_t numberVars, Cal_Bdd_t * shared, long numberShared, long * sharedSoFar, int indexSize, int nodeNumberSize, int * error);
+static Cal_Bdd_t BddUndumpBddStep(Cal_BddManager_t * bddManager, Cal_Bdd_t * vars, FILE * fp, Cal_BddIndex_t numberVars, Cal_Bdd_t ** shared, long numberShared, long * sharedSoFar, int indexSize, int nodeNumberSize, int * error);
 static int BytesNeeded(long n);
 
 /**AutomaticEnd***************************************************************/
@@ -153,16 +154,14 @@ Cal_BddUndumpBdd(
     Cal_MemFree(vars);
     return Cal_BddNull(bddManager);
   }
-  shared = Cal_MemAlloc(Cal_Bdd_t, numberShared);
-  for(i = 0; i < numberShared; ++i){
-    shared[i] = CalBddNull(bddManager);
-  }
+  /* Grows with the labels read: numberShared may be damaged */
+  shared = Cal_MemAlloc(Cal_Bdd_t, SHARED_CHUNK);
   sharedSoFar = 0;
-  result = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
+  result = BddUndumpBddStep(bddManager, vars, fp, numberVars, &shared,
       numberShared, &sharedSoFar, indexSize, nodeNumberSize, error);
   Cal_MemFree(vars);
 
-  for(i = 0; i < numberShared; ++i){
+  for(i = 0; i < sharedSoFar; ++i){
     v = shared[i];
     if(!CalBddIsBddNull(bddManager, v)){
       CalBddFree(v);
@@ -412,7 +411,7 @@ BddUndumpBddStep(
   Cal_Bdd_t * vars,
   FILE * fp,
   Cal_BddIndex_t  numberVars,
-  Cal_Bdd_t * shared,
+  Cal_Bdd_t ** shared,
   long  numberShared,
   long * sharedSoFar,
   int  indexSize,
@@ -469,14 +468,14 @@ BddUndumpBddStep(
     case POSNODE_ENCODING:
     case NEGNODE_ENCODING:
       nodeNumber = Read(error, nodeNumberSize, fp);
-      if(!*error && (nodeNumber >=  numberShared ||
-          CalBddIsBddNull(bddManager, shared[nodeNumber]))){
+      if(!*error && (nodeNumber >=  *sharedSoFar ||
+          CalBddIsBddNull(bddManager, (*shared)[nodeNumber]))){
         *error = CAL_BDD_UNDUMP_FORMAT;
       }
       if(*error){
         return CalBddNull(bddManager);
       }
-      v = shared[nodeNumber];
+      v = (*shared)[nodeNumber];
       v = CalBddIdentity(bddManager, v);
       if(encoding == POSNODE_ENCODING){
         return (v);
@@ -487,10 +486,21 @@ BddUndumpBddStep(
       }
     case NODELABEL_ENCODING:
       nodeNumber =  *sharedSoFar;
+      if(nodeNumber >= numberShared){
+        *error = CAL_BDD_UNDUMP_FORMAT;
+        return CalBddNull(bddManager);
+      }
+      if(nodeNumber && nodeNumber % SHARED_CHUNK == 0){
+        *shared = Cal_MemRealloc(Cal_Bdd_t, *shared, nodeNumber+SHARED_CHUNK);
+      }
+      (*shared)[nodeNumber] = CalBddNull(bddManager);
       ++*sharedSoFar;
       v = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
           numberShared, sharedSoFar, indexSize, nodeNumberSize, error);
-      shared[nodeNumber] = v;
+      if(*error){
+        return CalBddNull(bddManager);
+      }
+      (*shared)[nodeNumber] = v;
       v = CalBddIdentity(bddManager, v);
       return (v);
     default:
@@ -507,7 +517,9 @@ BddUndumpBddStep(
   temp2 = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
        numberShared, sharedSoFar, indexSize, nodeNumberSize, error);
   if(*error){
-      CalBddFree(temp1);
+      if(!CalBddIsBddNull(bddManager, temp1)){
+        CalBddFree(temp1);
+      }
       return CalBddNull(bddManager);
   }
   result = CalBddITE(bddManager, vars[i], temp1, temp2);
-- 
2.43.0


From 2bdb9334949bd4fa4f726b7e778da6c81017ded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:45 +0000
Subject: [PATCH 13/26] fix: pipelines survive maintenance before execution,
 deep chains and aborted executions

---
 src/calPipeline.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/calPipeline.c b/src/calPipeline.c
index 91bb09a..8313aa5 100644
--- a/src/calPipeline.c
+++ b/src/calPipeline.c
@@ -166,14 +166,16 @@ Cal_PipelineCreateProvisionalBdd(Cal_BddManager bddManager, Cal_Bdd fUserBdd,
       insertDepth = operandDepth + 1;
     }
   }
-  if (bddManager->pipelineDepth <= insertDepth){
-    bddManager->pipelineDepth = insertDepth + 1;
-  }
   if (insertDepth >= MAX_INSERT_DEPTH){
     CalBddWarningMessage("Provisional Bdd not created");
     CalBddWarningMessage("Maximum pipeline depth is reached");
     return Cal_BddNull(bddManager);
   }
+  if (bddManager->pipelineDepth <= insertDepth){
+    bddManager->pipelineDepth = insertDepth + 1;
+  }
+  /* None of the requests has been executed yet */
+  bddManager->currentPipelineDepth = bddManager->pipelineDepth;
 
   CalNodeManagerAllocNode(bddManager->nodeManagerArray[0], requestNode);
   CalRequestNodePutF(requestNode, f);
@@ -293,7 +295,20 @@ Cal_PipelineQuit(Cal_BddManager bddManager)
 {
   CalRequestNode_t *requestNode, *next;
   int i;
-
+  Cal_Bdd_t resultBdd;
+
+  if (bddManager->pipelineState == CREATE){
+    /* Release the results locked by an execution that was aborted */
+    for (i = 0;
+         i < bddManager->pipelineDepth - bddManager->currentPipelineDepth;
+         i++){
+      for (requestNode = bddManager->requestNodeListArray[i]; requestNode;
+           requestNode = CalRequestNodeGetNextRequestNode(requestNode)){
+        CalBddNodeGetThenBdd(requestNode, resultBdd);
+        CalBddDcrRefCount(resultBdd);
+      }
+    }
+  }
   bddManager->pipelineState = READY;
   for(i = 0; i < bddManager->pipelineDepth; i++){
     for(requestNode = bddManager->requestNodeListArray[i],
@@ -306,6 +321,7 @@ Cal_PipelineQuit(Cal_BddManager bddManager)
     bddManager->requestNodeListArray[i] = Cal_Nil(CalRequestNode_t);
   }
   bddManager->pipelineDepth = 0;
+  bddManager->currentPipelineDepth = 0;
   for (requestNode = bddManager->userProvisionalNodeList; requestNode;
        requestNode = next){
     next = CalRequestNodeGetNextRequestNode(requestNode);
-- 
2.43.0


From 038368d2a79e7dd9d16b8390fe3624de0634085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:43 +0000
Subject: [PATCH 14/26] fix: honour Cal_BddSetGCMode in automatic maintenance

---
 src/calUtil.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/calUtil.c b/src/calUtil.c
index fcde4bd..7bef85c 100644
--- a/src/calUtil.c
+++ b/src/calUtil.c
@@ -219,6 +219,16 @@ CalBddPostProcessing(Cal_BddManager_t *bddManager)
 #endif
   if (bddManager->gcCheck > 0) return CAL_BDD_OK;
   bddManager->gcCheck = CAL_GC_CHECK;
+  if (bddManager->gcMode == 0){
+    /* Neither collect, repack nor reorder: only watch the node limit */
+    if (bddManager->nodeLimit && (bddManager->numNodes >
+                                  bddManager->nodeLimit)){
+      CalBddWarningMessage("Overflow: Node Limit Exceeded");
+      bddManager->overflow = 1;
+      return CAL_BDD_OVERFLOWED;
+    }
+    return CAL_BDD_OK;
+  }
   if(bddManager->numNodes > bddManager->uniqueTableGCLimit){
     long origNodes = bddManager->numNodes;
     Cal_BddManagerGC(bddManager);
-- 
2.43.0


From d10d3ad7dd416a62417ac4a8c9002ea43ed91e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:32 +0000
Subject: [PATCH 15/26] fix: a manager without page memory reports out of
 memory

---
 src/calBddManager.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calBddManager.c b/src/calBddManager.c
index b91a1a3..19583b5 100644
--- a/src/calBddManager.c
+++ b/src/calBddManager.c
@@ -155,6 +155,10 @@ Cal_BddManagerInit( )
 
   bddManager->pageManager1 = CalPageManagerInit(4);
   bddManager->pageManager2 = CalPageManagerInit(NUM_PAGES_PER_SEGMENT);
+  if(bddManager->pageManager1 == Cal_Nil(CalPageManager_t) ||
+     bddManager->pageManager2 == Cal_Nil(CalPageManager_t)){
+    CalBddFatalMessage("out of memory");
+  }
 
   bddManager->nodeManagerArray = Cal_MemAlloc(CalNodeManager_t*, bddManager->maxNumVars+1);
 
-- 
2.43.0


From a9dd5d4d53ac7595ca76ba13e5efd48aa0f1d072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:11 +0000
Subject: [PATCH 16/26] fix: C++ profiles hold their entries

---
 src/calObj.hh | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/calObj.hh b/src/calObj.hh
index 4ebd6d1..8673917 100644
--- a/src/calObj.hh
+++ b/src/calObj.hh
@@ -597,8 +597,7 @@ public:
   //////////////////////////////////////////////////////////////////////////////
   std::vector<long> Profile(bool negout = true) const
   {
-    std::vector<long> results;
-    results.reserve(Cal_BddVars(this->_bddManager)+1);
+    std::vector<long> results(Cal_BddVars(this->_bddManager)+1);
     Cal_BddProfile(this->_bddManager, this->_bdd, results.data(), negout);
     return results;
   }
@@ -629,8 +628,7 @@ public:
   //////////////////////////////////////////////////////////////////////////////
   std::vector<long> FunctionProfile() const
   {
-    std::vector<long> results;
-    results.reserve(Cal_BddVars(this->_bddManager)+1);
+    std::vector<long> results(Cal_BddVars(this->_bddManager)+1);
     Cal_BddFunctionProfile(this->_bddManager, this->_bdd, results.data());
     return results;
   }
@@ -1955,8 +1953,7 @@ public:
     std::vector<Cal_Bdd> c_arg =
       BDD::C_Bdd_vector(this->_bddManager, std::move(begin), std::move(end));
 
-    std::vector<long> levelCounts;
-    levelCounts.reserve(this->Vars()+1);
+    std::vector<long> levelCounts(this->Vars()+1);
 
     Cal_BddProfileMultiple(this->_bddManager,
                            c_arg.data(),
@@ -2066,8 +2063,7 @@ public:
     std::vector<Cal_Bdd> c_arg =
       BDD::C_Bdd_vector(this->_bddManager, std::move(begin), std::move(end));
 
-    std::vector<long> funcCounts;
-    funcCounts.reserve(Vars()+1);
+    std::vector<long> funcCounts(this->Vars()+1);
 
     Cal_BddFunctionProfileMultiple(this->_bddManager, c_arg.data(), funcCounts.data());
 
-- 
2.43.0


From 9cbf20e85c7d896bfbe93eacf2d05e824e528fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:15 +0000
Subject: [PATCH 17/26] fix: C++ pairwise operations take and release the array
 of the C interface

---
 src/calObj.hh | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/calObj.hh b/src/calObj.hh
index 8673917..8f8d83c 100644
--- a/src/calObj.hh
+++ b/src/calObj.hh
@@ -731,20 +731,21 @@ protected:
   }
 
   //////////////////////////////////////////////////////////////////////////////
-  /// \brief Convert a null-terminated list of `Cal_Bdd`s from the C API to a
-  ///        C++ vector of `BDD` classes.
+  /// \brief Convert a list of `size` many `Cal_Bdd`s allocated by the C API to a
+  ///        C++ vector of `BDD` classes. This releases the given list.
   //////////////////////////////////////////////////////////////////////////////
   static std::vector<BDD>
-  From_C_Array(Cal_BddManager bddManager, Cal_Bdd * bddArray)
+  From_C_Array(Cal_BddManager bddManager, Cal_Bdd * bddArray, size_t size)
   {
     std::vector<BDD> res;
 
-    for (int i = 0; Cal_BddIsBddNull(bddManager, bddArray[i]) == 0; i++){
-      if (CalBddPreProcessing(bddManager, 1, bddArray[i]) == 0){
-        return std::vector<BDD>();
-      }
+    if (bddArray == nullptr) { return res; }
+
+    res.reserve(size);
+    for (size_t i = 0; i < size; i++){
       res.push_back(BDD(bddManager, bddArray[i]));
     }
+    Cal_MemFree(bddArray);
 
     return res;
   }
@@ -1618,7 +1619,9 @@ public:
       BDD::C_Bdd_vector(this->_bddManager, std::move(begin), std::move(end));
 
     std::vector<BDD> res =
-      BDD::From_C_Array(this->_bddManager, Cal_BddPairwiseAnd(this->_bddManager, c_arg.data()));
+      BDD::From_C_Array(this->_bddManager,
+                        Cal_BddPairwiseAnd(this->_bddManager, c_arg.data()),
+                        c_arg.size()/2);
 
     BDD::Free(this->_bddManager, c_arg.begin(), c_arg.end());
 
@@ -1662,7 +1665,9 @@ public:
       BDD::C_Bdd_vector(this->_bddManager, std::move(begin), std::move(end));
 
     std::vector<BDD> res =
-      BDD::From_C_Array(this->_bddManager, Cal_BddPairwiseOr(this->_bddManager, c_arg.data()));
+      BDD::From_C_Array(this->_bddManager,
+                        Cal_BddPairwiseOr(this->_bddManager, c_arg.data()),
+                        c_arg.size()/2);
 
     BDD::Free(this->_bddManager, c_arg.begin(), c_arg.end());
 
@@ -1699,7 +1704,9 @@ public:
       BDD::C_Bdd_vector(this->_bddManager, std::move(begin), std::move(end));
 
     std::vector<BDD> res =
-      BDD::From_C_Array(this->_bddManager, Cal_BddPairwiseXor(this->_bddManager, c_arg.data()));
+      BDD::From_C_Array(this->_bddManager,
+                        Cal_BddPairwiseXor(this->_bddManager, c_arg.data()),
+                        c_arg.size()/2);
 
     BDD::Free(this->_bddManager, c_arg.begin(), c_arg.end());
 
-- 
2.43.0


From 689da33e4c331ddbfc946691e4d4bd33bffba122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:18 +0000
Subject: [PATCH 18/26] fix: repacking after a collection forwards the
 projection variables

---
 src/calGC.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calGC.c b/src/calGC.c
index 8599983..e24fa80 100644
--- a/src/calGC.c
+++ b/src/calGC.c
@@ -363,6 +363,11 @@ CalRepackNodesAfterGC(Cal_BddManager_t *bddManager)
 
   CalCacheTableTwoRepackUpdate(bddManager->cacheTable);
 
+  /* Fix the projection variables */
+  for (id = 1; id <= bddManager->numVars; id++){
+    CalBddIsForwardedTo(bddManager->varBdds[id]);
+  }
+
   /* Fix the user BDDs */
   CalBddReorderFixUserBddPtrs(bddManager);
 
-- 
2.43.0


From 707977ff2a16e9e6445c2cfc113b1dff8ee67e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:46 +0000
Subject: [PATCH 19/26] fix: Cal_BddReduce and Cal_BddBetween compare sizes in
 one variable order

---
 src/calBddSize.c | 22 +++++++++++++++-------
 src/calInt.h     |  1 +
 src/calReduce.c  | 16 +++++++++++-----
 3 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/calBddSize.c b/src/calBddSize.c
index bedb6e5..e9687d9 100644
--- a/src/calBddSize.c
+++ b/src/calBddSize.c
@@ -94,14 +94,9 @@ int (*(countingFns[]))(Cal_Bdd_t) =
 long
 Cal_BddSize(Cal_BddManager bddManager, Cal_Bdd fUserBdd, int  negout)
 {
-  Cal_Bdd_t f, g;
-
   if(CalBddPreProcessing(bddManager, 1, fUserBdd)){
-    f = CalBddGetInternalBdd(bddManager, fUserBdd);
-    g =  CalBddOne(bddManager);
-    CalBddPutMark(g, 0);
-    BddMarkBdd(f);
-    return BddSizeStep(f, countingFns[!negout]);
+    return CalBddSize(bddManager, CalBddGetInternalBdd(bddManager, fUserBdd),
+                      negout);
   }
   return (0l);
 }
@@ -316,6 +311,19 @@ Cal_BddFunctionProfileMultiple(Cal_BddManager bddManager, Cal_Bdd
 /*---------------------------------------------------------------------------*/
 /* Definition of internal functions                                          */
 /*---------------------------------------------------------------------------*/
+/**Function********************************************************************
+  The number of nodes of f. In contrast to Cal_BddSize this never collects or
+  reorders, so the sizes of several functions refer to the same variable order.
+******************************************************************************/
+long
+CalBddSize(Cal_BddManager_t *bddManager, Cal_Bdd_t f, int negout)
+{
+  Cal_Bdd_t g = CalBddOne(bddManager);
+
+  CalBddPutMark(g, 0);
+  BddMarkBdd(f);
+  return BddSizeStep(f, countingFns[!negout]);
+}
 
 /*---------------------------------------------------------------------------*/
 /* Definition of static functions                                            */
diff --git a/src/calInt.h b/src/calInt.h
index 9b94320..1a4ff7d 100644
--- a/src/calInt.h
+++ b/src/calInt.h
@@ -1598,6 +1598,7 @@ EXTERN void CalFixupAssoc(Cal_BddManager_t *bddManager, long id1, long id2, CalA
 EXTERN void CalBddReorderReclaimForwardedNodes(Cal_BddManager bddManager, int startIndex, int endIndex);
 EXTERN void CalBddReorderBlockSift(Cal_BddManager_t *bddManager, double maxSizeFactor);
 EXTERN void CalBddReorderBlockWindow(Cal_BddManager bddManager, Cal_Block block, char *levels);
+EXTERN long CalBddSize(Cal_BddManager_t *bddManager, Cal_Bdd_t f, int negout);
 EXTERN void CalBddReorderAuxDF(Cal_BddManager_t *bddManager);
 EXTERN void CalAlignCollisionChains(Cal_BddManager_t *bddManager);
 EXTERN void CalBddReorderFixUserBddPtrs(Cal_BddManager bddManager);
diff --git a/src/calReduce.c b/src/calReduce.c
index 33a7947..95a5cae 100644
--- a/src/calReduce.c
+++ b/src/calReduce.c
@@ -122,8 +122,10 @@ Cal_BddReduce(Cal_BddManager  bddManager, Cal_Bdd fUserBdd,
       Cal_BddManagerGC(bddManager);
       return Cal_BddNull(bddManager);
     }
-  if (Cal_BddSize(bddManager, userResult, 1) <
-        Cal_BddSize(bddManager, fUserBdd, 1)){
+    /* Both sizes have to refer to the same variable order */
+    result = CalBddGetInternalBdd(bddManager, userResult);
+    f = CalBddGetInternalBdd(bddManager, fUserBdd);
+    if (CalBddSize(bddManager, result, 1) < CalBddSize(bddManager, f, 1)){
       return userResult;
     }
     else{
@@ -157,9 +159,13 @@ Cal_BddBetween(Cal_BddManager  bddManager, Cal_Bdd fMinUserBdd,
       Cal_BddManagerGC(bddManager);
       return Cal_BddNull(bddManager);
     }
-    fMinSize = Cal_BddSize(bddManager, fMinUserBdd, 1);
-    fMaxSize = Cal_BddSize(bddManager, fMaxUserBdd, 1);
-    resultSize = Cal_BddSize(bddManager, resultUserBdd, 1);
+    /* All three sizes have to refer to the same variable order */
+    fMin = CalBddGetInternalBdd(bddManager, fMinUserBdd);
+    fMax = CalBddGetInternalBdd(bddManager, fMaxUserBdd);
+    result = CalBddGetInternalBdd(bddManager, resultUserBdd);
+    fMinSize = CalBddSize(bddManager, fMin, 1);
+    fMaxSize = CalBddSize(bddManager, fMax, 1);
+    resultSize = CalBddSize(bddManager, result, 1);
     if (resultSize < fMinSize){
       if (resultSize < fMaxSize){
         return resultUserBdd;
-- 
2.43.0


From a003d10fcf97da147c934c3c27859eeb52d42860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:09 +0000
Subject: [PATCH 20/26] fix: an association protects each associated function
 once

---
 src/calAssociation.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/calAssociation.c b/src/calAssociation.c
index d46fe3d..9d5716c 100644
--- a/src/calAssociation.c
+++ b/src/calAssociation.c
@@ -173,9 +173,11 @@ Cal_AssociationInit(Cal_BddManager bddManager,
   p->refCount = 1;
   /* Protect BDDs in the association. */
   if(pairs){
-    for(i = 0; i < numAssociations; i++){
-      f = associationInfo[(i<<1)+1];
-      CalBddIcrRefCount(f);
+    for(i = 1; i <= bddManager->numVars; i++){
+      f = varAssociation[i];
+      if(!CalBddIsBddNull(bddManager, f)){
+        CalBddIcrRefCount(f);
+      }
     }
   }
   Cal_MemFree(associationInfo);
-- 
2.43.0


From e2e956c8c8f26a1044b7241fa61d59e324ab4fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:53 +0000
Subject: [PATCH 21/26] fix: pipeline results stay valid until the pipeline is
 closed

---
 src/calGC.c          |  2 +-
 src/calHashTable.c   |  4 ++--
 src/calInteract.c    |  2 +-
 src/calPipeline.c    | 28 ++++++++++------------------
 src/calReorderBF.c   | 14 +++++++-------
 src/calReorderDF.c   |  4 ++--
 src/calReorderUtil.c |  4 ++--
 7 files changed, 25 insertions(+), 33 deletions(-)

diff --git a/src/calGC.c b/src/calGC.c
index e24fa80..014fede 100644
--- a/src/calGC.c
+++ b/src/calGC.c
@@ -356,7 +356,7 @@ CalRepackNodesAfterGC(Cal_BddManager_t *bddManager)
     nodeManager->freeNodeList = freeNodeList;
   }
   /* Need to update the handles to the nodes being moved */
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
diff --git a/src/calHashTable.c b/src/calHashTable.c
index ed2e92c..66fb3d5 100644
--- a/src/calHashTable.c
+++ b/src/calHashTable.c
@@ -673,7 +673,7 @@ CalBddPackNodesAfterReorderForSingleId(Cal_BddManager_t *bddManager,
                            bddManager->indexToId[index]);
   }
 
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
@@ -855,7 +855,7 @@ CalBddPackNodesForMultipleIds(Cal_BddManager_t *bddManager,
 
   /* Fix the user BDDs */
   CalBddReorderFixUserBddPtrs(bddManager);
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
diff --git a/src/calInteract.c b/src/calInteract.c
index 035b3bd..5804d65 100644
--- a/src/calInteract.c
+++ b/src/calInteract.c
@@ -236,7 +236,7 @@ CalInitInteract(Cal_BddManager_t *bddManager)
   /* If there are some results pending in the pipeline, we need to
      take those into account as well */
 
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     CalRequestNode_t **requestNodeListArray =
         bddManager->requestNodeListArray;
     Cal_Bdd_t resultBdd;
diff --git a/src/calPipeline.c b/src/calPipeline.c
index 8313aa5..4d7c11d 100644
--- a/src/calPipeline.c
+++ b/src/calPipeline.c
@@ -252,14 +252,7 @@ Cal_PipelineExecute(Cal_BddManager bddManager)
     }
     requestNodeListArray += bddManager->depth;
   }
-  /* Need to decrement the reference counts */
-  for (i=0; i<bddManager->pipelineDepth; i++){
-    for (node=bddManager->requestNodeListArray[i]; node; node = nextNode){
-      nextNode = CalBddNodeGetNextBddNode(node);
-      CalBddNodeGetThenBdd(node, thenBdd);
-      CalBddDcrRefCount(thenBdd);
-    }
-  }
+  /* The results stay locked until Cal_PipelineQuit */
   bddManager->pipelineState = UPDATE;
   return 1;
 }
@@ -297,16 +290,15 @@ Cal_PipelineQuit(Cal_BddManager bddManager)
   int i;
   Cal_Bdd_t resultBdd;
 
-  if (bddManager->pipelineState == CREATE){
-    /* Release the results locked by an execution that was aborted */
-    for (i = 0;
-         i < bddManager->pipelineDepth - bddManager->currentPipelineDepth;
-         i++){
-      for (requestNode = bddManager->requestNodeListArray[i]; requestNode;
-           requestNode = CalRequestNodeGetNextRequestNode(requestNode)){
-        CalBddNodeGetThenBdd(requestNode, resultBdd);
-        CalBddDcrRefCount(resultBdd);
-      }
+  /* Release the results locked by the execution, which may have been
+     aborted before the last level */
+  for (i = 0;
+       i < bddManager->pipelineDepth - bddManager->currentPipelineDepth;
+       i++){
+    for (requestNode = bddManager->requestNodeListArray[i]; requestNode;
+         requestNode = CalRequestNodeGetNextRequestNode(requestNode)){
+      CalBddNodeGetThenBdd(requestNode, resultBdd);
+      CalBddDcrRefCount(resultBdd);
     }
   }
   bddManager->pipelineState = READY;
diff --git a/src/calReorderBF.c b/src/calReorderBF.c
index 6ed8128..6070ad7 100644
--- a/src/calReorderBF.c
+++ b/src/calReorderBF.c
@@ -568,7 +568,7 @@ CofactorFixAndReclaimForwardedNodes(Cal_BddManager_t *bddManager, int
   int index, varId;
   /* Clean up : Need to fix the cofactors of userBDDs and the
      indices above the varStartIndex only. */
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
@@ -888,7 +888,7 @@ BddReorderSiftToBestPos(Cal_BddManager_t * bddManager, int
 
     if (swapFlag){
       /* Fix user BDD pointers and reclaim forwarding nodes */
-      if (bddManager->pipelineState == CREATE){
+      if (bddManager->pipelineState != READY){
         /* There are some results computed in pipeline */
         CalBddReorderFixProvisionalNodes(bddManager);
       }
@@ -950,7 +950,7 @@ BddReorderSiftToBestPos(Cal_BddManager_t * bddManager, int
 
     if (swapFlag){
       /* Fix user BDD pointers and reclaim forwarding nodes */
-      if (bddManager->pipelineState == CREATE){
+      if (bddManager->pipelineState != READY){
         /* There are some results computed in pipeline */
         CalBddReorderFixProvisionalNodes(bddManager);
       }
@@ -1098,7 +1098,7 @@ BddSiftPerfromPhaseIV(Cal_BddManager_t *bddManager, int varStartIndex,
     CalBddReorderFixCofactors(bddManager, varId);
     varCurIndex--;
   }
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
@@ -1177,7 +1177,7 @@ BddReorderVarWindow(Cal_BddManager bddManager, char *levels)
         CalBddReorderFixCofactors(bddManager, bddManager->indexToId[i]);
       }
       CalBddReorderFixUserBddPtrs(bddManager);
-      if (bddManager->pipelineState == CREATE){
+      if (bddManager->pipelineState != READY){
         /* There are some results computed in pipeline */
         CalBddReorderFixProvisionalNodes(bddManager);
       }
@@ -1242,7 +1242,7 @@ BddReorderVarWindow(Cal_BddManager bddManager, char *levels)
       }
       even = 1;
       CalBddReorderFixUserBddPtrs(bddManager);
-      if (bddManager->pipelineState == CREATE){
+      if (bddManager->pipelineState != READY){
         /* There are some results computed in pipeline */
         CalBddReorderFixProvisionalNodes(bddManager);
       }
@@ -1256,7 +1256,7 @@ BddReorderVarWindow(Cal_BddManager bddManager, char *levels)
       CalBddReorderFixCofactors(bddManager, bddManager->indexToId[i]);
     }
     CalBddReorderFixUserBddPtrs(bddManager);
-    if (bddManager->pipelineState == CREATE){
+    if (bddManager->pipelineState != READY){
       /* There are some results computed in pipeline */
       CalBddReorderFixProvisionalNodes(bddManager);
     }
diff --git a/src/calReorderDF.c b/src/calReorderDF.c
index 5a92224..44b3902 100644
--- a/src/calReorderDF.c
+++ b/src/calReorderDF.c
@@ -600,7 +600,7 @@ BddReallocateNodesInPlace(Cal_BddManager_t *bddManager)
     /* Fix the varBdd array */
   }
 /* Need to update the handles to the nodes being moved */
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodesAfterReallocation(bddManager);
   }
@@ -795,7 +795,7 @@ BddReallocateNodes(Cal_BddManager_t *bddManager)
     CalBddIsForwardedTo(bddManager->varBdds[id]);
   }
 
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
diff --git a/src/calReorderUtil.c b/src/calReorderUtil.c
index a2a7f3e..b992729 100644
--- a/src/calReorderUtil.c
+++ b/src/calReorderUtil.c
@@ -142,7 +142,7 @@ CalCheckAllValidity(Cal_BddManager bddManager)
     CalCheckValidityOfNodesForId(bddManager, id);
   }
   CalCheckAssociationValidity(bddManager);
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     CalCheckPipelineValidity(bddManager);
   }
   CalCheckRefCountValidity(bddManager);
@@ -334,7 +334,7 @@ CalCheckRefCountValidity(Cal_BddManager_t *bddManager)
         nextBddNode = CalBddNodeGetNextBddNode(bddNode);
         /* If the pipeline execution is going on, the following
            assertion will not hold */
-        if (bddManager->pipelineState != CREATE){
+        if (bddManager->pipelineState == READY){
           Cal_Assert(CalBddNodeIsRefCountZero(bddNode) ||
                      CalBddNodeIsRefCountMax(bddNode));
         }
-- 
2.43.0


From d8c409e08396df325a3f06d5a641190fab495ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:59 +0000
Subject: [PATCH 22/26] fix: Cal_BddCompose of a null handle returns null

---
 src/calBddCompose.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calBddCompose.c b/src/calBddCompose.c
index 96770d0..6cda2c3 100644
--- a/src/calBddCompose.c
+++ b/src/calBddCompose.c
@@ -82,7 +82,7 @@ Cal_BddCompose(Cal_BddManager bddManager, Cal_Bdd  fUserBdd,
   Cal_Bdd_t F, G, H;
 
   if (CalBddPreProcessing(bddManager, 3, fUserBdd, gUserBdd, hUserBdd) == 0){
-    result = bddManager->bddNull;
+    return Cal_BddNull(bddManager);
   }
   F = CalBddGetInternalBdd(bddManager, fUserBdd);
   G = CalBddGetInternalBdd(bddManager, gUserBdd);
-- 
2.43.0


From 446f0d591394052a3125969c5a8e1e6a52244463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:39 +0000
Subject: [PATCH 23/26] fix: multi-operand operations and Compose leave a
 queued pipeline alone

Both used the manager's request list array, which holds the requests of a
pipeline between its creation and its end: the multi-operand result was
wrong and the queued requests were lost or executed with another operator.
---
 src/calBddCompose.c |  4 +---
 src/calBddOp.c      | 14 +++++++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/calBddCompose.c b/src/calBddCompose.c
index 6cda2c3..957fa4e 100644
--- a/src/calBddCompose.c
+++ b/src/calBddCompose.c
@@ -96,18 +96,16 @@ Cal_BddCompose(Cal_BddManager bddManager, Cal_Bdd  fUserBdd,
   CalRequestNodePutF(requestNode, F);
   CalRequestNodePutG(requestNode, H);
   CalRequestNodePutNextRequestNode(requestNode, 0);
-  bddManager->requestNodeListArray[0] = requestNode;
   /*
   ** We can achieve a superscalar compose operation, provided G
   ** is the same for all the compose operation
   */
 
-  CalRequestNodeListCompose(bddManager, bddManager->requestNodeListArray[0],
+  CalRequestNodeListCompose(bddManager, requestNode,
       CalBddGetBddIndex(bddManager, G));
 
   CalRequestNodeGetThenRequest(requestNode, result);
   CalNodeManagerFreeNode(bddManager->nodeManagerArray[0], requestNode);
-  bddManager->requestNodeListArray[0] = Cal_Nil(CalRequestNode_t);
 
   return CalBddGetExternalBdd(bddManager, result);
 }
diff --git a/src/calBddOp.c b/src/calBddOp.c
index 01518c9..d342780 100644
--- a/src/calBddOp.c
+++ b/src/calBddOp.c
@@ -43,6 +43,7 @@
 /*---------------------------------------------------------------------------*/
 /* Constant declarations                                                     */
 /*---------------------------------------------------------------------------*/
+#define MAX_MULTIWAY_DEPTH 10
 
 /*---------------------------------------------------------------------------*/
 /* Type declarations                                                         */
@@ -739,6 +740,14 @@ BddMultiwayOp(Cal_BddManager_t * bddManager, Cal_Bdd_t * calBddArray,
   int pipeDepth;
   CalRequestNode_t *requestNode;
   Cal_Bdd_t result;
+  CalRequestNode_t *multiwayListArray[MAX_MULTIWAY_DEPTH];
+  CalRequestNode_t **pipelineListArray = bddManager->requestNodeListArray;
+
+  /* The requests of a pipeline may be waiting in the manager's array */
+  for(pipeDepth = 0; pipeDepth < MAX_MULTIWAY_DEPTH; pipeDepth++){
+    multiwayListArray[pipeDepth] = Cal_Nil(CalRequestNode_t);
+  }
+  bddManager->requestNodeListArray = multiwayListArray;
 
   BddArrayToRequestNodeListArray(bddManager, calBddArray, numBdds);
   CalRequestNodeListArrayOp(bddManager, bddManager->requestNodeListArray, op);
@@ -754,8 +763,7 @@ BddMultiwayOp(Cal_BddManager_t * bddManager, Cal_Bdd_t * calBddArray,
         Cal_Nil(CalRequestNode_t);
   }
   requestNode = bddManager->requestNodeListArray[bddManager->depth-1];
-  bddManager->requestNodeListArray[bddManager->depth-1] =
-      Cal_Nil(CalRequestNode_t);
+  bddManager->requestNodeListArray = pipelineListArray;
   CalRequestNodeGetThenRequest(requestNode, result);
   CalNodeManagerFreeNode(bddManager->nodeManagerArray[0],
                          requestNode);
@@ -776,7 +784,7 @@ BddArrayToRequestNodeListArray(
   CalRequestNode_t *even, *odd, *requestNode, *requestNodeList, *head;
 
   bddManager->depth = CeilLog2(numBdds);
-  if (bddManager->depth > 10){
+  if (bddManager->depth > MAX_MULTIWAY_DEPTH){
     CalBddFatalMessage("Don't be stooopid\n, Use lesser depth\n");
   }
 
-- 
2.43.0


From c27ed435d4e8c1ff1a0fbc00c103b91628dbd504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:40 +0000
Subject: [PATCH 24/26] fix: negation, copy and pipelining of the null handle
 yield null

The other operations pass an overflow on; these dereferenced it.
---
 src/cal.c         | 2 ++
 src/calPipeline.c | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/cal.c b/src/cal.c
index 0363541..4738d64 100644
--- a/src/cal.c
+++ b/src/cal.c
@@ -131,6 +131,7 @@ Cal_BddIdentity(Cal_BddManager bddManager, Cal_Bdd userBdd)
 {
   /* Interface BDD reference count */
   CalBddNode_t *bddNode = CAL_BDD_POINTER(userBdd);
+  if (userBdd == 0) return Cal_BddNull(bddManager);
   CalBddNodeIcrRefCount(bddNode);
   return userBdd;
 }
@@ -166,6 +167,7 @@ Cal_BddNot(Cal_BddManager bddManager, Cal_Bdd userBdd)
 {
   /* Interface BDD reference count */
   CalBddNode_t *bddNode = CAL_BDD_POINTER(userBdd);
+  if (userBdd == 0) return Cal_BddNull(bddManager);
   CalBddNodeIcrRefCount(bddNode);
   return CalBddNodeNot(userBdd);
 }
diff --git a/src/calPipeline.c b/src/calPipeline.c
index 4d7c11d..b90711b 100644
--- a/src/calPipeline.c
+++ b/src/calPipeline.c
@@ -148,6 +148,9 @@ Cal_PipelineCreateProvisionalBdd(Cal_BddManager bddManager, Cal_Bdd fUserBdd,
 
   insertDepth = 0;
 
+  if (fUserBdd == 0 || gUserBdd == 0){
+    return Cal_BddNull(bddManager);
+  }
   f = CalBddGetInternalBdd(bddManager, fUserBdd);
   g = CalBddGetInternalBdd(bddManager, gUserBdd);
   if(bddManager->pipelineState != CREATE){
-- 
2.43.0


From fdff2707c36447a0855f7bdad28e61e16021274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:53 +0000
Subject: [PATCH 25/26] fix: Cal_BddCompose for a constant counts the reference
 on the untagged node

---
 src/calBddCompose.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/calBddCompose.c b/src/calBddCompose.c
index 957fa4e..591e9f8 100644
--- a/src/calBddCompose.c
+++ b/src/calBddCompose.c
@@ -89,8 +89,7 @@ Cal_BddCompose(Cal_BddManager bddManager, Cal_Bdd  fUserBdd,
   H = CalBddGetInternalBdd(bddManager, hUserBdd);
 
   if(CalBddIsBddConst(G)){
-    CalBddNodeIcrRefCount(fUserBdd);
-    return fUserBdd;
+    return Cal_BddIdentity(bddManager, fUserBdd);
   }
   CalNodeManagerAllocNode(bddManager->nodeManagerArray[0], requestNode);
   CalRequestNodePutF(requestNode, F);
-- 
2.43.0


From 37b334bcb9bd7ce88c69dd15b9ea246fc81107c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:16 +0000
Subject: [PATCH 26/26] fix: Cal_BddIf, Cal_BddThen and Cal_BddElse of a
 constant return null

They read an uninitialised entry of the variable array (Cal_BddIf) or
followed the constant's non-existent cofactors, and crashed. Warn, as
Cal_BddIf already did, and return the null function.
---
 src/cal.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cal.c b/src/cal.c
index 4738d64..d294e2a 100644
--- a/src/cal.c
+++ b/src/cal.c
@@ -217,6 +217,7 @@ Cal_BddIf(Cal_BddManager bddManager, Cal_Bdd userBdd)
   F = CalBddGetInternalBdd(bddManager, userBdd);
   if (CalBddIsBddConst(F)){
     CalBddWarningMessage("Cal_BddIf: argument is constant");
+    return Cal_BddNull(bddManager);
   }
   return CalBddGetExternalBdd(bddManager, bddManager->varBdds[CalBddGetBddId(F)]);
 }
@@ -233,6 +234,10 @@ Cal_BddThen(Cal_BddManager bddManager, Cal_Bdd userBdd)
     return Cal_BddNull(bddManager);
   }
   F = CalBddGetInternalBdd(bddManager, userBdd);
+  if (CalBddIsBddConst(F)){
+    CalBddWarningMessage("Cal_BddThen: argument is constant");
+    return Cal_BddNull(bddManager);
+  }
   CalBddGetThenBdd(F, thenBdd);
   return CalBddGetExternalBdd(bddManager, thenBdd);
 }
@@ -248,6 +253,10 @@ Cal_BddElse(Cal_BddManager bddManager, Cal_Bdd userBdd)
     return Cal_BddNull(bddManager);
   }
   F = CalBddGetInternalBdd(bddManager, userBdd);
+  if (CalBddIsBddConst(F)){
+    CalBddWarningMessage("Cal_BddElse: argument is constant");
+    return Cal_BddNull(bddManager);
+  }
   CalBddGetElseBdd(F, elseBdd);
   return CalBddGetExternalBdd(bddManager, elseBdd);
 }
-- 
2.43.0

