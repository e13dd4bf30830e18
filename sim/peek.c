#include "calInt.h"
#include "peek.h"
static Cal_Bdd_t mk(Edge e) { Cal_Bdd_t b; b.bddId = (Cal_BddId_t)e.id; b.bddNode = (CalBddNode_t *)e.node; return b; }
static Edge ed(Cal_Bdd_t b) { Edge e; e.id = b.bddId; e.node = (uintptr_t)b.bddNode; return e; }
Edge peek_internal(void *mm, void *u) { Cal_BddManager m = mm; Cal_Bdd_t b = CalBddGetInternalBdd(m, (Cal_Bdd)u); (void)m; return ed(b); }
Edge peek_then(Edge e) { Cal_Bdd_t b = mk(e), r; CalBddGetThenBdd(b, r); return ed(r); }
Edge peek_else(Edge e) { Cal_Bdd_t b = mk(e), r; CalBddGetElseBdd(b, r); return ed(r); }
unsigned peek_refcount(Edge e) { Cal_Bdd_t b = mk(e); unsigned rc; Cal_BddRefCount_t r; CalBddGetRefCount(b, r); rc = r; return rc; }
unsigned peek_user_refcount(void *u) { CalBddNode_t *n = CAL_BDD_POINTER((CalBddNode_t *)u); Cal_BddRefCount_t r; CalBddNodeGetRefCount(n, r); return r; }
int peek_is_const(Edge e) { Cal_Bdd_t b = mk(e); return CalBddIsBddConst(b); }
int peek_forwarded(Edge e) { Cal_Bdd_t b = mk(e); return CalBddIsForwarded(b); }
int peek_num_vars(void *m) { return ((Cal_BddManager)m)->numVars; }
int peek_max_vars(void *m) { return ((Cal_BddManager)m)->maxNumVars; }
int peek_id_to_index(void *m, int id) { return ((Cal_BddManager)m)->idToIndex[id]; }
int peek_index_to_id(void *m, int ix) { return ((Cal_BddManager)m)->indexToId[ix]; }
unsigned long peek_num_nodes(void *m) { return ((Cal_BddManager)m)->numNodes; }
unsigned long peek_table_entries(void *m, int id) { return ((Cal_BddManager)m)->uniqueTable[id]->numEntries; }
int peek_num_gc(void *m) { return ((Cal_BddManager)m)->numGC; }
long peek_num_reorder(void *m) { return ((Cal_BddManager)m)->numReorderings; }
long peek_pages(void *mm) { Cal_BddManager m = mm; long n = 0; int i; for (i = 0; i <= m->numVars; i++) n += m->nodeManagerArray[i]->numPages; return n; }
Edge peek_var(void *m, int id) { return ed(((Cal_BddManager)m)->varBdds[id]); }
Edge peek_one(void *m) { return ed(((Cal_BddManager)m)->bddOne); }
void peek_walk(void *mm, int id, void (*cb)(void *, Edge, Edge, Edge, unsigned), void *ctx) {
  Cal_BddManager m = mm; CalHashTable_t *t = m->uniqueTable[id]; long i; CalBddNode_t *n, *nx;
  for (i = 0; i < (long)t->numBins; i++)
    for (n = t->bins[i]; n; n = nx) {
      Cal_Bdd_t tb, eb; Edge self; Cal_BddRefCount_t rc;
      nx = CalBddNodeGetNextBddNode(n);
      CalBddNodeGetThenBdd(n, tb); CalBddNodeGetElseBdd(n, eb); CalBddNodeGetRefCount(n, rc);
      self.id = id; self.node = (uintptr_t)n;
      cb(ctx, self, ed(tb), ed(eb), rc);
    }
}
void peek_assoc_edges(void *mm, void (*cb)(void *, int, int, Edge), void *ctx) {
  Cal_BddManager m = mm; CalAssociation_t *a; int i;
  for (a = m->associationList; a; a = a->next)
    for (i = 1; i <= m->numVars; i++) if (CalBddGetBddId(a->varAssociation[i]) != CAL_BDD_NULL_ID) cb(ctx, a->id, i, ed(a->varAssociation[i]));
  a = m->tempAssociation;
  for (i = 1; i <= m->numVars; i++) if (CalBddGetBddId(a->varAssociation[i]) != CAL_BDD_NULL_ID) cb(ctx, -1, i, ed(a->varAssociation[i]));
}
int peek_pipeline_state(void *m) { return ((Cal_BddManager)m)->pipelineState; }
int peek_request_residue(void *mm) {
  Cal_BddManager m = mm; int d, i, n = 0;
  for (d = 0; d < m->maxDepth; d++) for (i = 0; i <= m->numVars; i++) n += m->reqQue[d][i]->numEntries != 0;
  return n;
}
static void markCb(void *ctx, Edge s, Edge t, Edge e, unsigned rc) {
  CalBddNode_t *n = (CalBddNode_t *)s.node; (void)t; (void)e; (void)rc;
  if (CalBddNodeIsMarked(n)) ++*(int *)ctx;
}
int peek_mark_residue(void *mm) { int n = 0, i; for (i = 1; i <= peek_num_vars(mm); i++) peek_walk(mm, i, markCb, &n); return n; }
int peek_reorder_enabled(void *m) { return ((Cal_BddManager)m)->reorderTechnique != CAL_REORDER_NONE; }
int peek_gc_mode(void *m) { return ((Cal_BddManager)m)->gcMode; }
/* Arrange the decision inputs so that the package's own policy code takes the
   chosen path at this maintenance point. */
void poke_maintenance(void *mm, int act, int quiet) {
  Cal_BddManager m = mm;
  m->repackAfterGCThreshold = 0.75; m->reorderingThreshold = CAL_BDD_REORDER_THRESHOLD;
  switch (act) {
    case ACT_NONE: if (quiet) m->gcCheck = 1; break;
    case ACT_GC: m->gcCheck = 0; m->uniqueTableGCLimit = 0; m->repackAfterGCThreshold = 0; m->reorderingThreshold = 1L << 40; break;
    case ACT_REPACK: m->gcCheck = 0; m->uniqueTableGCLimit = 0; m->repackAfterGCThreshold = 4; m->reorderingThreshold = 1L << 40; break;
    case ACT_REORDER: m->gcCheck = 0; m->uniqueTableGCLimit = 0; m->reorderingThreshold = 0; break;
    case ACT_CHECK: m->gcCheck = 0; break;
    default: break;
  }
}
void poke_limits(void *m, int lim) { ((Cal_BddManager)m)->uniqueTableGCLimit = lim; }
