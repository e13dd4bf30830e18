/* Read-only window into a manager plus the knobs the simulator turns. */
#ifndef PEEK_H
#define PEEK_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { uint32_t id; uintptr_t node; } Edge; /* node has complement in bit 0 */
Edge peek_internal(void *m, void *userBdd);
Edge peek_then(Edge e); Edge peek_else(Edge e);      /* cofactors incl. complement */
unsigned peek_refcount(Edge e); unsigned peek_user_refcount(void *userBdd);
int peek_is_const(Edge e); int peek_forwarded(Edge e);
int peek_num_vars(void *m); int peek_max_vars(void *m);
int peek_id_to_index(void *m, int id); int peek_index_to_id(void *m, int ix);
unsigned long peek_num_nodes(void *m); unsigned long peek_table_entries(void *m, int id);
int peek_num_gc(void *m); long peek_num_reorder(void *m); long peek_pages(void *m);
Edge peek_var(void *m, int id); Edge peek_one(void *m);
/* walk all nodes of level id; callback(then, else, nodeaddr, refcount) */
void peek_walk(void *m, int id, void (*cb)(void *ctx, Edge node, Edge t, Edge e, unsigned rc), void *ctx);
void peek_assoc_edges(void *m, void (*cb)(void *ctx, int assocId, int varId, Edge e), void *ctx);
int peek_pipeline_state(void *m);
int peek_request_residue(void *m);   /* leftover requests in the queues */
int peek_mark_residue(void *m);      /* nodes left marked */
enum { ACT_NONE = 0, ACT_GC = 1, ACT_REPACK = 2, ACT_REORDER = 3, ACT_CHECK = 4, ACT_NATURAL = 5 };
void poke_maintenance(void *m, int act, int quiet);
void poke_cache_ratio(void *m);
int peek_reorder_enabled(void *m);
int peek_gc_mode(void *m);
void poke_limits(void *m, int minGcLimit);
#ifdef __cplusplus
}
#endif
#endif
