/* CAL_SIM_HEADER: tuning constants become per-run knobs of the simulator. */
#ifndef SIM_TUNE_H
#define SIM_TUNE_H
#ifdef __cplusplus
extern "C" {
#endif
struct sim_tune {
  int gcCheck, pagesThreshold, forwardedLimit, pagesPerSegment,
      maxSegments, hashIndex, cacheIndex, minGcLimit, reorderThreshold, largeBdd, nodesPerPage;
};
extern struct sim_tune simTune;
void sim_maintenance_point(void *manager);
#ifdef __cplusplus
}
#endif
#ifndef SIM_NO_TUNE /* fallback of check.py when the sources need compile-time constants */
/* pages of which only the first slots are used: small runs then fill, move and
   give back whole pages */
#undef NUM_NODES_PER_PAGE
#define NUM_NODES_PER_PAGE (simTune.nodesPerPage > 0 ? simTune.nodesPerPage : (int)(PAGE_SIZE / sizeof(CalBddNode_t)))
#undef CAL_GC_CHECK
#define CAL_GC_CHECK simTune.gcCheck
#undef CAL_NUM_PAGES_THRESHOLD
#define CAL_NUM_PAGES_THRESHOLD simTune.pagesThreshold
#undef CAL_NUM_FORWARDED_NODES_LIMIT
#define CAL_NUM_FORWARDED_NODES_LIMIT simTune.forwardedLimit
#undef NUM_PAGES_PER_SEGMENT
#define NUM_PAGES_PER_SEGMENT simTune.pagesPerSegment
#undef MAX_NUM_SEGMENTS
#define MAX_NUM_SEGMENTS simTune.maxSegments
#undef HASH_TABLE_DEFAULT_SIZE_INDEX
#define HASH_TABLE_DEFAULT_SIZE_INDEX simTune.hashIndex
#undef CAL_MIN_GC_LIMIT
#define CAL_MIN_GC_LIMIT simTune.minGcLimit
#undef CAL_BDD_REORDER_THRESHOLD
#define CAL_BDD_REORDER_THRESHOLD simTune.reorderThreshold
#undef CAL_LARGE_BDD
#define CAL_LARGE_BDD simTune.largeBdd
#endif
#define CAL_SIM_CACHE_SIZE_INDEX simTune.cacheIndex
#define CAL_SIM_MAINTENANCE_POINT(m) sim_maintenance_point((void *)(m))
#endif
