/* Zoltan is linked with immediate binding; EnGPar never selects its SCOTCH backend. */
#include <stdlib.h>
int SCOTCH_archCmpltw(void) { abort(); }
int SCOTCH_archExit(void) { abort(); }
int SCOTCH_archInit(void) { abort(); }
int SCOTCH_dgraphBuild(void) { abort(); }
int SCOTCH_dgraphExit(void) { abort(); }
int SCOTCH_dgraphInit(void) { abort(); }
int SCOTCH_dgraphMap(void) { abort(); }
int SCOTCH_dgraphOrderCblkDist(void) { abort(); }
int SCOTCH_dgraphOrderCompute(void) { abort(); }
int SCOTCH_dgraphOrderExit(void) { abort(); }
int SCOTCH_dgraphOrderInit(void) { abort(); }
int SCOTCH_dgraphOrderPerm(void) { abort(); }
int SCOTCH_dgraphOrderTreeDist(void) { abort(); }
int SCOTCH_dgraphSize(void) { abort(); }
int SCOTCH_graphBuild(void) { abort(); }
int SCOTCH_graphExit(void) { abort(); }
int SCOTCH_graphInit(void) { abort(); }
int SCOTCH_graphMap(void) { abort(); }
int SCOTCH_graphOrder(void) { abort(); }
int SCOTCH_graphStat(void) { abort(); }
int SCOTCH_stratDgraphMap(void) { abort(); }
int SCOTCH_stratDgraphOrder(void) { abort(); }
int SCOTCH_stratExit(void) { abort(); }
int SCOTCH_stratGraphMap(void) { abort(); }
int SCOTCH_stratGraphOrder(void) { abort(); }
int SCOTCH_stratInit(void) { abort(); }
