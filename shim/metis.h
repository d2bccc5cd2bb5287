// Stand-in for a 64-bit METIS (the installed one is 32-bit): partitions come from the harness or from the installed METIS through dlopen.
#ifndef VERIF_METIS_H
#define VERIF_METIS_H
#include <stdint.h>
typedef int64_t idx_t;
typedef double real_t;
#define METIS_NOPTIONS 40
enum { METIS_OK = 1, METIS_ERROR_INPUT = -2, METIS_ERROR_MEMORY = -3, METIS_ERROR = -4 };
#ifdef __cplusplus
extern "C" {
#endif
int METIS_SetDefaultOptions(idx_t* options);
int METIS_PartGraphKway(idx_t* nvtxs, idx_t* ncon, idx_t* xadj, idx_t* adjncy, idx_t* vwgt, idx_t* vsize, idx_t* adjwgt, idx_t* nparts, real_t* tpwgts,
                        real_t* ubvec, idx_t* options, idx_t* edgecut, idx_t* part);
#ifdef __cplusplus
}
#endif
#endif
