// METIS_PartGraphKway driven by VERIF_PART: a file of lines "P n v0 v1 ..." (answer of the n-th call), "E n" (the n-th call fails); other calls go to
// the installed METIS. Every call is logged to VERIF_PARTLOG with the graph it was given.
#include "metis.h"
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
static int g_call = 0;
extern "C" int METIS_SetDefaultOptions(idx_t* o) {
    for (int i = 0; i < METIS_NOPTIONS; ++i) o[i] = -1;
    return METIS_OK;
}
extern "C" int METIS_PartGraphKway(idx_t* nvtxs, idx_t* ncon, idx_t* xadj, idx_t* adjncy, idx_t* vwgt, idx_t*, idx_t* adjwgt, idx_t* nparts, real_t* tpwgts,
                                   real_t* ubvec, idx_t*, idx_t* edgecut, idx_t* part) {
    const int call = g_call++;
    const idx_t n = *nvtxs, m = n > 0 ? xadj[n] : 0;
    if (const char* l = std::getenv("VERIF_PARTLOG")) {
        FILE* f = std::fopen(l, "a");
        std::fprintf(f, "CALL %d %lld %lld %lld\nX", call, (long long)n, (long long)*ncon, (long long)*nparts);
        for (idx_t i = 0; i <= n; ++i) std::fprintf(f, " %lld", (long long)xadj[i]);
        std::fprintf(f, "\nA");
        for (idx_t i = 0; i < m; ++i) std::fprintf(f, " %lld", (long long)adjncy[i]);
        std::fprintf(f, "\nW");
        for (idx_t i = 0; i < n * *ncon; ++i) std::fprintf(f, " %lld", (long long)vwgt[i]);
        std::fprintf(f, "\nE");
        for (idx_t i = 0; i < m; ++i) std::fprintf(f, " %lld", (long long)adjwgt[i]);
        std::fprintf(f, "\n");
        std::fclose(f);
    }
    *edgecut = 0;
    if (const char* p = std::getenv("VERIF_PART")) {
        std::ifstream in(p);
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream s(line);
            std::string k; int c; s >> k >> c;
            if (c != call) continue;
            if (k == "E") return METIS_ERROR_INPUT;
            std::vector<idx_t> v; idx_t x;
            while (s >> x) v.push_back(x);
            if ((idx_t)v.size() < n) { std::fprintf(stderr, "shim: answer too short: %zu < %lld\n", v.size(), (long long)n); std::exit(99); }
            for (idx_t i = 0; i < n; ++i) part[i] = v[i] % *nparts;
            return METIS_OK;
        }
    }
    static void* h = dlopen("libmetis.so.5", RTLD_NOW);
    if (!h) { std::fprintf(stderr, "shim: no METIS\n"); std::exit(98); }
    typedef int (*F)(int*, int*, int*, int*, int*, int*, int*, int*, float*, float*, int*, int*, int*);
    F f = (F)dlsym(h, "METIS_PartGraphKway");
    int N = n, C = *ncon, P = *nparts, cut = 0;
    std::vector<int> X(xadj, xadj + n + 1), A(adjncy, adjncy + m), W(n * C), EW(m), R(n + 1), O(METIS_NOPTIONS, -1);
    idx_t mw = 1, me = 1;
    for (idx_t i = 0; i < n * C; ++i) mw = std::max(mw, vwgt[i]);
    for (idx_t i = 0; i < m; ++i) me = std::max(me, adjwgt[i]);
    for (idx_t i = 0; i < n * C; ++i) W[i] = (int)(1000.0 * vwgt[i] / mw);
    for (idx_t i = 0; i < m; ++i) EW[i] = 1 + (int)(1000.0 * adjwgt[i] / me);
    std::vector<float> T(P * C), U(C);
    for (int i = 0; i < P * C; ++i) T[i] = (float)tpwgts[i];
    for (int i = 0; i < C; ++i) U[i] = (float)ubvec[i];
    int r = f(&N, &C, X.data(), A.data(), W.data(), nullptr, EW.data(), &P, T.data(), U.data(), O.data(), &cut, R.data());
    for (idx_t i = 0; i < n; ++i) part[i] = R[i];
    *edgecut = cut;
    return r;
}
