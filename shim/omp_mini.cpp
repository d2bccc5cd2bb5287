// Small OpenMP runtime on pthreads (entry points GCC emits for parallel/barrier/critical/single/atomic), compiled with the race detector so that
// every ordering OpenMP guarantees -- and no other -- is visible to it. VERIF_OMPJIT=<microseconds> perturbs thread progress at every entry.
#include <pthread.h>
#include <unistd.h>
#include <cstdlib>
#include <cstdio>
#include <map>
#include <mutex>
#include <condition_variable>
#include <random>
#include <thread>
#include <vector>
#include <atomic>
namespace {
struct Team { int n; std::mutex m; std::condition_variable cv; int in = 0; long gen = 0; long singles = 0; };
thread_local Team* t_team = nullptr; thread_local int t_id = 0; thread_local long t_single = 0; thread_local std::mt19937* t_rng = nullptr;
int jit() { static int j = std::getenv("VERIF_OMPJIT") ? std::atoi(std::getenv("VERIF_OMPJIT")) : 0; return j; }
void nap() { int j = jit(); if (!j || !t_rng) return; unsigned r = (*t_rng)(); if (r % 4 == 0) ::usleep(r / 4 % j); }
int limit() { static int n = [] { const char* e = std::getenv("OMP_NUM_THREADS"); int k = e ? std::atoi(e) : 0; return k > 0 ? k : (int)std::thread::hardware_concurrency(); }(); return n; }
std::mutex g_crit, g_atomic, g_names; std::map<void*, std::mutex*> g_named;
std::atomic<long> g_barriers{0}, g_regions{0}, g_threads{0};
struct Report { ~Report() { if (const char* p = std::getenv("VERIF_OMPLOG")) if (FILE* f = std::fopen(p, "a")) { std::fprintf(f, "OMP %ld %ld %ld\n", g_regions.load(), g_threads.load(), g_barriers.load()); std::fclose(f); } } } g_report;
void run(Team* t, int id, void (*fn)(void*), void* data) {
    Team* o = t_team; int oi = t_id; long os = t_single; std::mt19937* orng = t_rng; unsigned s = std::getenv("VERIF_OMPSEED") ? std::atoi(std::getenv("VERIF_OMPSEED")) : 1; std::mt19937 r(s * 7919 + id);
    t_team = t; t_id = id; t_single = 0; t_rng = &r; nap(); fn(data); nap(); t_team = o; t_id = oi; t_single = os; t_rng = orng;
}
}
extern "C" {
int omp_get_thread_num() { return t_id; }
int omp_get_num_threads() { return t_team ? t_team->n : 1; }
int omp_get_max_threads() { return t_team ? 1 : limit(); }
int omp_in_parallel() { return t_team && t_team->n > 1; }
int omp_get_num_procs() { return (int)std::thread::hardware_concurrency(); }
int omp_get_level() { return t_team ? 1 : 0; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
void omp_set_num_threads(int) {}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
    int k = t_team ? 1 : n ? (int)n : limit(); Team t; t.n = k; g_regions.fetch_add(1, std::memory_order_relaxed); g_threads.fetch_add(k, std::memory_order_relaxed);
    std::vector<std::thread> th; for (int i = 1; i < k; ++i) th.emplace_back(run, &t, i, fn, data);
    run(&t, 0, fn, data); for (auto& x : th) x.join();
}
void GOMP_barrier() {
    Team* t = t_team; if (!t || t->n == 1) return;
    nap(); { std::unique_lock<std::mutex> l(t->m); long g = t->gen; if (++t->in == t->n) { t->in = 0; ++t->gen; g_barriers.fetch_add(1, std::memory_order_relaxed); t->cv.notify_all(); } else t->cv.wait(l, [&] { return t->gen != g; }); } nap();
}
void GOMP_critical_start() { nap(); g_crit.lock(); }
void GOMP_critical_end() { g_crit.unlock(); }
void GOMP_critical_name_start(void** p) { nap(); std::mutex* m; { std::lock_guard<std::mutex> l(g_names); auto& x = g_named[p]; if (!x) x = new std::mutex; m = x; } m->lock(); }
void GOMP_critical_name_end(void** p) { std::mutex* m; { std::lock_guard<std::mutex> l(g_names); m = g_named[p]; } m->unlock(); }
void GOMP_atomic_start() { g_atomic.lock(); }
void GOMP_atomic_end() { g_atomic.unlock(); }
bool GOMP_single_start() { Team* t = t_team; if (!t) return true; std::lock_guard<std::mutex> l(t->m); if (t_single == t->singles) { ++t->singles; ++t_single; return true; } ++t_single; return false; }
}
