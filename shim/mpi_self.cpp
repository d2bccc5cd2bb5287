// In-process stand-in for point-to-point messages a process sends to itself (one rank, many submeshes and threads), compiled with the race detector:
// the buffers are read and written here by the threads that start and complete the transfers, and the only ordering is that of the message itself.
#include <mpi.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <map>
#include <mutex>
#include <condition_variable>
#include <vector>
#include <limits>
#include <atomic>
namespace {
const unsigned long long MAGIC = 0x5eedc0dedeadbea7ull;
struct Chan { std::mutex m; std::condition_variable cv; std::map<long, std::vector<char>> msg; long sent = 0, posted = 0; };
struct Req { unsigned long long magic; Chan* c; bool send, persistent, active; char* buf; size_t n; bool dbl; long ticket; std::vector<char> copy; };
struct Bucket { std::mutex m; std::map<int, Chan*> c; } g_b[4096];
std::atomic<long> g_sent{0}, g_recv{0}, g_bad{0};
struct Report { ~Report() { if (const char* p = std::getenv("VERIF_OMPLOG")) if (FILE* f = std::fopen(p, "a")) { std::fprintf(f, "MSG %ld %ld %ld\n", g_sent.load(), g_recv.load(), g_bad.load()); std::fclose(f); } } } g_report;
Chan* chan(int tag) { Bucket& b = g_b[(unsigned)tag * 2654435761u >> 20]; std::lock_guard<std::mutex> l(b.m); auto& x = b.c[tag]; if (!x) x = new Chan; return x; }
Req* mine(MPI_Request q) { if (q == MPI_REQUEST_NULL || !q) return nullptr; Req* r = (Req*)q; return r->magic == MAGIC ? r : nullptr; }
Req* make(bool send, bool pers, const void* b, int n, MPI_Datatype t, int tag) { int s; PMPI_Type_size(t, &s); return new Req{MAGIC, chan(tag), send, pers, false, (char*)b, (size_t)n * s, t == MPI_DOUBLE, 0, {}}; }
void start(Req* r) {
    if (r->active) { g_bad.fetch_add(1, std::memory_order_relaxed); std::fprintf(stderr, "MPI-SELF: started while active\n"); }
    r->active = true;
    if (r->send) { r->copy.assign(r->buf, r->buf + r->n); { std::lock_guard<std::mutex> l(r->c->m); r->c->msg[r->c->sent++] = r->copy; } r->c->cv.notify_all(); g_sent.fetch_add(1, std::memory_order_relaxed); }
    else { { std::lock_guard<std::mutex> l(r->c->m); r->ticket = r->c->posted++; } if (r->dbl) for (size_t i = 0; i < r->n / 8; ++i) { double x = std::numeric_limits<double>::quiet_NaN(); std::memcpy(r->buf + 8 * i, &x, 8); } }
}
void wait(Req* r) {
    if (!r->active) return;
    if (r->send) { if (r->n && std::memcmp(r->copy.data(), r->buf, r->n)) { g_bad.fetch_add(1, std::memory_order_relaxed); std::fprintf(stderr, "MPI-SELF: send buffer changed in flight\n"); } }
    else { std::vector<char> m; { std::unique_lock<std::mutex> l(r->c->m); r->c->cv.wait(l, [&] { return r->c->msg.count(r->ticket); }); m = std::move(r->c->msg[r->ticket]); r->c->msg.erase(r->ticket); }
           if (m.size() != r->n) { g_bad.fetch_add(1, std::memory_order_relaxed); std::fprintf(stderr, "MPI-SELF: size %zu received in %zu\n", m.size(), r->n); } std::memcpy(r->buf, m.data(), m.size() < r->n ? m.size() : r->n); g_recv.fetch_add(1, std::memory_order_relaxed); }
    r->active = false;
}
}
extern "C" {
int MPI_Send_init(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* q) { if (c != MPI_COMM_WORLD) return PMPI_Send_init(b, n, t, dst, tag, c, q); *q = (MPI_Request)make(true, true, b, n, t, tag); return 0; }
int MPI_Recv_init(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* q) { if (c != MPI_COMM_WORLD) return PMPI_Recv_init(b, n, t, src, tag, c, q); *q = (MPI_Request)make(false, true, b, n, t, tag); return 0; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* q) { if (c != MPI_COMM_WORLD) return PMPI_Isend(b, n, t, dst, tag, c, q); Req* r = make(true, false, b, n, t, tag); start(r); *q = (MPI_Request)r; return 0; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* q) { if (c != MPI_COMM_WORLD) return PMPI_Irecv(b, n, t, src, tag, c, q); Req* r = make(false, false, b, n, t, tag); start(r); *q = (MPI_Request)r; return 0; }
int MPI_Start(MPI_Request* q) { Req* r = mine(*q); if (!r) return PMPI_Start(q); start(r); return 0; }
int MPI_Startall(int n, MPI_Request q[]) { for (int i = 0; i < n; ++i) MPI_Start(&q[i]); return 0; }
int MPI_Wait(MPI_Request* q, MPI_Status* s) { Req* r = mine(*q); if (!r) return PMPI_Wait(q, s); wait(r); if (!r->persistent) { delete r; *q = MPI_REQUEST_NULL; } return 0; }
int MPI_Waitall(int n, MPI_Request q[], MPI_Status s[]) { bool m = false; for (int i = 0; i < n; ++i) m |= mine(q[i]) != nullptr; if (!m) return PMPI_Waitall(n, q, s); for (int i = 0; i < n; ++i) MPI_Wait(&q[i], MPI_STATUS_IGNORE); return 0; }
int MPI_Test(MPI_Request* q, int* f, MPI_Status* s) { Req* r = mine(*q); if (!r) return PMPI_Test(q, f, s); if (!r->send && r->active) { std::lock_guard<std::mutex> l(r->c->m); if (!r->c->msg.count(r->ticket)) { *f = 0; return 0; } } *f = 1; return MPI_Wait(q, s); }
int MPI_Request_free(MPI_Request* q) { Req* r = mine(*q); if (!r) return PMPI_Request_free(q); if (r->active) { g_bad.fetch_add(1, std::memory_order_relaxed); std::fprintf(stderr, "MPI-SELF: freed while active\n"); } delete r; *q = MPI_REQUEST_NULL; return 0; }
}
