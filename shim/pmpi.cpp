// Monitoring and fault-injecting MPI layer (PMPI): the strictest behaviour the MPI standard allows, plus checks of how it is used.
//  - a send leaves from a private copy taken at Start, at a random later time (per destination and tag in order), in the background
//  - a receive arrives in a private buffer; the user's buffer holds signalling garbage from Start until the completion call
//  - monitored: buffers changed in flight, overlapping active buffers, double starts, wrong sizes, requests never completed
// Point-to-point traffic on MPI_COMM_WORLD only (PETSc works on its own communicators). Log: $VERIF_MPILOG_<rank>.  Off unless VERIF_MPILOG is set.
#include <mpi.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <vector>
#include <deque>
#include <string>
#include <mutex>
#include <thread>
#include <condition_variable>
#include <chrono>
#include <memory>
#include <random>
#include <limits>
#include <unistd.h>
namespace {
struct Req {
    bool send, persistent, active = false, sent = true; char* user; std::vector<char> priv; int count, size, peer, tag, ord; MPI_Datatype type; long starts = 0, done = 0;
};
struct Ev { int ord, count; uint64_t h; };
struct Key { int peer, tag; bool operator<(const Key& o) const { return peer != o.peer ? peer < o.peer : tag < o.tag; } };
struct G {
    std::mutex m; std::condition_variable cv; std::map<MPI_Request, std::shared_ptr<Req>> req; std::map<Key, int> no[2]; std::map<Key, std::vector<Ev>> seq[2];
    std::map<int, std::deque<MPI_Request>> q; bool stop = false; std::vector<std::thread> th; std::map<int, bool> worker; FILE* f = nullptr; int rank = 0; double delay = 0, wdelay = 0; unsigned seed = 1; std::mt19937_64 rng;
    long bad = 0, ncheck = 0, nmsg = 0, nlate = 0; std::vector<std::shared_ptr<Req>> all;
};
G& g() { static G* x = new G; return *x; }
bool on() { return g().f != nullptr; }
uint64_t hash(const char* p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; ++i) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; } return h; }
void bad(const char* what, const Req& r) {
    if (g().bad++ < 50) { std::fprintf(g().f, "BAD %s %s peer %d tag %d channel %d start %ld\n", what, r.send ? "send" : "recv", r.peer, r.tag, r.ord, r.starts); std::fflush(g().f); }
}
double rnd() { return std::uniform_real_distribution<double>(0, 1)(g().rng); }
void nap(double s) { if (s > 0) ::usleep((useconds_t)(s * 1e6)); }
double pick() { std::lock_guard<std::mutex> l(g().m); double u = rnd(); return u < 0.5 ? 0 : g().delay * rnd() * (u > 0.95 ? 6 : 1); }
double wpick() { std::lock_guard<std::mutex> l(g().m); double u = rnd(); return u < 0.6 ? 0 : g().wdelay * rnd(); }
void worker(int k) {
    for (;;) {
        MPI_Request h;
        { std::unique_lock<std::mutex> l(g().m); auto& q = g().q[k]; g().cv.wait(l, [&] { return g().stop || !q.empty(); }); if (q.empty()) return; h = q.front(); }
        double d = pick(); if (d > 0) { ++g().nlate; nap(d); }
        PMPI_Start(&h);
        { std::lock_guard<std::mutex> l(g().m); g().q[k].pop_front(); auto it = g().req.find(h); if (it != g().req.end()) it->second->sent = true; }
        g().cv.notify_all();
    }
}
std::shared_ptr<Req> find(MPI_Request h) { std::lock_guard<std::mutex> l(g().m); auto it = g().req.find(h); return it == g().req.end() ? nullptr : it->second; }
std::shared_ptr<Req> make(bool send, bool pers, void* buf, int count, MPI_Datatype t, int peer, int tag) {
    auto r = std::make_shared<Req>(); r->send = send; r->persistent = pers; r->user = (char*)buf; int s; PMPI_Type_size(t, &s); r->size = s; r->count = count; r->type = t; r->peer = peer; r->tag = tag; r->priv.resize((size_t)count * s + 1);
    std::lock_guard<std::mutex> l(g().m); r->ord = g().no[send][Key{peer, tag}]++; g().all.push_back(r); return r;
}
void begin(Req& r) {        // user side of a start; caller then starts (or queues) the private transfer
    std::lock_guard<std::mutex> l(g().m);
    if (r.active) bad("started while active", r);
    size_t n = (size_t)r.count * r.size; 
    if (r.starts < 3) for (auto& o : g().req) if (o.second->active && o.second.get() != &r && !(o.second->send && r.send)) { ++g().ncheck; char* a = o.second->user; size_t k = (size_t)o.second->count * o.second->size; if (n && k && a < r.user + n && r.user < a + k) bad("buffer overlaps an active transfer", r); }
    r.active = true; ++r.starts;
    if (r.send) { std::memcpy(r.priv.data(), r.user, n); g().seq[1][Key{r.peer, r.tag}].push_back({r.ord, r.count, hash(r.priv.data(), n)}); ++g().nmsg; }
    else if (r.type == MPI_DOUBLE) for (int i = 0; i < r.count; ++i) { double x = std::numeric_limits<double>::quiet_NaN(); std::memcpy(r.user + 8 * (size_t)i, &x, 8); }
    else std::memset(r.user, 0xEE, n);
    std::memcpy(r.priv.data() + n, "\x5a", 1);
}
void end(Req& r, const MPI_Status& st) {
    std::lock_guard<std::mutex> l(g().m);
    if (!r.active) return;
    r.active = false; ++r.done; size_t n = (size_t)r.count * r.size; ++g().ncheck;
    if (r.send) { if (std::memcmp(r.priv.data(), r.user, n)) bad("buffer changed while the transfer was in flight", r); return; }
    int c; PMPI_Get_count(&st, r.type, &c);
    if (c != r.count) bad("received size differs from the posted size", r);
    bool touched = false;
    if (r.type == MPI_DOUBLE) { double x = std::numeric_limits<double>::quiet_NaN(); for (int i = 0; i < r.count; ++i) touched |= std::memcmp(r.user + 8 * (size_t)i, &x, 8) != 0; }
    if (touched) bad("buffer changed while the transfer was in flight", r);
    if (c > 0 && c <= r.count) std::memcpy(r.user, r.priv.data(), (size_t)c * r.size);
    g().seq[0][Key{st.MPI_SOURCE, st.MPI_TAG}].push_back({r.ord, c, hash(r.priv.data(), (size_t)(c < r.count ? c : r.count) * r.size)});
}
void launch(MPI_Request h, std::shared_ptr<Req> r) {
    if (!r->send || g().delay <= 0) { PMPI_Start(&h); return; }
    int k = (r->peer * 7919 + r->tag * 31) % 16; if (k < 0) k += 16;      // one queue per key or shared: order per (destination, tag) is kept
    { std::lock_guard<std::mutex> l(g().m); r->sent = false; g().q[k].push_back(h); if (!g().worker[k]) { g().worker[k] = true; g().th.emplace_back(worker, k); } }
    g().cv.notify_all();
}
void await_sent(Req& r) { std::unique_lock<std::mutex> l(g().m); g().cv.wait(l, [&] { return r.sent; }); }
void up() {
    const char* e = std::getenv("VERIF_MPILOG"); if (!e) return;
    PMPI_Comm_rank(MPI_COMM_WORLD, &g().rank); if (const char* d = std::getenv("VERIF_MPIDELAY")) g().delay = std::atof(d); if (const char* d = std::getenv("VERIF_MPIWAIT")) g().wdelay = std::atof(d); if (const char* d = std::getenv("VERIF_MPISEED")) g().seed = std::atoi(d);
    g().rng.seed(g().seed * 1000003u + g().rank); g().f = std::fopen((std::string(e) + "_" + std::to_string(g().rank)).c_str(), "w");
}
}
extern "C" {
int MPI_Init_thread(int* a, char*** b, int c, int* d) { int r = PMPI_Init_thread(a, b, c, d); up(); return r; }
int MPI_Init(int* a, char*** b) { int r = PMPI_Init(a, b); up(); return r; }
int MPI_Send_init(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* q) {
    if (!on() || c != MPI_COMM_WORLD) return PMPI_Send_init(b, n, t, dst, tag, c, q);
    auto r = make(true, true, (void*)b, n, t, dst, tag); int e = PMPI_Send_init(r->priv.data(), n, t, dst, tag, c, q); std::lock_guard<std::mutex> l(g().m); g().req[*q] = r; return e;
}
int MPI_Recv_init(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* q) {
    if (!on() || c != MPI_COMM_WORLD) return PMPI_Recv_init(b, n, t, src, tag, c, q);
    auto r = make(false, true, b, n, t, src, tag); int e = PMPI_Recv_init(r->priv.data(), n, t, src, tag, c, q); std::lock_guard<std::mutex> l(g().m); g().req[*q] = r; return e;
}
int MPI_Start(MPI_Request* q) { auto r = on() ? find(*q) : nullptr; if (!r) return PMPI_Start(q); begin(*r); launch(*q, r); return MPI_SUCCESS; }
int MPI_Startall(int n, MPI_Request q[]) { for (int i = 0; i < n; ++i) { int e = MPI_Start(&q[i]); if (e) return e; } return MPI_SUCCESS; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* q) {
    if (!on() || c != MPI_COMM_WORLD) return PMPI_Isend(b, n, t, dst, tag, c, q);
    auto r = make(true, false, (void*)b, n, t, dst, tag); r->ord = -1; begin(*r); int e = PMPI_Isend(r->priv.data(), n, t, dst, tag, c, q); std::lock_guard<std::mutex> l(g().m); g().req[*q] = r; return e;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* q) {
    if (!on() || c != MPI_COMM_WORLD) return PMPI_Irecv(b, n, t, src, tag, c, q);
    auto r = make(false, false, b, n, t, src, tag); r->ord = -1; begin(*r); int e = PMPI_Irecv(r->priv.data(), n, t, src, tag, c, q); std::lock_guard<std::mutex> l(g().m); g().req[*q] = r; return e;
}
static void drop(MPI_Request h, Req& r) { if (!r.persistent) { std::lock_guard<std::mutex> l(g().m); g().req.erase(h); } }
int MPI_Wait(MPI_Request* q, MPI_Status* s) {
    auto r = on() ? find(*q) : nullptr; if (!r) return PMPI_Wait(q, s);
    nap(wpick()); await_sent(*r); MPI_Request h = *q; MPI_Status st; int e = PMPI_Wait(q, &st); end(*r, st); drop(h, *r); if (s != MPI_STATUS_IGNORE) *s = st; return e;
}
int MPI_Waitall(int n, MPI_Request q[], MPI_Status s[]) {
    if (!on()) return PMPI_Waitall(n, q, s);
    bool mine = false; for (int i = 0; i < n; ++i) mine |= find(q[i]) != nullptr;
    if (!mine) return PMPI_Waitall(n, q, s);
    int e = 0; std::vector<int> o(n); for (int i = 0; i < n; ++i) o[i] = i;
    { std::lock_guard<std::mutex> l(g().m); for (int i = n - 1; i > 0; --i) std::swap(o[i], o[g().rng() % (i + 1)]); }
    for (int i : o) e |= MPI_Wait(&q[i], s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &s[i]);
    return e;
}
int MPI_Test(MPI_Request* q, int* flag, MPI_Status* s) {
    auto r = on() ? find(*q) : nullptr; if (!r) return PMPI_Test(q, flag, s);
    { std::lock_guard<std::mutex> l(g().m); if (!r->sent) { *flag = 0; return MPI_SUCCESS; } }
    MPI_Request h = *q; MPI_Status st; int e = PMPI_Test(q, flag, &st); if (*flag) { end(*r, st); drop(h, *r); if (s != MPI_STATUS_IGNORE) *s = st; } return e;
}
int MPI_Testall(int n, MPI_Request q[], int* flag, MPI_Status s[]) {
    if (!on()) return PMPI_Testall(n, q, flag, s);
    bool mine = false; for (int i = 0; i < n; ++i) mine |= find(q[i]) != nullptr;
    if (!mine) return PMPI_Testall(n, q, flag, s);
    for (int i = 0; i < n; ++i) { int f; MPI_Request h = q[i]; if (h == MPI_REQUEST_NULL) continue; auto r = find(h); if (r) { std::lock_guard<std::mutex> l(g().m); if (!r->sent) { *flag = 0; return MPI_SUCCESS; } } PMPI_Request_get_status(h, &f, MPI_STATUS_IGNORE); if (!f) { *flag = 0; return MPI_SUCCESS; } }
    *flag = 1; return MPI_Waitall(n, q, s);
}
int MPI_Waitany(int n, MPI_Request q[], int* ix, MPI_Status* s) {
    if (!on()) return PMPI_Waitany(n, q, ix, s);
    for (;;) { bool any = false; for (int i = 0; i < n; ++i) { if (q[i] == MPI_REQUEST_NULL) continue; auto r = find(q[i]); if (r && !r->active) continue; any = true; int f; MPI_Test(&q[i], &f, s); if (f) { *ix = i; return MPI_SUCCESS; } } if (!any) { *ix = MPI_UNDEFINED; return MPI_SUCCESS; } std::this_thread::yield(); }
}
int MPI_Request_free(MPI_Request* q) { auto r = on() ? find(*q) : nullptr; if (r) { if (r->active) { std::lock_guard<std::mutex> l(g().m); bad("freed while active", *r); r->active = false; } std::lock_guard<std::mutex> l(g().m); g().req.erase(*q); } return PMPI_Request_free(q); }
int MPI_Finalize() {
    if (on()) {
        { std::lock_guard<std::mutex> l(g().m); g().stop = true; } g().cv.notify_all(); for (auto& t : g().th) t.join();
        for (auto& r : g().all) if (r->active) bad("never completed", *r);
        FILE* f = g().f; for (int s = 0; s < 2; ++s) for (auto& k : g().seq[s]) { std::fprintf(f, "%s %d %d %d %zu", s ? "SENT" : "RECV", k.first.peer, k.first.tag, g().no[s][k.first], k.second.size()); for (auto& e : k.second) std::fprintf(f, " %d:%d:%llx", e.ord, e.count, (unsigned long long)e.h); std::fputc('\n', f); }
        std::fprintf(f, "OK %ld %ld %ld %ld\n", g().nmsg, g().ncheck, g().nlate, g().bad); std::fclose(f); g().f = nullptr;
    }
    return PMPI_Finalize();
}
}
