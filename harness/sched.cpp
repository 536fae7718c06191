// Not instrumented. Uses no std containers in anything reached from callbacks.
#include "sched.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <new>
#include <algorithm>
#include <cstddef>
#include <cstdio>

extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t);
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*); int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*); int __real_pthread_once(pthread_once_t*, void (*)());
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*);
}

namespace {
const int MAXT = 4;
typedef uint16_t clk;
struct VC { clk c[MAXT]; };
enum St { IDLE, RUN, BLOCKED, DONE };
struct WS { int used; bool init; long long next, end, incr, chunk; bool ull_, up; unsigned long long unext, uend, uincr, uchunk; int kind; bool taken; unsigned sections, snext; int grabbed; int finished[1 << 12]; void* copy; };
struct Thr { sem_t sem; pthread_t th; bool started; St st; const void* wait; int ws; WS* cur; int chunk_no; int spins; char *lo, *hi; };
Thr thr[MAXT];
__thread int self = 0;          // index in the team
__thread int busy = 0;          // inside this runtime
__thread int level = 0;         // depth of parallel regions
bool active = false, in_region = false;
int N = 1;                      // size of the running team
sched::Opts opt; int budget = 0; vp::Ctx* ctx = nullptr; sched::Stats st;
VC vc[MAXT];
void (*g_fn)(void*); void* g_data;
char msg[4096]; bool bad = false;
struct Busy { Busy() { ++busy; } ~Busy() { --busy; } };

void violation(const char* f, ...) { if (bad) return; bad = true; va_list a; va_start(a, f); vsnprintf(msg, sizeof msg, f, a); va_end(a); }
[[noreturn]] void die(const char* why) { fprintf(stderr, "ERROR: %s\n", why); fflush(stderr); _exit(78); }

// ---- shadow memory -------------------------------------------------------------------
struct Cell { clk w[MAXT], r[MAXT], aw[MAXT], ar[MAXT]; };
struct Page { uintptr_t key; uint32_t gen[64]; Cell c[4096]; };
const size_t HASH = 1 << 15;
Page* pages[HASH]; uint32_t gen = 1; size_t npages = 0; Page* last = nullptr;
Page* page(uintptr_t a) {
    uintptr_t k = a >> 12;
    if (last && last->key == k) return last;
    size_t h = (k * 0x9e3779b97f4a7c15ull) >> 49;
    while (pages[h] && pages[h]->key != k) h = (h + 1) & (HASH - 1);
    if (!pages[h]) { if (++npages > HASH / 2) die("shadow memory exhausted"); pages[h] = (Page*)__real_calloc(1, sizeof(Page)); pages[h]->key = k; }
    return last = pages[h];
}
inline Cell* cell(uintptr_t a) {
    Page* p = page(a); int b = (a >> 6) & 63;
    if (p->gen[b] != gen) { p->gen[b] = gen; __real_memset(&p->c[b << 6], 0, sizeof(Cell) * 64); }
    return &p->c[a & 4095];
}
struct Label { uintptr_t lo, hi; char name[40]; }; Label labels[256]; int nlabels = 0;
const char* where(uintptr_t a, char* buf, size_t n) {
    for (int i = nlabels; i--;) if (a >= labels[i].lo && a < labels[i].hi) { snprintf(buf, n, "%s + %zu bytes", labels[i].name, size_t(a - labels[i].lo)); return buf; }
    for (int i = 0; i < MAXT; ++i) if (thr[i].lo && a >= (uintptr_t)thr[i].lo && a < (uintptr_t)thr[i].hi) { snprintf(buf, n, "the stack of thread %d", i); return buf; }
    snprintf(buf, n, "static or heap memory"); return buf;
}
void symbol(void* pc, char* buf, size_t n) {
    char cmd[128]; snprintf(cmd, sizeof cmd, "addr2line -Cfe /proc/%d/exe %p 2>/dev/null", getpid(), (char*)pc - 1);
    buf[0] = 0; FILE* p = popen(cmd, "r"); if (!p) return;
    size_t k = fread(buf, 1, n - 1, p); buf[k] = 0; pclose(p);
    for (char* q = buf; *q; ++q) if (*q == '\n') *q = ' ';
}
void race(uintptr_t a, int t, int u, bool w, bool uw, void* pc) {
    if (bad) return;
    char b[128], s[600]; symbol(pc, s, sizeof s);
    violation("threads %d and %d of %d %s %s without synchronisation (thread %d %s, thread %d %s) at %s", u, t, N, "touch", where(a, b, sizeof b), u, uw ? "wrote" : "read", t, w ? "writes" : "reads", s);
}
void access(uintptr_t a, size_t n, bool w, bool atomic, void* pc) {
    int t = self; const clk* v = vc[t].c; st.accesses++;
    for (size_t i = 0; i < n; ++i) {
        Cell* c = cell(a + i);
        for (int u = 0; u < N; ++u) if (u != t) {
            if (c->w[u] > v[u] || (!atomic && c->aw[u] > v[u])) race(a + i, t, u, w, true, pc);
            if (w && (c->r[u] > v[u] || (!atomic && c->ar[u] > v[u]))) race(a + i, t, u, w, false, pc);
        }
        (atomic ? (w ? c->aw : c->ar) : (w ? c->w : c->r))[t] = v[t];
    }
}
void fresh(const void* p, size_t n) { // newly allocated memory has no history
    if (!in_region || !p) return;
    uintptr_t a = (uintptr_t)p, e = a + n;
    while (a < e) { Page* pg = page(a); size_t in = std::min<size_t>(e - a, 4096 - (a & 4095)); for (size_t i = 0; i < in;) { int b = ((a + i) >> 6) & 63; size_t k = std::min<size_t>(in - i, 64 - ((a + i) & 63)); if (pg->gen[b] == gen) __real_memset(&pg->c[(a + i) & 4095], 0, k * sizeof(Cell)); i += k; } a += in; }
}

// ---- happens-before edges ------------------------------------------------------------
struct Sync { uintptr_t key; VC v; int owner; int depth; uint32_t gen; };
Sync syncs[1 << 12];
Sync* sync_of(const void* p) {
    size_t h = (((uintptr_t)p) * 0x9e3779b97f4a7c15ull) >> 52;
    for (int i = 0; i < (1 << 12); ++i, h = (h + 1) & 4095) {
        if (syncs[h].gen != gen) { memset(&syncs[h], 0, sizeof(Sync)); syncs[h].gen = gen; syncs[h].key = (uintptr_t)p; syncs[h].owner = -1; return &syncs[h]; }
        if (syncs[h].key == (uintptr_t)p) return &syncs[h];
    }
    die("too many synchronisation objects");
}
void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
void acquire(Sync* s) { join(vc[self], s->v); }
void release(Sync* s) { join(s->v, vc[self]); if (vc[self].c[self] == 65535) die("clock overflow"); vc[self].c[self]++; }

// ---- the scheduler -------------------------------------------------------------------
inline bool explored() { return opt.only == -1 || opt.only == (int)st.regions - 1; }
int pick(int n, const char* what) { if (n == 1 || !explored()) return 0; try { return ctx->choose(n, what); } catch (const vp::Violation& v) { violation("%s", v.msg.c_str()); } catch (const vp::Skip&) { violation("harness error: split inside a region"); } return 0; }
void wait_turn(int t) { while (sem_wait(&thr[t].sem)) {} thr[t].spins = 0; }
void hand_to(int t) { st.switches++; sem_post(&thr[t].sem); }
void switch_to(int t) { int me = self; hand_to(t); wait_turn(me); }
// the running thread cannot continue
void leave(const char* what) {
    int r[MAXT], n = 0; for (int i = 0; i < N; ++i) if (thr[i].st == RUN) r[n++] = i;
    if (!n) { bool all = true; for (int i = 0; i < N; ++i) if (thr[i].st != DONE) all = false; if (!all) die("deadlock: every thread of the team is blocked"); if (self != 0) hand_to(0); return; }
    int t = r[pick(n, what)];
    if (thr[self].st == DONE && self != 0) hand_to(t); else switch_to(t);
}
void block(const void* on) { thr[self].st = BLOCKED; thr[self].wait = on; leave("next thread"); }
void wake(const void* on) { for (int i = 0; i < N; ++i) if (thr[i].st == BLOCKED && thr[i].wait == on) thr[i].st = RUN; }
inline bool tracking() { return in_region; }
void point(const char* what) {
    if (!tracking()) return;
    st.points++;
    if (budget <= 0 || !explored()) return;
    int r[MAXT], n = 0; for (int i = 0; i < N; ++i) if (i != self && thr[i].st == RUN) r[n++] = i;
    if (!n) return;
    int k = pick(n + 1, what);
    if (k) { --budget; switch_to(r[k - 1]); }
}
void fairness() {
    if (!tracking() || ++thr[self].spins < 200) return;
    thr[self].spins = 0;
    for (int d = 1; d < N; ++d) { int i = (self + d) % N; if (thr[i].st == RUN) { switch_to(i); return; } }
}
void lock(const void* p, bool nest = false) { if (!tracking()) return; point("lock"); Sync* s = sync_of(p); if (nest && s->owner == self) { s->depth++; return; } while (s->owner >= 0) block(p); s->owner = self; s->depth = 1; acquire(s); }
bool trylock(const void* p) { if (!tracking()) return true; point("try lock"); Sync* s = sync_of(p); if (s->owner >= 0) { fairness(); return false; } s->owner = self; s->depth = 1; acquire(s); return true; }
void unlock(const void* p) { if (!tracking()) return; Sync* s = sync_of(p); if (s->owner != self) violation("a lock is released by a thread that does not hold it"); if (--s->depth > 0) return; release(s); s->owner = -1; wake(p); point("unlock"); }
int bar_in = 0; VC bar_vc; char bar_key[2]; int bar_no = 0;
void barrier() {
    if (!tracking() || level != 1) return;   // a team of one otherwise
    join(bar_vc, vc[self]);
    if (++bar_in < N) { block(&bar_key[bar_no & 1]); return; }
    for (int i = 0; i < N; ++i) { vc[i] = bar_vc; }
    for (int i = 0; i < N; ++i) { if (vc[i].c[i] == 65535) die("clock overflow"); vc[i].c[i]++; }
    bar_in = 0; const void* k = &bar_key[bar_no & 1]; bar_no++; wake(k);
    // any of the released threads may go first
    int r[MAXT], n = 0; for (int i = 0; i < N; ++i) if (thr[i].st == RUN) r[n++] = i;
    int t = r[pick(n, "first after the barrier")]; if (t != self) switch_to(t);
}
const int NWS = 64; WS wss[NWS];
__thread WS nest[4];              // work-sharing constructs of teams of one
inline int team() { return in_region && level == 1 ? N : 1; }
WS* new_ws() { // the next work-sharing construct of this thread
    if (!in_region || level != 1) { WS* w = &nest[level & 3]; memset(w, 0, offsetof(WS, finished)); w->used = -2; memset(w->finished, 0, sizeof w->finished); thr[self].cur = w; thr[self].chunk_no = -1; return w; }
    int k = thr[self].ws++; WS* w = &wss[k % NWS];
    if (w->used != k + 1) { memset(w, 0, offsetof(WS, finished)); w->used = k + 1; w->init = false; }
    thr[self].cur = w; thr[self].chunk_no = -1; return w;
}
bool app = false;        // the threads are the application's
bool combined = false;   // the region is a combined parallel loop or sections construct
void team_body(int t) {
    self = t; level = app ? 2 : 1; thr[t].ws = 0; thr[t].cur = combined ? &wss[0] : nullptr; thr[t].chunk_no = -1;
    if (thr[t].cur) thr[t].ws = 1; // combined parallel loop
    int b = busy; busy = 0; g_fn(g_data); busy = b;
    level = 0;
}
void* worker_main(void* p) {
    int t = (int)(intptr_t)p; self = t; busy = 1;
    pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); void* lo; size_t sz; pthread_attr_getstack(&a, &lo, &sz); thr[t].lo = (char*)lo; thr[t].hi = (char*)lo + sz; pthread_attr_destroy(&a);
    while (true) { wait_turn(t); team_body(t); thr[t].st = DONE; leave("next thread"); }
    return nullptr;
}
void start_pool() {
    for (int i = 0; i < MAXT; ++i) if (!thr[i].started) {
        sem_init(&thr[i].sem, 0, 0); thr[i].started = true;
        if (i) { if (pthread_create(&thr[i].th, nullptr, worker_main, (void*)(intptr_t)i)) die("cannot create a thread"); }
        else { pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); void* lo; size_t sz; pthread_attr_getstack(&a, &lo, &sz); thr[0].lo = (char*)lo; thr[0].hi = (char*)lo + sz; pthread_attr_destroy(&a); }
    }
}
int team_size(unsigned req) { if (!active || level > 0 || opt.team == 1) return 1; int n = req ? std::min<int>(req, MAXT) : opt.team; return n < 1 ? 1 : n; }
// prepares the work-sharing construct of a combined parallel loop, runs the team
template <typename Init> void region(void (*fn)(void*), void* data, unsigned req, Init init) {
    int n = team_size(req);
    if (n == 1) { // a team of one, inside a running team or not
        WS own; WS* sc = thr[self].cur; int sk = thr[self].chunk_no;
        __real_memset(&own, 0, sizeof own); own.used = -1;
        level++;
        bool comb; { Busy g; comb = init(&own); }
        thr[self].cur = comb ? &own : nullptr; thr[self].chunk_no = -1;
        int sb = busy; busy = 0; fn(data); busy = sb;
        level--; thr[self].cur = sc; thr[self].chunk_no = sk;
        return;
    }
    Busy g; start_pool();
    N = n; gen++; last = nullptr; in_region = true; st.regions++; bar_in = 0; memset(&bar_vc, 0, sizeof bar_vc); bar_no = 0;
    memset(vc, 0, sizeof vc); for (int i = 0; i < N; ++i) { vc[i].c[i] = 1; thr[i].st = RUN; thr[i].spins = 0; }
    for (int i = 0; i < NWS; ++i) wss[i].used = 0;
    memset(&wss[0], 0, offsetof(WS, finished));
    combined = init(&wss[0]); if (combined) { wss[0].used = 1; wss[0].init = true; }
    g_fn = fn; g_data = data;
    int first = pick(N, "first thread");
    if (first) switch_to(first);
    team_body(0);
    thr[0].st = DONE;
    bool all = true; for (int i = 0; i < N; ++i) if (thr[i].st != DONE) all = false;
    if (!all) { leave("next thread"); }
    self = 0; in_region = false; N = 1;
}
bool none(WS*) { return false; }
// ---- loops ---------------------------------------------------------------------------
enum { STATIC_, DYNAMIC_, GUIDED_ };
void set_loop(WS* w, int kind, long s, long e, long i, long ch) { w->kind = kind; w->ull_ = false; w->next = s; w->end = e; w->incr = i; w->chunk = ch <= 0 ? 1 : ch; w->init = true; if (kind == STATIC_ && ch <= 0) { long long it = i > 0 ? (e - s + i - 1) / i : (s - e - i - 1) / -i; if (it < 0) it = 0; w->chunk = std::max<long long>(1, (it + team() - 1) / team()); } }
void set_ull(WS* w, int kind, bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long ch) { w->kind = kind; w->ull_ = true; w->up = up; w->unext = s; w->uend = e; w->uincr = i; w->uchunk = ch ? ch : 1; w->init = true; }
void done_chunk() { Thr& t = thr[self]; if (t.cur && t.chunk_no >= 0 && t.chunk_no < (1 << 12)) { t.cur->finished[t.chunk_no] = t.cur->used; if (tracking()) wake(&t.cur->grabbed); } t.chunk_no = -1; }
bool next_chunk(long* is, long* ie) {
    Busy g; done_chunk(); point("loop chunk"); WS* w = thr[self].cur; if (!w) die("loop without a work-sharing construct");
    long long it = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
    if ((w->incr > 0 && w->next >= w->end) || (w->incr < 0 && w->next <= w->end) || it <= 0) return false;
    long long c = w->kind == GUIDED_ ? std::max<long long>(w->chunk, (it + team() - 1) / team()) : w->chunk; if (c > it) c = it;
    *is = w->next; *ie = (c == it) ? w->end : w->next + c * w->incr; w->next += c * w->incr; if (c == it) w->next = w->end; thr[self].chunk_no = w->grabbed++; return true;
}
bool next_ull(unsigned long long* is, unsigned long long* ie) {
    Busy g; done_chunk(); point("loop chunk"); WS* w = thr[self].cur; if (!w) die("loop without a work-sharing construct");
    unsigned long long step = w->up ? w->uincr : -w->uincr, left = w->up ? (w->uend > w->unext ? w->uend - w->unext : 0) : (w->unext > w->uend ? w->unext - w->uend : 0), it = left / step + (left % step ? 1 : 0);
    if (!it) return false;
    unsigned long long c = w->kind == GUIDED_ ? std::max<unsigned long long>(w->uchunk, (it + team() - 1) / team()) : w->uchunk; if (c > it) c = it;
    *is = w->unext; *ie = c == it ? w->uend : w->unext + c * w->uincr; w->unext = *ie; thr[self].chunk_no = w->grabbed++; return true;
}
bool start_loop(int kind, long s, long e, long i, long ch, long* is, long* ie) { { Busy g; WS* w = new_ws(); if (!w->init) set_loop(w, kind, s, e, i, ch); } return next_chunk(is, ie); }
bool start_ull(int kind, bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long ch, unsigned long long* is, unsigned long long* ie) { { Busy g; WS* w = new_ws(); if (!w->init) set_ull(w, kind, up, s, e, i, ch); } return next_ull(is, ie); }
void ordered_enter() { if (!in_region || level != 1) return; WS* w = thr[self].cur; if (!w) return; while (true) { bool ok = true; for (int k = 0; k < thr[self].chunk_no && k < (1 << 12); ++k) if (w->finished[k] != w->used) { ok = false; break; } if (ok) break; block(&w->grabbed); } acquire(sync_of(&w->finished)); }
void ordered_leave() { if (!in_region || level != 1) return; WS* w = thr[self].cur; if (w) release(sync_of(&w->finished)); }
} // namespace

namespace sched {
void begin(vp::Ctx& c, const Opts& o) { Busy g; ctx = &c; opt = o; budget = o.preemptions; bad = false; memset(&st, 0, sizeof st); nlabels = 0; active = true; if (o.team > 1) start_pool(); }
void end() { active = false; if (bad) throw vp::Violation{msg}; }
Stats stats() { return st; }
struct AppCall { void (*fn)(int, void*); void* d; };
void threads(int n, void (*fn)(int, void*), void* d) { AppCall a{fn, d}; app = true; region([](void* p) { AppCall* a = (AppCall*)p; a->fn(self, a->d); }, &a, n, none); app = false; }
void forked() { for (int i = 0; i < MAXT; ++i) thr[i].started = false; }
void label(const void* p, size_t n, const char* name) { if (nlabels < 256) { labels[nlabels].lo = (uintptr_t)p; labels[nlabels].hi = (uintptr_t)p + n; snprintf(labels[nlabels].name, sizeof labels[nlabels].name, "%s", name); nlabels++; } }
}

// ---- instrumentation callbacks ---------------------------------------------------------
static inline void plain(const void* p, size_t n, bool w, void* pc) {
    if (!in_region || busy) return;
    Busy g;
    if (opt.at_accesses && budget > 0) { char* q = (char*)p; if (!(q >= thr[self].lo && q < thr[self].hi)) point("access"); }
    access((uintptr_t)p, n, w, false, pc);
}
#define PC __builtin_return_address(0)
#define ACC(n) \
    void __tsan_read##n(void* p) { plain(p, n, false, PC); } void __tsan_write##n(void* p) { plain(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { plain(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { plain(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { if (in_region && !busy) { Busy g; fairness(); } plain(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { plain(p, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void* p) { plain(p, n, false, PC); } void __tsan_unaligned_volatile_write##n(void* p) { plain(p, n, true, PC); } \
    void __tsan_read_write##n(void* p) { plain(p, n, true, PC); }
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
struct At { // brackets an atomic operation
    bool on; const volatile void* p; int mo; bool w;
    At(const volatile void* p, size_t n, int mo, bool w, void* pc) : on(in_region && !busy), p(p), mo(mo & 0xffff), w(w) { if (!on) return; Busy g; point("atomic"); fairness(); access((uintptr_t)p, n, w, true, pc); if (acq(this->mo)) acquire(sync_of((void*)p)); }
    ~At() { if (!on || !w) return; Busy g; Sync* s = sync_of((void*)p); if (rel(mo)) release(s); }
};
typedef unsigned __int128 u128;
#define ATOMIC(B, T) \
    T __tsan_atomic##B##_load(const volatile T* p, int mo) { At a(p, sizeof(T), mo, false, PC); return *p; } \
    void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { At a(p, sizeof(T), mo, true, PC); *p = v; } \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { At a(p, sizeof(T), mo, true, PC); T o = *p; *p = v; return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { At a(p, sizeof(T), mo, true, PC); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { At a(p, sizeof(T), mo, true, PC); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { At a(p, sizeof(T), mo, true, PC); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { At a(p, sizeof(T), mo, true, PC); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { At a(p, sizeof(T), mo, true, PC); T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { At a(p, sizeof(T), mo, true, PC); T o = *p; *p = ~(o & v); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { At a(p, sizeof(T), mo, true, PC); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { At a(p, sizeof(T), mo, true, PC); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { At a(p, sizeof(T), mo, true, PC); T o = *p; if (o == e) *p = v; return o; }
static char fence_key;
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, long n) { plain(p, n, false, PC); } void __tsan_write_range(void* p, long n) { plain(p, n, true, PC); }
void __tsan_vptr_read(void** p) { plain(p, 8, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) plain(p, 8, true, PC); }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t) ATOMIC(128, u128)
// a fence orders with every other fence (an over-approximation of synchronisation)
void __tsan_atomic_thread_fence(int mo) { if (!in_region || busy) return; Busy g; point("fence"); Sync* s = sync_of(&fence_key); if (acq(mo)) acquire(s); if (rel(mo)) release(s); }
void __tsan_atomic_signal_fence(int) {}

void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (in_region) { Busy g; fresh(p, n); } return p; }
void __wrap_free(void* p) { __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); if (in_region) { Busy g; fresh(p, a * b); } return p; }
void* __wrap_realloc(void* q, size_t n) { void* p = __real_realloc(q, n); if (in_region) { Busy g; fresh(p, n); } return p; }
int __wrap_posix_memalign(void** o, size_t a, size_t n) { int r = __real_posix_memalign(o, a, n); if (!r && in_region) { Busy g; fresh(*o, n); } return r; }
void* __wrap_aligned_alloc(size_t a, size_t n) { void* p = __real_aligned_alloc(a, n); if (in_region) { Busy g; fresh(p, n); } return p; }
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { plain(s, n, false, PC); plain(d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { plain(s, n, false, PC); plain(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { if (n) plain(d, n, true, PC); return __real_memset(d, v, n); }

int __wrap___cxa_guard_acquire(uint64_t* g) {
    if (!in_region || busy) return __real___cxa_guard_acquire(g);
    Busy b; if (*(char*)g) { acquire(sync_of(g)); return 0; }
    lock(g); if (*(char*)g) { unlock(g); return 0; } return 1;
}
void __wrap___cxa_guard_release(uint64_t* g) { if (!in_region || busy) { __real___cxa_guard_release(g); return; } Busy b; *(char*)g = 1; unlock(g); }
void __wrap___cxa_guard_abort(uint64_t* g) { if (!in_region || busy) { __real___cxa_guard_abort(g); return; } Busy b; unlock(g); }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!in_region || busy) return __real_pthread_mutex_lock(m); Busy g; lock(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!in_region || busy) return __real_pthread_mutex_unlock(m); Busy g; unlock(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (!in_region || busy) return __real_pthread_mutex_trylock(m); Busy g; return trylock(m) ? 0 : 16; }

// readers are treated as writers: fewer schedules, the same results
static int rw_lock(pthread_rwlock_t* m, int (*real)(pthread_rwlock_t*), bool rd) { if (!in_region || busy) return real(m); Busy g; lock(m, rd); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return rw_lock(m, __real_pthread_rwlock_rdlock, true); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return rw_lock(m, __real_pthread_rwlock_wrlock, false); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!in_region || busy) return __real_pthread_rwlock_tryrdlock(m); Busy g; return trylock(m) ? 0 : 16; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!in_region || busy) return __real_pthread_rwlock_trywrlock(m); Busy g; return trylock(m) ? 0 : 16; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!in_region || busy) return __real_pthread_rwlock_unlock(m); Busy g; unlock(m); return 0; }
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
    if (!in_region || busy) return __real_pthread_once(o, f);
    { Busy g; lock(o); }
    int r; try { r = __real_pthread_once(o, f); } catch (...) { Busy g; unlock(o); throw; }
    Busy g; unlock(o); return r;
}

// ---- OpenMP ------------------------------------------------------------------------------
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { region(fn, d, n, none); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* d, unsigned n, unsigned) { int k = team_size(n); region(fn, d, n, none); return k; }
#define PLOOP(name, kind) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long ch, unsigned) { region(fn, d, n, [=](WS* w) { set_loop(w, kind, s, e, i, ch); return true; }); }
#define PLOOPR(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { region(fn, d, n, [=](WS* w) { set_loop(w, DYNAMIC_, s, e, i, 1); return true; }); }
PLOOP(static, STATIC_) PLOOP(dynamic, DYNAMIC_) PLOOP(guided, GUIDED_) PLOOP(nonmonotonic_dynamic, DYNAMIC_) PLOOP(nonmonotonic_guided, GUIDED_)
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
#define LOOP(name, kind) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long ch, long* is, long* ie) { return start_loop(kind, s, e, i, ch, is, ie); } \
    bool GOMP_loop_##name##_next(long* is, long* ie) { return next_chunk(is, ie); } \
    bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long ch, unsigned long long* is, unsigned long long* ie) { return start_ull(kind, up, s, e, i, ch, is, ie); } \
    bool GOMP_loop_ull_##name##_next(unsigned long long* is, unsigned long long* ie) { return next_ull(is, ie); }
#define LOOPR(name) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long* is, long* ie) { return start_loop(DYNAMIC_, s, e, i, 1, is, ie); } \
    bool GOMP_loop_##name##_next(long* is, long* ie) { return next_chunk(is, ie); } \
    bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* is, unsigned long long* ie) { return start_ull(DYNAMIC_, up, s, e, i, 1, is, ie); } \
    bool GOMP_loop_ull_##name##_next(unsigned long long* is, unsigned long long* ie) { return next_ull(is, ie); }
LOOP(static, DYNAMIC_) LOOP(dynamic, DYNAMIC_) LOOP(guided, GUIDED_) LOOP(nonmonotonic_dynamic, DYNAMIC_) LOOP(nonmonotonic_guided, GUIDED_)
LOOP(ordered_static, DYNAMIC_) LOOP(ordered_dynamic, DYNAMIC_) LOOP(ordered_guided, GUIDED_)
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(ordered_runtime)
void GOMP_loop_end_nowait() { Busy g; done_chunk(); }
void GOMP_loop_end() { Busy g; done_chunk(); barrier(); }
void GOMP_barrier() { Busy g; barrier(); }
static char crit_key, atom_key;
void GOMP_critical_start() { Busy g; lock(&crit_key); } void GOMP_critical_end() { Busy g; unlock(&crit_key); }
void GOMP_critical_name_start(void** p) { Busy g; lock(p); } void GOMP_critical_name_end(void** p) { Busy g; unlock(p); }
void GOMP_atomic_start() { Busy g; lock(&atom_key); } void GOMP_atomic_end() { Busy g; unlock(&atom_key); }
void GOMP_ordered_start() { Busy g; ordered_enter(); } void GOMP_ordered_end() { Busy g; ordered_leave(); }
bool GOMP_single_start() { Busy g; if (!in_region || level != 1) return true; point("single"); WS* w = new_ws(); if (w->taken) return false; w->taken = true; return true; }
void* GOMP_single_copy_start() { Busy g; if (!in_region || level != 1) return nullptr; WS* w = new_ws(); if (!w->taken) { w->taken = true; return nullptr; } barrier(); return w->copy; }
void GOMP_single_copy_end(void* p) { Busy g; if (!in_region || level != 1) return; thr[self].cur->copy = p; barrier(); }
unsigned GOMP_sections_next() { Busy g; point("section"); WS* w = thr[self].cur; return w && w->snext < w->sections ? ++w->snext : 0; }
unsigned GOMP_sections_start(unsigned n) { { Busy g; WS* w = new_ws(); if (!w->init) { w->init = true; w->sections = n; } } return GOMP_sections_next(); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned) { region(fn, d, n, [=](WS* w) { w->sections = count; return true; }); }
void GOMP_sections_end() { Busy g; barrier(); } void GOMP_sections_end_nowait() {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
    if (!cpy) { fn(data); return; }
    char* buf = (char*)__real_malloc(size + align); char* arg = (char*)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1)); cpy(arg, data); fn(arg); __real_free(buf);
}
void GOMP_taskwait() {} void GOMP_taskyield() {} void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {}
int omp_get_num_threads() { return in_region && level == 1 ? N : 1; }
int omp_get_thread_num() { return in_region && level == 1 ? self : 0; }
int omp_get_max_threads() { return active ? opt.team : 1; }
int omp_get_num_procs() { return active ? opt.team : 1; }
int omp_in_parallel() { return in_region && !app; } int omp_get_level() { return app && in_region ? level - 2 : level; } int omp_get_active_level() { return in_region && !app; }
int omp_get_ancestor_thread_num(int) { return 0; } int omp_get_team_size(int) { return app ? 1 : N; } int omp_get_thread_limit() { return MAXT; }
void omp_set_num_threads(int n) { if (active && opt.team > 1 && n >= 1) opt.team = std::min(n, MAXT); }
int omp_get_dynamic() { return 0; } void omp_set_dynamic(int) {} int omp_get_nested() { return 0; } void omp_set_nested(int) {}
int omp_get_max_active_levels() { return 1; } void omp_set_max_active_levels(int) {} int omp_get_cancellation() { return 0; }
void omp_set_schedule(int, int) {} void omp_get_schedule(int* k, int* c) { *k = 2; *c = 1; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; } double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void*) {} void omp_destroy_lock(void*) {} void omp_set_lock(void* p) { Busy g; lock(p); } void omp_unset_lock(void* p) { Busy g; unlock(p); } int omp_test_lock(void* p) { Busy g; return trylock(p); }
void omp_init_nest_lock(void*) {} void omp_destroy_nest_lock(void*) {} void omp_set_nest_lock(void* p) { Busy g; lock(p, true); } void omp_unset_nest_lock(void* p) { Busy g; unlock(p); }
}
static void* alloc(size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (in_region) { Busy g; fresh(p, n); } return p; }
static void* alloc(size_t n, std::align_val_t a) { void* p = nullptr; if (__real_posix_memalign(&p, std::max<size_t>(size_t(a), 8), n ? n : 1)) throw std::bad_alloc(); if (in_region) { Busy g; fresh(p, n); } return p; }
void* operator new(size_t n) { return alloc(n); } void* operator new[](size_t n) { return alloc(n); }
void* operator new(size_t n, std::align_val_t a) { return alloc(n, a); } void* operator new[](size_t n, std::align_val_t a) { return alloc(n, a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __real_malloc(n ? n : 1); } void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __real_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { __real_free(p); } void operator delete[](void* p) noexcept { __real_free(p); }
void operator delete(void* p, size_t) noexcept { __real_free(p); } void operator delete[](void* p, size_t) noexcept { __real_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { __real_free(p); } void operator delete[](void* p, std::align_val_t) noexcept { __real_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { __real_free(p); } void operator delete[](void* p, size_t, std::align_val_t) noexcept { __real_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __real_free(p); } void operator delete[](void* p, const std::nothrow_t&) noexcept { __real_free(p); }
