#include "vsched.h"
#include "vh.h"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sched.h>
#include <linux/futex.h>
#include <unordered_map>
#include <algorithm>
#include <deque>
#include <execinfo.h>
#include <malloc.h>
namespace sched {
// ------------------------------------------------------------------ real functions
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name) ([]() { static auto f = real<decltype(&name)>(#name); return f; }())
static void fwait(int *a, int v) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == v) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void fset(int *a, int v) { __atomic_store_n(a, v, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
// ------------------------------------------------------------------ state
#ifndef SCHED_MAXT
#define SCHED_MAXT 40
#endif
static const int MAXT = SCHED_MAXT;
struct VC { uint32_t c[MAXT]; VC() { memset(c, 0, sizeof c); } void join(const VC &o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
enum { RUN, BMUTEX, BCOND, BJOIN, SLEEP, SPIN, DONE };
struct Th {
    int id, st = RUN; const void *on = nullptr; double wake = -1; bool timed = false, timedout = false, realdone = false; VC vc; int baton = 0; pthread_t pt = 0; void *(*fn)(void *) = nullptr; void *arg = nullptr, *ret = nullptr; long seq = 0;
    bool reused = false; int quiet = 0;
    std::unordered_map<const void *, int> hot;
};
struct Mx { Th *owner = nullptr; VC vc; }; struct At { VC vc; };
static bool g_active = false; static Opt g_o; static std::vector<Th *> T; static thread_local Th *self = nullptr;
static std::unordered_map<const void *, Mx> M; static std::unordered_map<const void *, At> A;
static int nother = 0;   // threads created and not joined yet: accesses while alone are ordered before everything later
static double vt = 0; static long steps = 0, seqno = 0; static int g_cost = 0;
static std::vector<int> prefix; struct Dec { int n, c, cost, who; std::vector<int8_t> costs; }; static std::vector<Dec> decs; static long g_exec = 0;
static std::string tracetxt; static std::set<std::string> outs;
struct Shared { char key[64]; char desc[4000]; long execs, points, maxdepth, capped; double secs; long nout; char outs[8000]; int failed; int curprefix_n; }; static Shared *sh;
bool active() { return g_active && self; } double now() { return vt; } long executions() { return g_exec; }
Quiet::Quiet() { if (self) self->quiet++; } Quiet::~Quiet() { if (self) self->quiet--; }
void outcome(const std::string &s) { if (outs.size() < 200) outs.insert(s); }
static const char *STN[] = {"running", "waiting for a mutex", "waiting on a condition", "joining a thread", "sleeping", "spinning", "finished"};
static void flush_out() { std::string o; for (auto &s : outs) { if (o.size() + s.size() + 2 > sizeof sh->outs) break; o += s; o += '\n'; } strcpy(sh->outs, o.c_str()); }
static std::string schedule() {
    // compact rendering: runs of decisions per thread, with the non-default choices marked
    std::string s; int dev = 0; for (size_t i = 0; i < decs.size(); i++) if (decs[i].c) { if (++dev <= 12) s += vh::fmt(" @%zu->T%d", i, decs[i].who); } return vh::fmt("%zu choice points, departures from the default schedule:%s", decs.size(), dev ? s.c_str() : " none");
}
// schedule trace for replays: every scheduling point with its source position
struct Tr { int t; size_t d; double v; int n; void *f[16]; }; static std::vector<Tr> *trc = nullptr; static int trfd = 2;
static void trace_pt(int t) { if (!trc) return; Tr x; x.t = t; x.d = decs.size(); x.v = vt; x.n = backtrace(x.f, 16); trc->push_back(x); }
static void dump_trace() {
    if (!trc) return; std::map<void *, std::string> S; std::string cmd; char ex[256] = {0}; if (readlink("/proc/self/exe", ex, 255) < 0) return;
    size_t from = trc->size() > 3000 ? trc->size() - 3000 : 0; std::vector<void *> as; for (size_t i = from; i < trc->size(); i++) for (int k = 0; k < (*trc)[i].n; k++) if (S.insert({(*trc)[i].f[k], ""}).second) as.push_back((*trc)[i].f[k]);
    for (size_t b = 0; b < as.size(); b += 200) { cmd = vh::fmt("addr2line -Cfpse %s", ex); for (size_t i = b; i < as.size() && i < b + 200; i++) cmd += vh::fmt(" %p", (void *)((uintptr_t)as[i] - 1)); FILE *f = popen((cmd + " 2>/dev/null").c_str(), "r"); if (!f) return; char l[3000]; size_t i = b; while (fgets(l, sizeof l, f) && i < as.size()) { std::string s = l; while (!s.empty() && s.back() == '\n') s.pop_back(); size_t at = s.rfind(" at "); std::string fn = s.substr(0, at), lo = at == std::string::npos ? "" : s.substr(at + 4); size_t par = fn.find('('); if (par != std::string::npos) fn = fn.substr(0, par); if (fn.size() > 40) fn = fn.substr(fn.size() - 40); S[as[i++]] = lo.find(".h") == std::string::npos && lo.find(".cpp") == std::string::npos ? "" : lo.find("sched_rt") != std::string::npos || lo.find("std_") == 0 || lo.find("unique_lock") == 0 || lo.find("invoke.h") == 0 || lo.find("gthr") == 0 || lo.find("atomic_base") == 0 || lo.find("shared_ptr") == 0 || lo.find("this_thread") == 0 || lo.find("condition_variable") == 0 || lo.find("stl_") == 0 ? "" : fn + "@" + lo; } pclose(f); }
    for (size_t i = from; i < trc->size(); i++) { auto &x = (*trc)[i]; std::string l = vh::fmt("  #%zu t=%g T%d", x.d, x.v, x.t); int c = 0; for (int k = 0; k < x.n && c < 3; k++) if (!S[x.f[k]].empty()) { l += (c++ ? " < " : " ") + S[x.f[k]]; } dprintf(trfd, "%s\n", l.c_str()); }
}
static void record(const std::string &key, const std::string &desc) {
    g_active = false; snprintf(sh->key, sizeof sh->key, "%s", key.c_str()); snprintf(sh->desc, sizeof sh->desc, "%s [%s]", desc.c_str(), schedule().c_str()); sh->failed = 1; flush_out(); dump_trace();
}
void fail(const std::string &key, const std::string &desc) { record(key, desc); _exit(1); }
static std::string states() { std::string s; for (auto t : T) if (t->st != DONE) s += vh::fmt(" T%d %s;", t->id, STN[t->st]); return s; }
static void handover(Th *to) {
    Th *me = self; if (to == me) return; bool stay = me && me->st != DONE;
    fset(&to->baton, 1); if (stay) { fwait(&me->baton, 0); __atomic_store_n(&me->baton, 0, __ATOMIC_RELEASE); }
}
// choose the next thread; blocked: the current one cannot continue
static void pick(bool blocked) {
    Th *me = self; 
    for (;;) {
        Th *alt[MAXT * 2]; int8_t cost[MAXT * 2]; int n = 0, N = T.size();
        if (!blocked) { alt[n] = me; cost[n++] = 0; }
        for (int k = 1; k <= N; k++) { Th *t = T[(me->id + k) % N]; if ((t != me || blocked) && t->st == RUN) { alt[n] = t; cost[n] = n == 0 ? 0 : (!blocked || g_o.delay) ? 1 : 0; n++; } }
        bool any = n > 0;
        if (any) { for (int k = 1; k <= N; k++) { Th *t = T[(me->id + k) % N]; if (t->st == SLEEP || (t->st == BCOND && (t->timed || g_o.spurious))) if (t != me || blocked) { alt[n] = t; cost[n++] = 1; } } }
        else {
            std::vector<Th *> s; for (auto t : T) if (t->st == SLEEP || (t->st == BCOND && t->timed)) s.push_back(t);
            std::sort(s.begin(), s.end(), [](Th *a, Th *b) { return a->wake != b->wake ? a->wake < b->wake : a->seq < b->seq; });
            for (auto t : s) { alt[n] = t; cost[n] = n ? 1 : 0; n++; }
            if (!n) {
                bool sp = false; for (auto t : T) if (t->st == SPIN) { t->st = RUN; sp = true; } if (sp) continue;
                bool alld = true; for (auto t : T) if (t->st != DONE) alld = false;
                if (alld) return;
                fail("deadlock", "no thread can run:" + states());
            }
        }
        int c = 0;
        if (n > 1) {
            size_t d = decs.size(); if (d < prefix.size()) c = prefix[d];
            if (c >= n) fail("engine-nondeterminism", vh::fmt("replayed choice %d of %d alternatives at point %zu", c, n, d));
            Dec x; x.n = n; x.c = c; x.cost = cost[c]; x.who = alt[c]->id; x.costs.assign(cost, cost + n); decs.push_back(std::move(x)); g_cost += cost[c];
        }
        Th *t = alt[c];
        if (t->st == SLEEP || t->st == BCOND) { if (t->wake > vt) vt = t->wake; t->timedout = t->st == SLEEP || t->timed; t->st = RUN; }
        if (vt > g_o.vlimit) fail("hang", vh::fmt("no progress after %.0f virtual seconds:", vt) + states());
        handover(t); return;
    }
}
static void step() { trace_pt(self->id); if (++steps > g_o.max_steps) fail("hang", vh::fmt("no end after %ld scheduling points:", steps) + states()); }
static void point() { step(); sh->points++; pick(false); }
void yield_point() { if (active()) point(); }
static bool on() { return g_active && self && !self->quiet; }
static void block(int st, const void *o) { self->st = st; self->on = o; self->seq = ++seqno; step(); pick(true); }
static void tick() { self->vc.c[self->id]++; }
static void lock(const void *m, bool pt = true) {
    if (pt) point(); Mx *x = &M[m];
    while (x->owner) { if (x->owner == self) fail("deadlock", "a thread locks a mutex it already holds"); block(BMUTEX, m); x = &M[m]; }
    x->owner = self; self->vc.join(x->vc);
}
static void unlock(const void *m) {
    Mx &x = M[m]; if (x.owner != self) fail("unlock", "a mutex is unlocked by a thread that does not hold it"); x.vc = self->vc; tick(); x.owner = nullptr;
    for (auto t : T) if (t->st == BMUTEX && t->on == m) t->st = RUN;
}
// ------------------------------------------------------------------ race detection
struct Ev { uint32_t clk; uint16_t tid; uint8_t mask, fl; uint32_t pc; };   // (no-pie: code addresses fit 32 bits)     // fl: 1 write 2 atomic
struct Cell { uint64_t key; Ev e[6]; uint8_t n; };
static Cell *tab = nullptr; static size_t tcap = 0, tn = 0; static std::vector<uint32_t> used;
static void tinit() { if (!tab) { tcap = 1 << 16; tab = (Cell *)mmap(0, tcap * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); } }
static void tclear() { for (auto i : used) tab[i].key = 0, tab[i].n = 0; used.clear(); tn = 0; }
static Cell *slot(Cell *t, size_t cap, uint64_t k) { size_t i = (((k >> 6) * 0x9E3779B97F4A7C15ull) >> 26 << 6 | (k & 63)) & (cap - 1); while (t[i].key && t[i].key != k) i = (i + 1) & (cap - 1); return &t[i]; }
static Cell *cell(uint64_t k) {
    Cell *c = slot(tab, tcap, k); if (c->key) return c;
    if (tn * 2 > tcap) {
        size_t nc = tcap * 2; Cell *nt = (Cell *)mmap(0, nc * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); std::vector<uint32_t> nu;
        for (auto i : used) { Cell *d = slot(nt, nc, tab[i].key); *d = tab[i]; nu.push_back(d - nt); } munmap(tab, tcap * sizeof(Cell)); tab = nt; tcap = nc; used.swap(nu); c = slot(tab, tcap, k);
    }
    c->key = k; c->n = 0; used.push_back(c - tab); tn++; return c;
}
static std::string sym(const void *pc) {
    char ex[256] = {0}; if (readlink("/proc/self/exe", ex, 255) < 0) return "?"; std::string r; FILE *f = popen(vh::fmt("addr2line -Cfpse %s %p 2>/dev/null", ex, (void *)((uintptr_t)pc - 1)).c_str(), "r");
    if (f) { char b[600]; if (fgets(b, sizeof b, f)) r = b; pclose(f); } while (!r.empty() && r.back() == '\n') r.pop_back(); if (r.size() > 160) r = r.substr(0, 60) + "..." + r.substr(r.size() - 90); return r.empty() ? "?" : r;
}
static void access1(uint64_t g, uint8_t mask, int fl, const void *pc) {
    Th *me = self; Cell *c = cell(g); int same = -1, w = 0;
    for (int i = 0; i < c->n; i++) {
        Ev &e = c->e[i];
        if (e.tid == me->id) { if (e.fl == fl && e.mask == mask) same = i; continue; }
        if (!(e.mask & mask) || !((e.fl | fl) & 1) || (e.fl & fl & 2)) continue;
        if (e.clk > me->vc.c[e.tid]) { g_active = false; fail("data-race", vh::fmt("T%d %s in %s without ordering after T%d %s in %s", me->id, fl & 1 ? "writes" : "reads", sym(pc).c_str(), e.tid, e.fl & 1 ? "wrote" : "read", sym((const void *)(uintptr_t)e.pc).c_str())); }
    }
    Ev ne{me->vc.c[me->id], (uint16_t)me->id, mask, (uint8_t)fl, (uint32_t)(uintptr_t)pc};
    if (same >= 0) { c->e[same] = ne; return; }
    if ((fl & 3) == 1) { // a plain write ordered after everything it covers makes those entries redundant
        for (int i = 0; i < c->n; i++) if (c->e[i].mask & ~mask) c->e[w++] = c->e[i]; c->n = w;
    }
    if (c->n == 6) { memmove(c->e, c->e + 1, 5 * sizeof(Ev)); c->n = 5; }
    c->e[c->n++] = ne;
}
static thread_local uint32_t nwrites = 0;   // plain writes by this thread (a spinning thread makes none)
static inline void mem(const void *p, size_t n, int fl, const void *pc) {
    if ((fl & 3) == 1) nwrites++;
    if (!nother || !on() || !g_o.races) return; uint64_t a = (uint64_t)p;
    while (n) { int o = a & 7; size_t k = std::min<size_t>(8 - o, n); access1(a >> 3, (uint8_t)(((1u << k) - 1) << o), fl, pc); a += k; n -= k; }
}
void progress() { nwrites++; }
static void forget(void *p, size_t n) {
    if (!tab || !tn) return; uint64_t a = (uint64_t)p >> 3, b = ((uint64_t)p + n + 7) >> 3;
    if (b - a > used.size()) { for (auto i : used) if (tab[i].key >= a && tab[i].key < b) tab[i].n = 0; }
    else for (; a < b; a++) { Cell *c = slot(tab, tcap, a); if (c->key) c->n = 0; }
}
// ------------------------------------------------------------------ atomics
static bool hotpoint(const void *pc) { int &h = self->hot[pc]; return h < g_o.hot ? (h++, true) : false; }
static bool acq(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; } static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void pre(const void *a, size_t n, int fl, const void *pc) { if (hotpoint(pc)) point(); else step(); mem(a, n, fl | 2, pc); }
static void onload(const void *a, int mo) { if (acq(mo)) { auto i = A.find(a); if (i != A.end()) self->vc.join(i->second.vc); } }
static void onstore(const void *a, int mo, bool rmw) {
    if (rel(mo)) { At &x = A[a]; if (rmw) x.vc.join(self->vc); else x.vc = self->vc; tick(); } else if (!rmw) { auto i = A.find(a); if (i != A.end()) i->second.vc = VC(); }
}
// a spin loop reads a fixed set of locations over and over: remember the last few (pc,addr,value) reads
struct Rd { const void *pc, *a; uint64_t v; uint32_t w; };
static thread_local std::deque<Rd> *rds = nullptr;
static void spinload(const void *a, uint64_t v, const void *pc) {
    // detect period-1..4 repetition of identical reads (at least 4 periods) with no write in between
    if (!rds) rds = new std::deque<Rd>(); auto &q = *rds; q.push_back({pc, a, v, nwrites}); if (q.size() > 40) q.pop_front();
    for (int p = 1; p <= 4; p++) {
        int need = p * 4; if ((int)q.size() < need) continue; bool rep = true;
        for (int i = 0; i < need - p && rep; i++) { auto &x = q[q.size() - 1 - i], &y = q[q.size() - 1 - i - p]; if (x.pc != y.pc || x.a != y.a || x.v != y.v || x.w != y.w) rep = false; }
        if (rep) { q.clear(); self->st = SPIN; self->on = nullptr; self->seq = ++seqno; step(); pick(true); return; }
    }
}
static void wrote() { if (rds) rds->clear(); for (auto t : T) if (t != self && t->st == SPIN) t->st = RUN; }
} // namespace sched
using namespace sched;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void *a) { mem(a, N, 0, PC); } void __tsan_write##N(void *a) { mem(a, N, 1, PC); } \
    void __tsan_unaligned_read##N(void *a) { mem(a, N, 0, PC); } void __tsan_unaligned_write##N(void *a) { mem(a, N, 1, PC); } \
    void __tsan_volatile_read##N(void *a) { mem(a, N, 0, PC); } void __tsan_volatile_write##N(void *a) { mem(a, N, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { mem(a, n, 0, PC); } void __tsan_write_range(void *a, size_t n) { mem(a, n, 1, PC); }
void __tsan_vptr_update(void **a, void *) { mem(a, 8, 1, PC); } void __tsan_vptr_read(void **) {}
void __tsan_atomic_thread_fence(int) { if (on()) point(); } void __tsan_atomic_signal_fence(int) {}
#define AT(B, TY) \
TY __tsan_atomic##B##_load(const volatile TY *a, int mo) { if (!on()) return __atomic_load_n(a, __ATOMIC_SEQ_CST); pre((void *)a, sizeof(TY), 0, PC); TY v = *a; onload((void *)a, mo); spinload((void *)a, (uint64_t)v, PC); v = *a; onload((void *)a, mo); return v; } \
void __tsan_atomic##B##_store(volatile TY *a, TY v, int mo) { if (!on()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; } pre((void *)a, sizeof(TY), 1, PC); *a = v; onstore((void *)a, mo, false); wrote(); } \
TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int mo) { if (!on()) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); pre((void *)a, sizeof(TY), 1, PC); TY r = *a; *a = v; onload((void *)a, mo); onstore((void *)a, mo, true); wrote(); return r; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *e, TY v, int mo, int fmo) { if (!on()) return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); pre((void *)a, sizeof(TY), 1, PC); if (*a == *e) { *a = v; onload((void *)a, mo); onstore((void *)a, mo, true); wrote(); return 1; } *e = *a; onload((void *)a, fmo); spinload((void *)a, (uint64_t)*e, PC); return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *e, TY v, int mo, int fmo) { if (!on()) return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); pre((void *)a, sizeof(TY), 1, PC); if (*a == *e) { *a = v; onload((void *)a, mo); onstore((void *)a, mo, true); wrote(); return 1; } *e = *a; onload((void *)a, fmo); spinload((void *)a, (uint64_t)*e, PC); return 0; } \
TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY e, TY v, int mo, int fmo) { if (!on()) { __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; } pre((void *)a, sizeof(TY), 1, PC); TY r = *a; if (r == e) { *a = v; onload((void *)a, mo); onstore((void *)a, mo, true); wrote(); } else onload((void *)a, fmo); return r; }
#define RMW(B, TY, NM, EXPR) TY __tsan_atomic##B##_##NM(volatile TY *a, TY v, int mo) { if (!on()) { TY o = __atomic_load_n(a, __ATOMIC_SEQ_CST); while (!__atomic_compare_exchange_n(a, &o, (TY)(EXPR), 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)); return o; } pre((void *)a, sizeof(TY), 1, PC); TY o = *a; *a = (TY)(EXPR); onload((void *)a, mo); onstore((void *)a, mo, true); wrote(); return o; }
#define ALL(B, TY) AT(B, TY) RMW(B, TY, fetch_add, o + v) RMW(B, TY, fetch_sub, o - v) RMW(B, TY, fetch_and, o & v) RMW(B, TY, fetch_or, o | v) RMW(B, TY, fetch_xor, o ^ v) RMW(B, TY, fetch_nand, ~(o & v))
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t)

// ------------------------------------------------------------------ pthreads
int pthread_mutex_lock(pthread_mutex_t *m) { if (!on()) { if (g_active && self) return 0; return REAL(pthread_mutex_lock)(m); } lock(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!on()) { if (g_active && self) return 0; return REAL(pthread_mutex_unlock)(m); } unlock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!on()) return REAL(pthread_mutex_trylock)(m); point(); Mx &x = M[m]; if (x.owner) return EBUSY; x.owner = self; self->vc.join(x.vc); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (!on()) return REAL(pthread_mutex_destroy)(m); auto i = M.find(m); if (i != M.end()) { if (i->second.owner) sched::fail("mutex-destroyed", "a locked mutex is destroyed"); M.erase(i); } return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, double until) {
    unlock(m); Th *s = self; s->timed = timed; s->timedout = false; s->wake = until; block(BCOND, c); bool to = s->timedout; s->timed = false; s->timedout = false; s->wake = -1; lock(m, false); return timed && to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!on()) return REAL(pthread_cond_wait)(c, m); point(); return cwait(c, m, false, -1); }
static double ts(const struct timespec *t) { return t->tv_sec + t->tv_nsec * 1e-9; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (!on()) return REAL(pthread_cond_timedwait)(c, m, t); point(); return cwait(c, m, true, ts(t) - 1e9); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { if (!on()) return REAL(pthread_cond_clockwait)(c, m, k, t); point(); return cwait(c, m, true, ts(t) - 1e9); }
static Th *first(const void *c) { Th *b = nullptr; for (auto t : T) if (t->st == BCOND && t->on == c && (!b || t->seq < b->seq)) b = t; return b; }
int pthread_cond_signal(pthread_cond_t *c) { if (!on()) return REAL(pthread_cond_signal)(c); point(); Th *t = first(c); if (t) { t->st = RUN; t->timedout = false; } return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!on()) return REAL(pthread_cond_broadcast)(c); point(); for (auto t : T) if (t->st == BCOND && t->on == c) { t->st = RUN; t->timedout = false; } return 0; }
int pthread_cond_destroy(pthread_cond_t *c) { if (!on()) return REAL(pthread_cond_destroy)(c); return 0; }
static void *tramp(void *p) {
    Th *me = (Th *)p; fwait(&me->baton, 0); __atomic_store_n(&me->baton, 0, __ATOMIC_RELEASE); self = me;
    pthread_attr_t at; void *lo; size_t sz; if (!pthread_getattr_np(pthread_self(), &at)) { pthread_attr_getstack(&at, &lo, &sz); forget(lo, sz); pthread_attr_destroy(&at); }
    void *r = me->fn(me->arg); me->ret = r; me->st = DONE; for (auto t : T) if (t->st == BJOIN && t->on == me) t->st = RUN; wrote();
    delete rds; rds = nullptr; if (g_active) { step(); pick(true); } self = nullptr; return r;
}
int pthread_create(pthread_t *pt, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!on()) return REAL(pthread_create)(pt, a, fn, arg);
    if (T.size() >= (size_t)MAXT) sched::fail("engine-threads", "too many threads for the explorer");
    Th *t = new Th(); t->id = T.size(); t->fn = fn; t->arg = arg; t->vc = self->vc; t->vc.c[t->id] = 1; tick(); T.push_back(t); nother++;
    int r = REAL(pthread_create)(&t->pt, nullptr, tramp, t); if (r) sched::fail("engine-threads", "pthread_create failed"); *pt = t->pt; point(); return 0;
}
int pthread_join(pthread_t pt, void **ret) {
    if (!on()) return REAL(pthread_join)(pt, ret); Th *t = nullptr; for (auto x : T) if (x->pt == pt && !x->reused) t = x; if (!t) return REAL(pthread_join)(pt, ret);
    point(); while (t->st != DONE) block(BJOIN, t); self->vc.join(t->vc); t->reused = true; nother--; void *rv; REAL(pthread_join)(pt, &rv); if (ret) *ret = rv; return 0;
}
int pthread_detach(pthread_t pt) { if (!on()) return REAL(pthread_detach)(pt); return REAL(pthread_detach)(pt); }
static int vsleep(double d) { self->wake = vt + d; block(SLEEP, nullptr); self->wake = -1; self->timedout = false; return 0; }
int nanosleep(const struct timespec *t, struct timespec *r) { if (!on()) return REAL(nanosleep)(t, r); return vsleep(ts(t)); }
int clock_nanosleep(clockid_t k, int fl, const struct timespec *t, struct timespec *r) { if (!on()) return REAL(clock_nanosleep)(k, fl, t, r); return vsleep(fl & TIMER_ABSTIME ? ts(t) - 1e9 - vt : ts(t)); }
int usleep(useconds_t u) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
int sched_yield() { if (!on()) return REAL(sched_yield)(); step(); self->st = SLEEP; self->wake = vt; self->seq = ++seqno; pick(true); return 0; }
int clock_gettime(clockid_t k, struct timespec *t) { if (!on()) return syscall(SYS_clock_gettime, k, t); double v = vt + 1e9; t->tv_sec = (time_t)v; t->tv_nsec = (long)((v - t->tv_sec) * 1e9); return 0; }

// ------------------------------------------------------------------ GMP is not instrumented: report what its calls touch
struct Mpz { int al, sz; uint64_t *d; };
static inline void zr(const Mpz *z, const void *pc) { if (!on()) return; mem(z, 16, 0, pc); int n = z->sz < 0 ? -z->sz : z->sz; if (n) mem(z->d, 8, 0, pc); }
static inline void zw(Mpz *z, const void *pc) { if (!on()) return; mem(z, 16, 1, pc); if (z->sz) mem(z->d, 8, 1, pc); }
#define ZF(name, sig, args, before, after) void __gmpz_##name sig { static void (*f) sig = (void (*) sig)dlsym(RTLD_NEXT, "__gmpz_" #name); before; f args; after; }
ZF(set, (Mpz *r, const Mpz *a), (r, a), zr(a, PC), zw(r, PC))
ZF(init_set, (Mpz *r, const Mpz *a), (r, a), zr(a, PC), zw(r, PC))
ZF(set_ui, (Mpz *r, unsigned long v), (r, v), , zw(r, PC))
ZF(set_si, (Mpz *r, long v), (r, v), , zw(r, PC))
ZF(swap, (Mpz *r, Mpz *a), (r, a), zr(a, PC); zr(r, PC), zw(a, PC); zw(r, PC))
ZF(add, (Mpz *r, const Mpz *a, const Mpz *b), (r, a, b), zr(a, PC); zr(b, PC), zw(r, PC))
ZF(sub, (Mpz *r, const Mpz *a, const Mpz *b), (r, a, b), zr(a, PC); zr(b, PC), zw(r, PC))
ZF(mul, (Mpz *r, const Mpz *a, const Mpz *b), (r, a, b), zr(a, PC); zr(b, PC), zw(r, PC))
ZF(add_ui, (Mpz *r, const Mpz *a, unsigned long b), (r, a, b), zr(a, PC), zw(r, PC))
ZF(clear, (Mpz *r), (r), zw(r, PC), )
ZF(mul_2exp, (Mpz *r, const Mpz *a, unsigned long b), (r, a, b), zr(a, PC), zw(r, PC))
ZF(tdiv_q_2exp, (Mpz *r, const Mpz *a, unsigned long b), (r, a, b), zr(a, PC), zw(r, PC))
ZF(mul_ui, (Mpz *r, const Mpz *a, unsigned long b), (r, a, b), zr(a, PC), zw(r, PC))
ZF(addmul_ui, (Mpz *r, const Mpz *a, unsigned long b), (r, a, b), zr(a, PC); zr(r, PC), zw(r, PC))
ZF(submul_ui, (Mpz *r, const Mpz *a, unsigned long b), (r, a, b), zr(a, PC); zr(r, PC), zw(r, PC))
ZF(divexact, (Mpz *r, const Mpz *a, const Mpz *b), (r, a, b), zr(a, PC); zr(b, PC), zw(r, PC))
ZF(fdiv_q, (Mpz *r, const Mpz *a, const Mpz *b), (r, a, b), zr(a, PC); zr(b, PC), zw(r, PC))
ZF(mod, (Mpz *r, const Mpz *a, const Mpz *b), (r, a, b), zr(a, PC); zr(b, PC), zw(r, PC))
ZF(fdiv_r, (Mpz *r, const Mpz *a, const Mpz *b), (r, a, b), zr(a, PC); zr(b, PC), zw(r, PC))
ZF(fdiv_qr, (Mpz *q, Mpz *r, const Mpz *a, const Mpz *b), (q, r, a, b), zr(a, PC); zr(b, PC), zw(q, PC); zw(r, PC))
#define ZI(ret, name, sig, args, before) ret __gmpz_##name sig { static ret (*f) sig = (ret (*) sig)dlsym(RTLD_NEXT, "__gmpz_" #name); before; return f args; }
ZI(int, cmp, (const Mpz *a, const Mpz *b), (a, b), zr(a, PC); zr(b, PC))
ZI(int, cmpabs, (const Mpz *a, const Mpz *b), (a, b), zr(a, PC); zr(b, PC))
ZI(size_t, sizeinbase, (const Mpz *a, int b), (a, b), zr(a, PC))
// ------------------------------------------------------------------ heap: a new block carries no history
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t); extern void __libc_free(void *);
static thread_local int inm = 0;
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p && g_active && !inm) { inm = 1; forget(p, n); inm = 0; } return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p && g_active && !inm) { inm = 1; forget(p, a * b); inm = 0; } return p; }
void *realloc(void *q, size_t n) { size_t old = q ? malloc_usable_size(q) : 0; void *p = __libc_realloc(q, n); if (p && g_active && !inm) { inm = 1; if (p != q) forget(p, n); else if (n > old) forget((char *)p + old, n - old); inm = 0; } return p; }
extern void *__libc_memalign(size_t, size_t);
int posix_memalign(void **r, size_t al, size_t n) { void *p = __libc_memalign(al, n); if (!p) return ENOMEM; *r = p; if (g_active && !inm) { inm = 1; forget(p, n); inm = 0; } return 0; }
void *aligned_alloc(size_t al, size_t n) { void *p = __libc_memalign(al, n); if (p && g_active && !inm) { inm = 1; forget(p, n); inm = 0; } return p; }
void *memalign(size_t al, size_t n) { return aligned_alloc(al, n); }
}
// ------------------------------------------------------------------ exploration
namespace sched {
static void arenas() { static bool d = false; if (!d) { d = true; mallopt(M_ARENA_MAX, 1); } }
static void run_one(const std::function<void()> &body) {
    M.clear(); A.clear(); for (auto t : T) delete t; T.clear(); decs.clear(); vt = 0; steps = 0; seqno = 0; g_cost = 0; nother = 0; if (trc) trc->clear(); tinit(); tclear();
    Th *t = new Th(); t->id = 0; t->vc.c[0] = 1; t->pt = pthread_self(); T.push_back(t); self = t; g_active = true; g_exec++; sh->execs++;
    body();
    for (auto x : T) if (x != t && x->st != DONE && g_active) { // detached leftovers run to their end
        block(BJOIN, x); }
    for (auto x : T) if (x != t && x->st != DONE) fail("leak", "a thread is still alive at the end");
    g_active = false; self = nullptr; delete rds; rds = nullptr; sh->maxdepth = std::max(sh->maxdepth, (long)decs.size());
}
static void crash(int s) { if (sh) { g_active = false; snprintf(sh->key, sizeof sh->key, "crash"); snprintf(sh->desc, sizeof sh->desc, "killed by signal %d (%s) in thread T%d [%s]", s, strsignal(s), self ? self->id : -1, schedule().c_str()); sh->failed = 1; } _exit(2); }
static bool advance_(size_t base) {
    // next prefix in depth-first order below base
    std::vector<int> cum(decs.size() + 1, 0); for (size_t i = 0; i < decs.size(); i++) cum[i + 1] = cum[i] + decs[i].cost;
    for (size_t i = decs.size(); i-- > base;) { for (int c = decs[i].c + 1; c < decs[i].n; c++) if (cum[i] + decs[i].costs[c] <= g_o.bound) { prefix.clear(); for (size_t j = 0; j < i; j++) prefix.push_back(decs[j].c); prefix.push_back(c); return true; } }
    return false;
}
void explore(const std::string &name, const Opt &o, const std::function<void()> &body) {
    arenas(); using namespace vh; g_o = o; if (!sh) sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static int *droot = (int *)mmap(0, 1 << 22, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto child = [&](const std::function<void()> &f, bool report = true) -> bool {
        memset(sh, 0, sizeof *sh); fflush(stdout); fflush(stderr); int pid = fork();
        if (pid == 0) { for (int s : std::initializer_list<int>{SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, crash); { cpu_set_t cs; CPU_ZERO(&cs); int nc = sysconf(_SC_NPROCESSORS_ONLN); CPU_SET(C.shard % (nc > 0 ? nc : 1), &cs); sched_setaffinity(0, sizeof cs, &cs); } if (!getenv("VH_STDERR")) { int n = ::open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); } f(); flush_out(); _exit(0); }
        int st = 0; double last = C.elapsed(); long le = -1, lp = -1;
        for (;;) { int r = waitpid(pid, &st, WNOHANG); if (r == pid) break; usleep(500); if (sh->execs != le || sh->points != lp) { le = sh->execs; lp = sh->points; last = C.elapsed(); } else if (C.elapsed() - last > 120) { kill(pid, SIGKILL); waitpid(pid, &st, 0); if (!sh->failed) { sh->failed = 1; strcpy(sh->key, "stuck"); snprintf(sh->desc, sizeof sh->desc, "an execution made no progress for 120 s of real time"); } break; } }
        if (!sh->failed && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { sh->failed = 1; strcpy(sh->key, "crash"); snprintf(sh->desc, sizeof sh->desc, "execution process ended with status %d", st); }
        C.traces += sh->execs; C.states += sh->points; C.transitions += sh->points; C.nontrivial += sh->execs; if (sh->capped) C.capped = true;
        for (char *p = strtok(sh->outs, "\n"); p; p = strtok(nullptr, "\n")) vh::outcome(p);
        if (sh->failed && report) viol(std::string(sh->key), name + ": " + sh->desc);
        return !sh->failed;
    };
    if (C.only >= 0 || getenv("VH_TRACE")) { trc = new std::vector<Tr>; void *w[2]; backtrace(w, 2); trfd = dup(2); }
    // the default schedule, then one unit per alternative along it
    auto sub = [&](std::vector<int> base, bool one) {
        return child([&, base, one] {
            prefix = base; size_t b = base.size(); long n = 0;
            for (;;) { run_one(body); if (one || !advance_(b)) break; if (++n >= g_o.max_exec || (C.only < 0 && C.elapsed() > C.budget)) { sh->capped = 1; break; } }
        });
    };
    // root execution (every shard needs its decision list); counted once
    uint64_t s0 = C.states, t0 = C.transitions, tr0 = C.traces, nt0 = C.nontrivial; bool mine = next();
    bool ok = child([&] { prefix.clear(); run_one(body); int k = 0; for (auto &d : decs) { for (int c = 1; c < d.n; c++) if (d.costs[c] <= g_o.bound && k < (1 << 19) - 2) { droot[1 + 2 * k] = &d - &decs[0]; droot[2 + 2 * k] = c; k++; } } droot[0] = k; }, mine);
    if (!mine) { C.states = s0; C.transitions = t0; C.traces = tr0; C.nontrivial = nt0; }
    if (!ok) return;
    int k = droot[0]; std::vector<std::pair<int, int>> units; for (int i = 0; i < k; i++) units.push_back({droot[1 + 2 * i], droot[2 + 2 * i]});
    for (auto &u : units) { if (!next()) continue; std::vector<int> b(u.first, 0); b.push_back(u.second); sub(b, o.bound <= 0); }
}
}
