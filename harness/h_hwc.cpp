// C29 / C30: the hardware client as a whole under every (bounded) interleaving: the real event loop, connection
// handling, reading intake, value workers and proof threads run against scripted timelords behind a simulated socket
// and an accelerator that computes true values at a scripted pace.
#include "../sched/vsched.h"
#include "vh.h"
#include <arpa/inet.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/ip.h>
#include <unistd.h>
#include <signal.h>
#include <cstring>
#include <cstdio>
#include <map>
#include <memory>
#include <functional>
#include <stdexcept>
#include <algorithm>
#include <set>
#include "vdf_base.hpp"
using namespace vh;
static uint64_t sim_n_iters = 600;
// ---------------------------------------------------------------- arithmetic: monitored at its interface, quiet inside
struct QReducer { void reduce(form &f) { form t = f; { sched::Quiet q; static PulmarkReducer r; r.reduce(t); } f = t; } };
static void Qnudupl(form &a, form &b, const integer &D, const integer &L) { form t = b, r; integer d = D, l = L; { sched::Quiet q; sched::progress(); nudupl_form(r, t, d, l); } a = r; }
static void Qverify(integer &D, form x, form y, form p, uint64_t n, bool &ok) { integer d = D; sched::Quiet q; VerifyWesolowskiProof(d, x, y, p, n, ok); }
#define PulmarkReducer QReducer
#define nudupl_form Qnudupl
#define VerifyWesolowskiProof Qverify
// ---------------------------------------------------------------- timelords and sockets
struct Item { int kind; double at; int frames; std::string bytes; };   // kind 0 bytes, 1 end of stream, 2 reset; due at a time after connecting and after that many frames were received
struct Comp { integer D; std::string ds; std::vector<form> pw; };      // a computation: discriminant and x^(2^i)
struct Sess { std::string name; int comp, base; std::vector<Item> items; std::vector<uint64_t> must, may; bool stop; int ok = -1; bool half = false; size_t rchunk = 1 << 20, wchunk = 1 << 20; long wlimit = -1; double wstall = 0; double keep = 0; };
struct Conn { const Sess *s; size_t pos = 0; std::string pend, out; int end = 0; bool closed = false; double t0 = 0; size_t sent = 0; int wcount = 0; double lastw = -1;
    int frames() { if (out.compare(0, 2, "OK")) return -1; size_t p = 2; int n = 0; while (p + 4 <= out.size() && out.compare(p, 4, "STOP")) { size_t l = (uint8_t)out[p] << 24 | (uint8_t)out[p + 1] << 16 | (uint8_t)out[p + 2] << 8 | (uint8_t)out[p + 3]; if (l > 100000 || p + 4 + l > out.size()) break; p += 4 + l; n++; } return n; } };
struct Script { std::vector<Sess> sess; int engines = 1; std::vector<int> pace{20}; std::string args; int bound = 1; double stop_at = -1; uint64_t target = 600; int fails = 0; int spur = 0; std::vector<int> faults; bool emu = true, anyform = false, fixed = false; int freq_idx = 100; double maxfreq = 1e9, period = 0; int raises = -1; };
static const Script *SC; static std::vector<Conn> conns; static size_t nextsess; static int openfds, maxopen; static std::map<int, int> fdconn; static int nextfd; static int connfails;
static std::vector<Comp *> comps;
void signal_handler(int);
static int sim_socket(int, int, int) { sched::Quiet q; openfds++; maxopen = std::max(maxopen, openfds); int fd = 1000 + nextfd++; fdconn[fd] = -1; if (openfds > 6) { sched::fail("fd-leak", fmt("%d sockets are open at once for at most three connections", openfds)); } return fd; }
static int sim_connect(int fd, const struct sockaddr *, size_t) {
    sched::Quiet q; if (!fdconn.count(fd)) { errno = EBADF; return -1; }
    if (connfails > 0) { connfails--; errno = ECONNREFUSED; return -1; }
    if (nextsess < SC->sess.size()) { Conn c; c.s = &SC->sess[nextsess++]; c.t0 = sched::now(); fdconn[fd] = conns.size(); conns.push_back(c); return 0; }
    bool all = true; for (auto &c : conns) if (!c.closed) all = false; if (all && SC->stop_at < 0) raise(SIGTERM);
    errno = ECONNREFUSED; return -1;
}
static int sim_fcntl(int fd, int, int) { return 0; }
static int sim_close(int fd) { sched::Quiet q; auto i = fdconn.find(fd); if (i == fdconn.end()) { sched::fail("close", fmt("close of descriptor %d, which is not open", fd)); } if (i->second >= 0) conns[i->second].closed = true; fdconn.erase(i); openfds--; return 0; }
static ssize_t sim_read_(int fd, void *buf, size_t n) {
    if (SC->stop_at >= 0 && sched::now() >= SC->stop_at) raise(SIGTERM);
    sched::Quiet q; auto i = fdconn.find(fd); if (i == fdconn.end() || i->second < 0) { sched::fail("read", fmt("read from descriptor %d, which is not connected", fd)); }
    Conn &c = conns[i->second];
    while (c.pos < c.s->items.size()) { const Item &it = c.s->items[c.pos]; if (sched::now() - c.t0 < it.at || c.frames() < it.frames) break; if (it.kind == 0) c.pend += it.bytes; else if (it.kind == 3) raise(SIGTERM); else c.end = it.kind; c.pos++; }
    if (n == 0) return 0;
    if (c.pend.size()) { size_t k = std::min({n, c.pend.size(), c.s->rchunk}); memcpy(buf, c.pend.data(), k); c.pend.erase(0, k); return k; }
    if (c.end == 1) return 0; if (c.end == 2) { errno = ECONNRESET; return -1; } return -2;
}
extern int chia_vdf_is_emu;
static ssize_t sim_read(int fd, void *buf, size_t n) { ssize_t r = sim_read_(fd, buf, n); if (r == -2) { if (!chia_vdf_is_emu) usleep(2000); errno = EAGAIN; return -1; } return r; }
static ssize_t sim_write(int fd, const void *buf, size_t n) {
    sched::yield_point(); sched::Quiet q; auto i = fdconn.find(fd); if (i == fdconn.end() || i->second < 0) { sched::fail("write", fmt("write to descriptor %d, which is not connected", fd)); }
    Conn &c = conns[i->second]; bool pipe = c.end == 2 || (c.s->wlimit >= 0 && (long)c.out.size() >= c.s->wlimit) || (c.end == 1 && !c.s->half && c.wcount++ > 0);
    if (pipe) { struct sigaction sa; sigaction(SIGPIPE, nullptr, &sa); if (sa.sa_handler == SIG_DFL) { sched::fail("sigpipe", "a write to a closed connection kills the process (SIGPIPE)"); } errno = EPIPE; return -1; }
    if (c.end == 1 && !c.s->half) return n;      // the first write after the peer closed still succeeds
    if (c.s->wstall > 0 && c.lastw >= 0 && sched::now() - c.lastw < c.s->wstall) { errno = EAGAIN; return -1; }
    size_t k = std::min(n, c.s->wchunk); c.out.append((const char *)buf, k); c.lastw = sched::now(); return k;
}
static ssize_t sim_send(int fd, const void *buf, size_t n, int fl) {
    if (fl & MSG_NOSIGNAL) { sched::Quiet q; struct sigaction o, ig = {}; ig.sa_handler = SIG_IGN; sigaction(SIGPIPE, &ig, &o); ssize_t r = sim_write(fd, buf, n); int e = errno; sigaction(SIGPIPE, &o, nullptr); errno = e; return r; }
    return sim_write(fd, buf, n);
}
static int sim_poll(struct pollfd *p, nfds_t n, int ms) { for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events; usleep(1000); return n; }
// ---------------------------------------------------------------- the accelerator
class ChiaDriver; struct vdf_value;
struct Eng { bool run = false; int comp = -1; long base = 0; uint64_t t = 0, n = 0; int reads = 0, step = 0, starts = 0; };
static Eng eng[8]; static int nread;
static void engines_reset() { for (auto &e : eng) e = Eng(); nread = 0; }
#include "hw/chia_driver.hpp"
#include "hw/pll_freqs.hpp"
#include "hw/hw_interface.hpp"
static int nadj; static double lastadj;
ChiaDriver *init_hw(double, double) { auto t = std::chrono::high_resolution_clock::now(); sched::Quiet q; ChiaDriver *d = (ChiaDriver *)calloc(1, sizeof(ChiaDriver)); d->freq_idx = SC->freq_idx; nadj = 0; lastadj = sched::now(); d->last_freq_update = t; return d; }
void stop_hw(ChiaDriver *d) { sched::Quiet q; for (int i = 0; i < 3; i++) if (eng[i].run) { sched::fail("engine-left", fmt("engine %d still runs when the program ends", i)); } free(d); }
int list_hw(void) { return 0; }
void adjust_hw_freq(ChiaDriver *d, uint8_t mask, int dir) { auto t = std::chrono::high_resolution_clock::now(); sched::Quiet q; long n = (long)d->freq_idx + dir; if (n < 0 || n >= VALID_PLL_FREQS) { sched::fail("freq", fmt("frequency entry %ld requested", n)); }
    for (int i = 0; i < 8; i++) if (mask >> i & 1 && (i > 2 || !eng[i].run)) { sched::fail("freq", fmt("frequency changed for engine %d, which does not run", i)); }
    if (dir > 0 && pll_entries[n].freq > SC->maxfreq) { sched::fail("freq", fmt("frequency raised to %g, at most %g allowed", pll_entries[n].freq, SC->maxfreq)); }
    if (dir > 0 && sched::now() - lastadj < SC->period) { sched::fail("freq", fmt("frequency raised %g s after the last change", sched::now() - lastadj)); }
    nadj++; lastadj = sched::now(); d->freq_idx = n; d->last_freq_update = t; }
void init_vdf_value(struct vdf_value *v) { v->iters = 0; mpz_inits(v->a, v->b, NULL); }
void clear_vdf_value(struct vdf_value *v) { mpz_clears(v->a, v->b, NULL); }
void copy_vdf_value(struct vdf_value *d, struct vdf_value *s) { d->iters = s->iters; mpz_init_set(d->a, s->a); mpz_init_set(d->b, s->b); }
static std::string find_form(mpz_t d, mpz_t a, mpz_t b, int &comp, long &pos) {
    for (size_t k = 0; k < comps.size(); k++) if (!mpz_cmp(comps[k]->D.impl, d)) { for (size_t i = 0; i < comps[k]->pw.size(); i++) if (!mpz_cmp(comps[k]->pw[i].a.impl, a) && !mpz_cmp(comps[k]->pw[i].b.impl, b)) { comp = k; pos = i; return ""; } return "the form is no value of the computation"; }
    return "unknown discriminant";
}
static bool c_any(mpz_t d, mpz_t a, mpz_t b);
int start_hw_vdf(ChiaDriver *, mpz_t d, mpz_t a, mpz_t b, uint64_t n, int idx) {
    sched::Quiet q; Eng &e = eng[idx]; if (e.run) { sched::fail("engine-busy", fmt("engine %d started while it runs", idx)); }
    int c; long p; std::string s = find_form(d, a, b, c, p);
    if (!s.empty() && SC->anyform && c_any(d, a, b)) { c = comps.size() - 1; p = 0; s.clear(); }
    if (!s.empty()) { sched::fail("engine-input", fmt("engine %d started: %s", idx, s.c_str())); }
    e.run = true; e.comp = c; e.base = p; e.t = 0; e.n = n; e.starts++; return 0;
}
void stop_hw_vdf(ChiaDriver *, int idx) { sched::Quiet q; eng[idx].run = false; }
int read_hw_status(ChiaDriver *, uint8_t mask, struct vdf_value *v) {
    if (!chia_vdf_is_emu) usleep(5000); sched::Quiet q; nread++;
    for (int i = 0; i < 3; i++) if (mask >> i & 1) {
        Eng &e = eng[i]; if (!e.run) { sched::fail("engine-read", fmt("engine %d read while stopped", i)); }
        int f = e.reads < (int)SC->faults.size() ? SC->faults[e.reads] : 0; e.reads++;
        if (f != 1) e.t = std::min<uint64_t>(e.n, e.t + SC->pace[e.step++ % SC->pace.size()]);      // fault 1: the same reading again
        v[i].iters = e.t; size_t k = e.base + e.t; if (k >= comps[e.comp]->pw.size()) { sched::fail("engine-range", "the engine was told to run past the end"); }
        mpz_set(v[i].a, comps[e.comp]->pw[k].a.impl); mpz_set(v[i].b, comps[e.comp]->pw[k].b.impl);
        if (f == 2) mpz_add_ui(v[i].a, v[i].a, 1);                                                // fault 2: corrupted
    }
    return 0;
}
void vdf_do_log(const char *, ...) {}
int chia_vdf_is_emu = 1;
#define socket sim_socket
#define connect sim_connect
#define fcntl sim_fcntl
#define close sim_close
#define read sim_read
#define write sim_write
#define recv(f, b, n, x) sim_read(f, b, n)
#define send sim_send
#define poll sim_poll
#define main hw_client_main_entry
#include "hw_proof.hpp"
#include "hw_proof.cpp"
#include "hw_vdf_client.cpp"
#undef main
#undef socket
#undef connect
#undef fcntl
#undef close
#undef read
#undef write
#undef recv
#undef send
#undef poll
#undef nudupl_form
#undef PulmarkReducer
#undef VerifyWesolowskiProof
void PrintCliVersion(const char *);
std::string hw_ref_judge(const std::string &, const uint8_t *, const uint8_t *, size_t, uint64_t, int, const std::string &, const std::string &);
// ---------------------------------------------------------------- preparation
static std::string zs(const mpz_t z) { std::vector<char> b(mpz_sizeinbase(z, 10) + 3); return mpz_get_str(b.data(), 10, z); }
static Comp *prep(int bits, long k, size_t n) {
    Comp *c = new Comp; mpz_t &D = *(mpz_t *)&c->D.impl; mpz_set_ui(D, 1); mpz_mul_2exp(D, D, bits - 1); mpz_add_ui(D, D, k); do mpz_nextprime(D, D); while (mpz_fdiv_ui(D, 8) != 7); mpz_neg(D, D);
    c->ds = zs(D); integer L; mpz_neg(L.impl, D); mpz_root(L.impl, L.impl, 4); PulmarkReducer r; form f = form::generator(c->D);
    for (size_t i = 0; i < n + 5; i++) { form g; nudupl_form(g, f, c->D, L); r.reduce(g); f = g; if (i >= 5) c->pw.push_back(f); } return c;
}
static bool c_any(mpz_t d, mpz_t a, mpz_t b) {       // a form no scenario sent as such, but one of the discriminant: follow it
    mpz_t t; mpz_init(t); mpz_mul(t, b, b); mpz_sub(t, t, d); bool ok = mpz_sgn(d) < 0 && mpz_sgn(a) > 0 && mpz_sizeinbase(d, 2) <= 1024 && mpz_fdiv_ui(t, 4) == 0; if (ok) { mpz_tdiv_q_2exp(t, t, 2); ok = mpz_divisible_p(t, a); }
    if (ok) { Comp *c = new Comp; mpz_set(c->D.impl, d); c->ds = zs(d); integer L; mpz_neg(L.impl, d); mpz_root(L.impl, L.impl, 4); PulmarkReducer r; form f; mpz_set(f.a.impl, a); mpz_set(f.b.impl, b); mpz_divexact(t, t, a); mpz_set(f.c.impl, t); for (uint64_t i = 0; i <= sim_n_iters + 40; i++) { c->pw.push_back(f); form g; nudupl_form(g, f, c->D, L); r.reduce(g); f = g; } comps.push_back(c); }
    mpz_clear(t); return ok;
}
static void fbytes(const Comp &c, int base, uint8_t *o, bool wire = true) { memset(o, 0, BQFC_FORM_SIZE); form f = c.pw[base]; bqfc_serialize(o, f.a.impl, f.b.impl, wire ? BQFC_MAX_D_BITS : mpz_sizeinbase(c.D.impl, 2)); }   // the client decodes the initial form at full width
static std::string num(const std::string &s) { return fmt("%02zu", s.size()) + s; } static std::string num(uint64_t v) { return num(fmt("%llu", (unsigned long long)v)); }
static std::string hello(int c, int base, char m = 'N') { uint8_t f[BQFC_FORM_SIZE]; fbytes(*comps[c], base, f); return std::string(1, m) + fmt("%03zu", comps[c]->ds.size()) + comps[c]->ds + std::string(1, (char)BQFC_FORM_SIZE) + std::string((char *)f, BQFC_FORM_SIZE); }
static std::string judge(const Conn &c, long &nf) {
    const Sess &s = *c.s; const std::string &o = c.out; size_t p = 0; if (!o.compare(0, 2, "OK")) p = 2; else if (o.empty() || !o.compare(0, 4, "STOP")) ; else return "output starts with " + o.substr(0, 8);
    std::multiset<uint64_t> got; bool stop = false; bool cut = !s.stop; if (s.ok == 0 && p) return "a bad challenge is accepted"; if (s.ok == 1 && !p) return "the challenge is not accepted"; const Comp &cp = *comps[s.comp]; uint8_t xs[BQFC_FORM_SIZE]; fbytes(cp, s.base, xs, false);
    while (p < o.size()) {
        if (!o.compare(p, 4, "STOP")) { stop = true; p += 4; if (p != o.size()) return fmt("%zu bytes follow the stop announcement", o.size() - p); break; }
        if (p + 4 > o.size()) { if (cut) break; return "truncated length"; } size_t l = (uint8_t)o[p] << 24 | (uint8_t)o[p + 1] << 16 | (uint8_t)o[p + 2] << 8 | (uint8_t)o[p + 3]; if (p + 4 + l > o.size()) { if (cut && l < 100000) break; return fmt("frame of %zu characters, %zu follow", l, o.size() - p - 4); }
        std::vector<uint8_t> d; for (size_t i = 0; i < l; i++) if (!isxdigit((unsigned char)o[p + 4 + i])) return "not hexadecimal"; for (size_t i = 0; i < l; i += 2) d.push_back(strtoul(o.substr(p + 4 + i, 2).c_str(), 0, 16)); p += 4 + l;
        if (d.size() < 217 || d.size() != 217 + 141 * (size_t)d[116]) return fmt("frame of %zu bytes, witness %d", d.size(), d.size() > 116 ? d[116] : -1);
        uint64_t t = 0; for (int i = 0; i < 8; i++) t = t << 8 | d[i]; uint64_t yl = 0; for (int i = 8; i < 16; i++) yl = yl << 8 | d[i]; if (yl != 100) return "wrong output length"; if (t + s.base >= cp.pw.size()) return fmt("frame for iteration %llu", (unsigned long long)t);
        const form &y = cp.pw[s.base + t]; std::string e = hw_ref_judge(cp.ds, xs, d.data(), d.size(), t, d[116], zs(y.a.impl), zs(y.b.impl)); if (!e.empty()) return fmt("request %llu (witness %d): ", (unsigned long long)t, d[116]) + e; got.insert(t); nf++;
    }
    std::multiset<uint64_t> allow(s.must.begin(), s.must.end()); allow.insert(s.may.begin(), s.may.end()); for (uint64_t g : got) { auto f = allow.find(g); if (f == allow.end()) return fmt("unexpected proof for iteration %llu", (unsigned long long)g); allow.erase(f); }
    for (uint64_t m : s.must) { auto f = got.find(m); if (f == got.end()) return fmt("no proof for iteration %llu", (unsigned long long)m); got.erase(f); }
    if (s.stop && !stop) return "the stop is not announced"; return "";
}
__attribute__((noinline)) static void scribble() { volatile char b[200000]; for (size_t i = 0; i < sizeof b; i++) b[i] = 0x5a; }
struct Named { std::string name; Script s; };
int main(int argc, char **argv) {
    VdfBaseInit(); init(argc, argv); int q = C.thorough() ? 1 : 0; comps.push_back(prep(64, 12345, 1400)); comps.push_back(prep(50, 999, 1400));
    std::vector<Named> sc; auto I = [](std::string b, double at = 0, int fr = 0) { return Item{0, at, fr, b}; }; auto END = [](int k, double at, int fr = 0) { return Item{k, at, fr, ""}; };
    const std::string STOP = "010", ACK = "ACK"; typedef std::vector<uint64_t> V;
    auto S = [&](int comp, int base, std::vector<Item> it, V must, V may, bool stop) { Sess s; s.comp = comp; s.base = base; s.items.push_back(I(hello(comp, base), 0, -1)); for (auto &x : it) s.items.push_back(x); s.must = must; s.may = may; s.stop = stop; return s; };
    auto add = [&](std::string n, Script s) { sc.push_back({n, s}); };
    if (C.mode == "serve") {
        { Script s; s.sess = {S(0, 0, {I(num(47)), I(STOP, 0, 1), I(ACK, 0, 1)}, {47}, {}, true)}; s.target = 100; s.pace = {17}; s.bound = 2; add("one request", s); }
        { Script s; s.sess = {S(0, 0, {I(num(230)), I(num(20)), I(STOP, 0, 2), I(ACK, 0, 2)}, {20, 230}, {}, true)}; s.target = 300; s.pace = {33, 20, 7}; add("a request with checkpoints and a small one", s); }
        { Script s; s.sess = {S(0, 0, {I(num(520)), I(num(300), 0.4), I(num(300), 0.6), I(STOP, 0, 3), I(ACK, 0, 3)}, {300, 300, 520}, {}, true)}; s.target = 600; s.pace = {45}; add("requests arriving out of order", s); }
        { Script s; s.sess = {S(0, 0, {I(num(47)), I(STOP, 0, 1)}, {47}, {}, true), S(1, 3, {I(num(61)), I(STOP, 0, 1)}, {61}, {}, true)}; s.target = 100; s.pace = {25}; add("two sessions one after the other", s); }
        { Script s; s.engines = 2; s.sess = {S(0, 0, {I(num(47)), I(STOP, 0, 1)}, {47}, {}, true), S(1, 3, {I(num(141)), I(STOP, 0, 1)}, {141}, {}, true)}; s.target = 200; s.pace = {25}; add("two engines", s); }
    }
    if (C.mode == "stop" || C.mode == "all") {
        for (bool emu : {true, false}) {
            { Script s; s.emu = emu; s.sess = {S(0, 0, {I(num(47)), I(STOP, emu ? 0.35 : 0.03)}, {}, {47}, true), S(1, 3, {I(num(61)), I(STOP, 0, 1)}, {61}, {}, true)}; s.target = 100; s.pace = {25}; s.bound = emu ? 1 : 2; add(fmt("stop while a proof is computed, then another session, %s loop", emu ? "slow" : "fast"), s); }
            { Script s; s.emu = emu; s.sess = {S(0, 0, {I(num(520)), I(num(30)), I(STOP, emu ? 0.4 : 0.06)}, {}, {30, 520}, true), S(1, 3, {I(num(230)), I(STOP, 0, 1)}, {230}, {}, true)}; s.target = 600; s.pace = {45}; add(fmt("stop with work queued, then another session, %s loop", emu ? "slow" : "fast"), s); }
            { Script s; s.emu = emu; s.sess = {S(0, 0, {I(STOP)}, {}, {}, true), S(1, 3, {I(num(61)), I(STOP, 0, 1)}, {61}, {}, true)}; s.target = 100; s.pace = {25}; add(fmt("stop at once, then another session, %s loop", emu ? "slow" : "fast"), s); }
            for (double t : std::initializer_list<double>{0.01, 0.06, 0.2, 0.5}) { Script s; s.emu = emu; s.engines = 2; s.stop_at = emu ? t * 4 : t / 2; s.sess = {S(0, 0, {I(num(47)), I(num(230))}, {}, {47, 230}, true), S(1, 3, {I(num(61))}, {}, {61}, true)}; s.target = 300; s.pace = {25}; add(fmt("terminated at %.2f, %s loop", s.stop_at, emu ? "slow" : "fast"), s); }
        }
    }
    if (C.mode == "restart" || C.mode == "all") {
        for (bool emu : {true, false}) {
            { Script s; s.emu = emu; s.sess = {S(0, 0, {I(num(95)), I(STOP, 0, 1)}, {95}, {}, true)}; s.target = 120; s.pace = {20, 35}; s.faults = {0, 0, 2, 0, 2}; add(fmt("corrupted readings, %s loop", emu ? "slow" : "fast"), s); }
            { Script s; s.emu = emu; s.sess = {S(0, 0, {I(num(95)), I(STOP, 0, 1)}, {95}, {}, true)}; s.target = 120; s.pace = {35, 20, 5}; s.faults = {0, 0, 2, 2}; add(fmt("corrupted readings twice, %s loop", emu ? "slow" : "fast"), s); }
            { Script s; s.emu = emu; s.sess = {S(0, 0, {I(num(250)), I(num(80)), I(STOP, 0, 2)}, {250, 80}, {}, true)}; s.target = 300; s.pace = {60, 20, 45, 20}; s.faults = {0, 0, 0, 2, 0, 0, 2, 0, 2}; add(fmt("corrupted readings with checkpoints, %s loop", emu ? "slow" : "fast"), s); }
            { Script s; s.emu = emu; s.sess = {S(0, 0, {I(num(95)), I(STOP, 0, 1)}, {95}, {}, true)}; s.target = 120; s.pace = {20, 35}; s.faults = {0, 0, 0}; for (int i = 0; i < 12; i++) s.faults.push_back(1); add(fmt("stuck accelerator, %s loop", emu ? "slow" : "fast"), s); }
        }
    }
    if (C.mode == "conn" || C.mode == "faults" || C.mode == "challenge") {
        auto G = [&](Script s, const std::string &n) { if (s.sess.size() < 2) s.sess.push_back(S(1, 3, {I(num(61)), I(STOP, 0, 1)}, {61}, {}, true)); s.target = s.target == 600 ? 100 : s.target; s.bound = 0; s.fixed = true; add(n, s); };
        // the stream of a session in given segments, one every 0.12 s from the start
        auto segs = [&](int comp, int base, const std::vector<std::string> &v, V must, V may, bool stop, int ok = 1) { Sess s; s.comp = comp; s.base = base; double t = 0; for (auto &x : v) { s.items.push_back(I(x, t, -1)); t += 0.12; } s.must = must; s.may = may; s.stop = stop; s.ok = ok; return s; };
        std::string h = hello(0, 0), body = num(47) + num(20) + num(100);
        if (C.mode == "conn") {
            for (bool emu : {true, false}) {
                for (size_t p = 1; p < h.size() + body.size(); p++) { std::string z = h + body; Script s; s.emu = emu; Sess e = segs(0, 0, {z.substr(0, p), z.substr(p)}, {20, 47, 100}, {}, true); e.items.push_back(I(STOP, 0, 3)); s.sess = {e}; G(s, fmt("the stream of a session split at byte %zu%s", p, emu ? "" : ", fast loop")); }
                for (size_t k : {1, 2, 3, 7, 50, 100, 131, 132}) { Script s; s.emu = emu; Sess e = segs(0, 0, {h + body}, {20, 47, 100}, {}, true); e.rchunk = k; e.items.push_back(I(STOP, 0, 3)); s.sess = {e}; G(s, fmt("read %zu bytes at a time%s", k, emu ? "" : ", fast loop")); }
            }
            for (int w = 2; w <= 20; w++) { std::string d = "47"; d.insert(0, w - 2, '0'); Script s; Sess e = segs(0, 0, {h, num(d) + num(20)}, {20, 47}, {}, true); e.items.push_back(I(STOP, 0, 2)); s.sess = {e}; G(s, fmt("a number of %d digits", w)); }
            for (std::string st : {"00", "010", "0200", "03000"}) for (std::string tail : {"", "ACK", "A", "0247"}) for (bool one : {false, true}) { Script s; Sess e = segs(0, 0, one ? std::vector<std::string>{h + num(47) + st + tail} : std::vector<std::string>{h, num(47) + st + tail}, {}, {47}, true); s.sess = {e}; G(s, fmt("a request and stop \"%s\" followed by \"%s\" in one segment%s", st.c_str(), tail.c_str(), one ? " with the challenge" : "")); }
            for (std::string st : {"00", "010"}) for (int k : {1, 2}) { Script s; Sess e = segs(0, 0, {h, num(47)}, {47}, {}, true); e.items.push_back(I(st, 0, 1)); e.items.push_back(END(k, 0, 1)); e.stop = k == 1 ? false : false; s.sess = {e}; G(s, fmt("stop \"%s\" and the connection %s at once", st.c_str(), k == 1 ? "closed" : "reset")); }
            for (std::string st : {"00", "010"}) for (bool one : {false, true}) { Script s; Sess e = segs(0, 0, {h, num(47)}, {47}, {}, true); e.half = true; e.items.push_back(I(st, one ? 0.3 : 0, 1)); e.items.push_back(END(1, one ? 0.3 : 0, 1)); s.sess = {e}; G(s, fmt("stop \"%s\" and the sending side closed %s", st.c_str(), one ? "later" : "at once")); }
            for (std::string u : {"101", "120", "500", "1000000007", "4294967296", "18446744073709551615", "99999999999999999999"}) for (int where : {0, 1, 2}) { Script s; std::string g = num(47) + num(20), b = where == 0 ? num(u) + g : where == 1 ? num(47) + num(u) + num(20) : g + num(u); uint64_t v = u.size() < 4 ? std::stoull(u) : 0; (void)v; Sess e = segs(0, 0, {h, b}, {20, 47}, {}, true); e.items.push_back(I(STOP, 0, 2)); s.sess = {e}; G(s, "unreachable number " + u + fmt(" at place %d", where)); }
            for (std::vector<std::string> us : std::initializer_list<std::vector<std::string>>{{"1000", "1001", "1002"}, {"1003", "1002", "1001", "1000"}, {"1000", "1000", "1000", "1000"}, {"18446744073709551615", "18446744073709551614", "18446744073709551613"}, {"1000000007", "2000000011", "4000000007", "18446744073709551000"}, {"267346000000000000", "267346000000000100", "534692000000000000"}}) for (int where : {0, 1, 2}) {
                Script s; std::string u, g = num(47) + num(20); for (auto &x : us) u += num(x); std::string b = where == 0 ? u + g : where == 1 ? num(47) + u + num(20) : g + u; Sess e = segs(0, 0, where == 1 ? std::vector<std::string>{h, num(47), u, num(20)} : where == 0 ? std::vector<std::string>{h, u, g} : std::vector<std::string>{h, b}, {20, 47}, {}, true); e.items.push_back(I(STOP, 0, 2)); s.sess = {e}; G(s, fmt("%zu unreachable numbers from %s at place %d", us.size(), us[0].c_str(), where)); }
            for (int i = 0; i < 40; i++) { Script s; uint64_t v = 101 + (uint64_t)i * i * i * 7; Sess e = segs(0, 0, {h, num(v) + num(v + 1) + num(v * 2)}, {20, 47}, {}, true); e.items.push_back(I(num(47), 0.3, -1)); e.items.push_back(I(num(20), 0.36, -1)); e.items.push_back(I(STOP, 0, 2)); s.sess = {e}; G(s, fmt("unreachable numbers from %llu, then others", (unsigned long long)v)); }
            for (int dup : {2, 5}) { Script s; V m; std::string b; for (int i = 0; i < dup; i++) { b += num(47); m.push_back(47); } Sess e = segs(0, 0, {h, b}, m, {}, true); e.items.push_back(I(STOP, 0, dup)); s.sess = {e}; G(s, fmt("the same request %d times", dup)); }
            { Script s; V m; std::string b; for (int i = 1; i <= 19; i++) { b += num(fmt("%020d", 5 * i)); m.push_back(5 * i); } Sess e = segs(0, 0, {h + b}, m, {}, true); e.items.push_back(I(STOP, 0, 19)); s.sess = {e}; G(s, "nineteen requests in the segment of the challenge"); }
            for (uint64_t v = 1; v <= 100; v++) { Script s; Sess e = segs(0, 0, {h, num(v)}, {v}, {}, true); e.items.push_back(I(STOP, 0, 1)); s.sess = {e}; G(s, fmt("iteration %llu", (unsigned long long)v)); }
            for (uint64_t v = 101; v <= (q ? 600 : 600); v += q ? 1 : 7) { Script s; s.target = 601; s.pace = {45}; Sess e = segs(0, 0, {h, num(v)}, {v}, {}, true); e.items.push_back(I(STOP, 0, 1)); s.sess = {e}; G(s, fmt("iteration %llu of 600", (unsigned long long)v)); }
            for (int f = 1; f <= 8; f++) { Script s; s.fails = f; Sess e = segs(0, 0, {h, num(47)}, {47}, {}, true); e.items.push_back(I(STOP, 0, 1)); s.sess = {e}; G(s, fmt("connection refused %d times", f)); }
        }
        if (C.mode == "conn") for (int f : {0, 1, 2, 100, VALID_PLL_FREQS - 3, VALID_PLL_FREQS - 2, VALID_PLL_FREQS - 1}) for (int mx : {0, 1, 2, 50}) for (bool bad : {false, true}) {
            Script s; s.freq_idx = f; s.period = 10; int top = std::min(f + mx, VALID_PLL_FREQS - 1); s.args = "--auto-freq-period 10"; if (mx < 50) { s.maxfreq = pll_entries[top].freq + 1e-9; s.args += fmt(" --max-freq %.12f", s.maxfreq); } else s.maxfreq = pll_entries[VALID_PLL_FREQS - 1].freq;
            s.target = 601; s.pace = {45}; if (bad) s.faults = {0, 0, 2, 2, 0, 2}; Sess e = segs(0, 0, {h, num(520)}, {520}, {}, true); e.items.push_back(I(num(47), 60, 1)); e.must.push_back(47); e.items.push_back(I(STOP, 0, 2)); s.pace = {1, 0}; s.pace = {1}; s.target = 560; s.raises = bad ? -1 : top - f; s.sess = {e}; G(s, fmt("automatic frequency from entry %d, %s above allowed%s", f, mx < 50 ? fmt("%d", mx).c_str() : "all", bad ? ", corrupted readings" : "")); }
        if (C.mode == "faults") {
            for (int k : {1, 2}) {
                for (size_t p = 0; p <= h.size() + body.size(); p++) { std::string z = h + body; Sess e = segs(0, 0, {z.substr(0, p)}, {}, {20, 47, 100}, false, p < h.size() ? 0 : -1); e.items.push_back(END(k, 0.12, -1)); Script s; s.sess = {e}; G(s, fmt("connection %s after %zu bytes", k == 1 ? "closed" : "reset", p)); }
                for (int n = 1; n <= 3; n++) { Sess e = segs(0, 0, {h, body}, {}, {20, 47, 100}, false); e.items.push_back(END(k, 0, n)); Script s; s.sess = {e}; G(s, fmt("connection %s after %d answers", k == 1 ? "closed" : "reset", n)); }
                for (double t : std::initializer_list<double>{0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.5, 0.6}) { Sess e = segs(0, 0, {h + num(520) + num(30)}, {}, {30, 520}, false, -1); e.items.push_back(END(k, t, -1)); Script s; s.target = 601; s.pace = {45}; s.sess = {e}; G(s, fmt("connection %s at %.2f s with work under way", k == 1 ? "closed" : "reset", t)); }
            }
            for (long w = 0; w <= 2 + 3 * 438 + 4; w += q ? 1 : (w < 8 || (w - 2) % 438 < 6 || (w - 2) % 438 > 434) ? 1 : 29) { Sess e = segs(0, 0, {h, body}, {}, {20, 47, 100}, false, -1); e.wlimit = w; e.items.push_back(I(STOP, 0, 3)); e.items.push_back(END(1, 3, -1)); Script s; s.sess = {e}; G(s, fmt("writing fails after %ld bytes", w)); }
            for (size_t k : {1, 2, 3, 50, 433, 434, 437, 438}) { Sess e = segs(0, 0, {h, body}, {20, 47, 100}, {}, true); e.wchunk = k; e.items.push_back(I(STOP, 0, 3)); Script s; s.sess = {e}; G(s, fmt("%zu bytes accepted per write", k)); }
            for (size_t k : {100, 217, 438}) for (double st : std::initializer_list<double>{0.0005, 0.002, 0.05, 0.5}) { Sess e = segs(0, 0, {h, body}, {20, 47, 100}, {}, true); e.wchunk = k; e.wstall = st; e.items.push_back(I(STOP, 0, 3)); Script s; s.sess = {e}; G(s, fmt("%zu bytes accepted per write, every %g s", k, st)); }
            { Script s; s.target = 601; s.pace = {45}; Sess e = segs(0, 0, {h, num(520) + num(230)}, {230, 520}, {}, true); e.wchunk = 100; e.wstall = 0.01; e.items.push_back(I(STOP, 0, 2)); s.sess = {e}; G(s, "frames with segments over a slow connection"); }
            for (std::string bad : {"99", "21", "0a", "a0", "xx", " 5", "-1", "+1", "02-5", "02+5", "02 5", "025x", "03\n47", "0x", "2118446744073709551616", "\xff\xff"}) for (int where : {0, 1, 2}) { Sess e = where == 0 ? segs(0, 0, {h + bad}, {}, {}, false) : where == 1 ? segs(0, 0, {h, num(47) + bad}, {}, {47}, false) : segs(0, 0, {h, num(47)}, {47}, {}, false); if (where == 2) e.items.push_back(I(bad, 0, 1)); Script s; s.sess = {e}; s.engines = 2; Sess f = segs(1, 3, {hello(1, 3), num(61)}, {61}, {}, true); f.items.push_back(I(STOP, 1.5, 1)); s.sess.push_back(f); s.sess.push_back(S(1, 3, {I(num(61)), I(STOP, 0, 1)}, {61}, {}, true)); G(s, "malformed request \"" + bad + fmt("\" at place %d, another session beside it", where)); }
        }
        if (C.mode == "challenge") {
            auto badc = [&](const std::string &g, const std::string &n, int ok = 0) { Sess e = segs(0, 0, {g}, {}, {}, false, ok); e.items.push_back(END(1, 0.35, -1)); Script s; s.anyform = true; s.sess = {e}; G(s, n); };
            for (int b = 0; b < 256; b++) if (!strchr("SNT", b) || !b) badc(std::string(1, (char)b) + h.substr(1), fmt("first byte %02x", b));
            for (int b : {'S', 'N', 'T'}) badc(std::string(1, (char)b) + h.substr(1), fmt("mode %c", b), 1);
            size_t ds = comps[0]->ds.size(); for (int v = 0; v < 1000; v += (v > 130 && v < 340) || v > 360 ? q ? 1 : 23 : 1) if (v != (int)ds) badc(h.substr(0, 1) + fmt("%03d", v) + h.substr(4), fmt("discriminant size %03d", v));
            for (int v = 350; v <= 507; v++) badc(h.substr(0, 1) + fmt("%03d", v) + h.substr(4) + std::string(512 - h.size(), '7'), fmt("discriminant size %03d followed by as much", v));
            for (std::string v : {"abc", "0 2", " 20", "+20", "-20", "0x1", "2\n0", "20 ", "1e2"}) badc(h.substr(0, 1) + v + h.substr(4), "discriminant size \"" + v + "\"");
            for (int b = 0; b < 256; b++) if (b != BQFC_FORM_SIZE) { std::string z = h; z[4 + ds] = (char)b; badc(z + std::string(160, 'x'), fmt("form size %d", b)); }
            std::string fb = h.substr(4 + ds); auto withD = [&](const std::string &d) { return std::string("N") + fmt("%03zu", d.size()) + d + fb; };
            std::string pos = comps[0]->ds.substr(1); for (std::string d : {pos, std::string("0"), std::string("-0"), std::string("-"), std::string("garbage"), std::string("-12x4"), std::string(349, '9'), "-" + std::string(348, '9'), std::string("-") + std::string(309, '9'), std::string("1"), std::string("5"), std::string("-1"), std::string("-2"), std::string("-4"), std::string("-5"), std::string("-6"), std::string("-8"), std::string("-10"), std::string("--7"), std::string(" "), std::string("- 7")}) badc(withD(d), "discriminant " + d.substr(0, 24));
            for (int k : {1, 2, 3}) { mpz_t t; mpz_init(t); mpz_sub_ui(t, comps[0]->D.impl, k); badc(withD(zs(t)), fmt("discriminant not 1 modulo 4 (%d below)", k)); mpz_clear(t); }
            { mpz_t t; mpz_init(t); mpz_sub_ui(t, comps[0]->D.impl, 8); badc(withD(zs(t)), "a form of another discriminant"); mpz_clear(t); }
            for (int b = 0; b < (int)BQFC_FORM_SIZE; b++) for (int v : {0, 1, 0x80, 0xff}) for (int x = 0; x < 2; x++) { std::string z = h; char &c = z[5 + ds + b]; char n = x ? c ^ v : v; if (n == c) continue; if (!q && x && v != 1) continue; c = n; badc(z, fmt("form byte %d %s %02x", b, x ? "changed by" : "set to", v), -1); }
            for (int v : {0, 1, 2, 3, 0x7f, 0xff}) { std::string z = h; for (int b = 0; b < (int)BQFC_FORM_SIZE; b++) z[5 + ds + b] = (char)v; badc(z, fmt("all form bytes %02x", v), -1); }
            for (int v = 0; v < 256; v++) { std::string z = h; z[5 + ds] = (char)v; badc(z, fmt("first form byte %02x", v), -1); }
        }
    }
    for (auto &x : sc) {
        sched::Opt o; o.bound = x.s.bound + (x.s.fixed && C.mode != "faults" ? 0 : q); o.hot = 2; o.max_steps = 400000; o.vlimit = 3000;
        auto body = [&] {
            { sched::Quiet qq; SC = &x.s; conns.clear(); conns.reserve(16); nextsess = 0; openfds = maxopen = 0; fdconn.clear(); nextfd = 0; connfails = x.s.fails; engines_reset(); g_stopping = false; sim_n_iters = x.s.target; chia_vdf_is_emu = x.s.emu; signal(SIGPIPE, SIG_DFL); }
            scribble(); std::vector<std::string> a{"hw_vdf_client", "8000", fmt("%d", x.s.engines)}; { size_t p = 0; std::string t; for (char ch : x.s.args + " ") if (ch == ' ') { if (t.size()) a.push_back(t); t.clear(); } else t += ch; (void)p; }
            std::vector<char *> av; for (auto &s : a) av.push_back((char *)s.c_str()); av.push_back(nullptr);
            int rc = hw_vdf_client_main(a.size(), av.data());
            sched::Quiet qq; if (rc) sched::fail("exit", fmt("the program ends with code %d", rc)); if (nextsess < x.s.sess.size() && x.s.stop_at < 0) sched::fail("reconnect", fmt("only %zu of %zu sessions were accepted", nextsess, x.s.sess.size()));
            if (openfds) sched::fail("fd-leak", fmt("%d sockets are still open at the end", openfds)); long nf = 0;
            for (size_t i = 0; i < conns.size(); i++) { std::string j = judge(conns[i], nf); if (!j.empty()) sched::fail("session", fmt("session %zu: ", i + 1) + j); }
            if (x.s.raises >= 0 && x.s.raises < 50 && nadj < std::min(x.s.raises, 1)) sched::fail("freq", "the frequency is never raised");
            sched::outcome(x.s.fixed ? fmt("%zu sessions, %ld proofs", conns.size(), nf) : fmt("%s: %zu sessions, %ld proofs", x.name.c_str(), conns.size(), nf));
        };
        sched::explore(x.name, o, body);
        if (C.elapsed() > C.budget) { C.capped = true; break; }
    }
    return finish();
}
