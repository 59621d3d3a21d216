// C12: every segment prover, on every step of its proof, against an independent computation of the proof.
#include "vdf.h"
#include "vh.h"
#include "ref.h"
#include "ref_verify.h"
#include <semaphore.h>
using namespace vh;
int gcd_base_bits = 50; int gcd_128_max_iter = 3;
static const char *DSS[] = {"-0x86d15fb3b7", "-0xd3e1f70c53b2a9914ae0f1ba5ddc3f97", "-0x8c2d3b51f0e7a6499c1d2e3f4a5b6c7d8e9fa0b1c2d3e4f506172839405162738495a6b7c8d9eafb0c1d2e3f40516273", 
 "-0xf1d2c3b4a5968778695a4b3c2d1e0f1021324354657687980a9bacbdcedfe0f1122334455667788990aabbccddeeff001122334455667788990aabbccddeeff0a1b2c3d4e5f60718293a4b5c6d7e8f9010203040506070809101112131415161718191a1b1c1d1e1f2021222324252627"};
static ref::Z Zof(const integer &i) { return ref::Z(const_cast<integer &>(i).impl); }
static integer Iof(const ref::Z &z) { integer i; mpz_set(i.impl, z.get_mpz_t()); return i; }
static form Fof(const ref::F &f) { form r; mpz_set(r.a.impl, f.a.get_mpz_t()); mpz_set(r.b.impl, f.b.get_mpz_t()); mpz_set(r.c.impl, f.c.get_mpz_t()); return r; }
static ref::F Rof(const form &f) { ref::F r; r.a = ref::Z(f.a.impl); r.b = ref::Z(f.b.impl); r.c = ref::Z(f.c.impl); return r; }
// one instance: powers of x, squared with the reference
struct Inst { ref::Z D; std::vector<ref::F> p; integer Di; Inst(int d, uint64_t seed) { D = ref::Z(DSS[d]); while (ref::fmod(D, 8) != 1 || !ref::is_prime(-D)) D -= 1; Di = Iof(D); ref::F g{2, 1, (1 - D) / 8}; ref::reduce(g, D); p.push_back(ref::pow(g, ref::Z((unsigned long)seed), D)); }
    const ref::F &at(uint64_t i) { while (p.size() <= i) p.push_back(ref::square(p.back(), D)); return p[i]; } };
static ref::F want(Inst &I, uint64_t from, uint64_t len) { return ref::prove(I.D, I.at(from), I.at(from + len), len); }
static Segment seg(Inst &I, uint64_t from, uint64_t len) { form x = Fof(I.at(from)), y = Fof(I.at(from + len)); return Segment(from, len, x, y); }
static void cmp(const form &got, const ref::F &w, const char *key, const std::string &ctx) { C.transitions++; if (!(Rof(got) == w)) viol(key, ctx + ": proof " + ref::str(Rof(got)).substr(0, 120) + " expected " + ref::str(w).substr(0, 120)); }
// ------------------------------------------------------------- generic tables: every (length, k, l)
struct Gen : Prover { Inst &I; uint64_t from; int64_t steps = 0, stop_at = -1; std::set<uint64_t> asked; Gen(Inst &I_, uint64_t f, uint64_t len, int k_, int l_) : Prover(seg(I_, f, len), I_.Di), I(I_), from(f) { k = k_; l = l_; }
    form GetForm(uint64_t i) override { uint64_t e = i * k * l; asked.insert(e); if (e >= num_iterations) viol("table-overrun", fmt("length %llu k %u l %u asks for the value at %llu", (unsigned long long)num_iterations, k, l, (unsigned long long)e)); return Fof(I.at(from + e)); }
    void start() override { GenerateProof(); } void stop() override {} bool PerformExtraStep() override { return steps++ != stop_at; } void OnFinish() override { is_finished = true; } };
struct GenP : ParallelProver { Inst &I; uint64_t from; std::atomic<int64_t> steps{0}; int64_t stop_at = -1; GenP(Inst &I_, uint64_t f, uint64_t len, int k_, int l_) : ParallelProver(seg(I_, f, len), I_.Di), I(I_), from(f) { k = k_; l = l_; }
    form GetForm(uint64_t i) override { uint64_t e = i * k * l; if (e >= num_iterations) viol("table-overrun", "parallel prover"); return Fof(I.p[from + e]); }
    void start() override { GenerateProof(); } void stop() override {} std::atomic<bool> halted{false}; bool PerformExtraStep() override { if (steps++ == stop_at) halted = true; return !halted; } void OnFinish() override { is_finished = true; } };
static void tables() {
    for (int d = 0; d < 4; d++) for (uint64_t len = 1; len <= (C.thorough() ? 700u : 230u); len++) { if (d && len % (C.thorough() ? 3 : 11) != (uint64_t)d && len > 40 && !(len >= 255 && len < 280)) continue; if (!next()) continue; C.traces++; C.nontrivial++; static Inst *I = nullptr; static int id = -1; if (id != d) { I = new Inst(d, 3); id = d; } I->at(len + 5);
        for (uint64_t from : std::initializer_list<uint64_t>{0, 5}) { ref::F w = want(*I, from, len); for (int k = 1; k <= (len < 60 ? 11 : 7); k++) for (int l = 1; l <= (k < 6 ? 10 : 3); l++) { if (from && (k > 4 || l > 3)) continue; if (!C.thorough() && len > 60 && (k + l + len) % 3) continue; C.states++; Gen g(*I, from, len, k, l); g.start(); if (!g.IsFinished()) viol("not-finished", fmt("length %llu k %d l %d", (unsigned long long)len, k, l)); cmp(g.GetProof(), w, "table-proof", fmt("D%d from %llu length %llu k %d l %d", d, (unsigned long long)from, (unsigned long long)len, k, l));
            if (len % 7 == 0 && k <= 4) { C.states++; GenP q(*I, from, len, k, l); q.start(); cmp(q.GetProof(), w, "parallel-proof", fmt("parallel: D%d length %llu k %d l %d", d, (unsigned long long)len, k, l)); } } } }
}
// ------------------------------------------------------------- stopping the signal-driven provers at every step
template <class P> struct Stop : P { std::atomic<bool> *sig; int64_t at, n = 0; using P::P; bool PerformExtraStep() override { if (n++ == at) *sig = true; return P::PerformExtraStep(); } };
static void feed(WesolowskiCallback &w, Inst &I, uint64_t upto, uint64_t grid) { vdf_original::form f; for (uint64_t e = 1; e <= upto; e++) if (e % grid == 0 || e == upto) { ref::F &r = const_cast<ref::F &>(I.at(e)); f.a[0] = *r.a.get_mpz_t(); f.b[0] = *r.b.get_mpz_t(); f.c[0] = *r.c.get_mpz_t(); w.OnIteration(NL_FORM, &f, e - 1); } mpz_init(f.a); mpz_init(f.b); mpz_init(f.c); }
static void one() {
    for (int d = 0; d < 4; d++) for (uint64_t T = 1; T <= (d ? 60u : C.thorough() ? 900u : 300u); T++) { if (!next()) continue; C.traces++; C.states++; Inst I(d, 5); form f0 = Fof(I.at(0)); ref::F w = want(I, 0, T); OneWesolowskiCallback cb(I.Di, f0, T); feed(cb, I, T, 1); std::atomic<bool> st(false); Segment s(0, T, f0, cb.result); OneWesolowskiProver p(s, I.Di, cb.forms.get(), st); p.start(); if (!p.IsFinished()) viol("not-finished", fmt("one T=%llu", (unsigned long long)T)); cmp(p.GetProof(), w, "one-proof", fmt("D%d T=%llu", d, (unsigned long long)T)); }
    for (uint64_t T : std::initializer_list<uint64_t>{65535, 65536, 65537, 65544, 100000, 131071, 262144}) { if (!next()) continue; C.traces++; C.states++; Inst I(1, 7); form f0 = Fof(I.at(0)); ref::F w = want(I, 0, T); OneWesolowskiCallback cb(I.Di, f0, T); feed(cb, I, T, 1); std::atomic<bool> st(false); Segment s(0, T, f0, cb.result); OneWesolowskiProver p(s, I.Di, cb.forms.get(), st); p.start(); cmp(p.GetProof(), w, "one-proof", fmt("T=%llu", (unsigned long long)T)); }
    // a stop at every step
    for (uint64_t T : std::initializer_list<uint64_t>{1, 37, 250}) { Inst I(1, 9); form f0 = Fof(I.at(0)); ref::F w = want(I, 0, T); OneWesolowskiCallback cb(I.Di, f0, T); feed(cb, I, T, 1); Segment s(0, T, f0, cb.result); int64_t total = -1; for (int64_t at = -1; total < 0 || at <= total + 1; at++) { if (total >= 0 && at >= 0 && !next()) continue; if (total >= 0) { C.traces++; C.states++; } std::atomic<bool> st(false); Stop<OneWesolowskiProver> p(s, I.Di, cb.forms.get(), st); p.sig = &st; p.at = at; p.start(); if (total < 0) total = p.n; bool hit = at >= 0 && at < total; if (total >= 0) { if (hit && p.IsFinished()) viol("stopped-finished", fmt("one T=%llu stopped at step %lld claims to be finished", (unsigned long long)T, (long long)at)); if (!hit && !p.IsFinished()) viol("not-finished", fmt("one T=%llu", (unsigned long long)T)); if (hit && p.n > at + 1) viol("stop-late", fmt("T=%llu: %lld further steps after the stop", (unsigned long long)T, (long long)(p.n - at - 1))); if (!hit) cmp(p.GetProof(), w, "one-proof", "stop never reached"); } } }
}
static void two() {
    // one callback per process (its table is large); forms of one instance recorded once
    static Inst I(1, 11); static TwoWesolowskiCallback cb(I.Di, Fof(I.at(0))); static bool fed = false; uint64_t N = 6000; auto need = [&] { if (!fed) { feed(cb, I, N, 10); fed = true; } };
    for (uint64_t from = 0; from <= 400; from += 10) for (uint64_t blk = 0; blk < (C.thorough() ? 300u : 100u); blk += 20) { if (from > 30 && from % 100) continue; if (!next()) continue; C.traces++; need(); for (uint64_t len = blk + 1; len <= blk + 20; len++) { C.states++; ref::F w = want(I, from, len); std::atomic<bool> st(false); TwoWesolowskiProver p(seg(I, from, len), I.Di, &cb, st); if (len % 5 == 0) { p.start(); p.start(); p.stop(); p.stop(); } else p.GenerateProof(); if (!p.IsFinished()) viol("not-finished", "two"); cmp(p.GetProof(), w, "two-proof", fmt("from %llu length %llu", (unsigned long long)from, (unsigned long long)len)); } }
    for (uint64_t len : std::initializer_list<uint64_t>{1000, 2990, 5500}) { if (!next()) continue; C.traces++; C.states++; need(); ref::F w = want(I, 100, len); std::atomic<bool> st(false); TwoWesolowskiProver p(seg(I, 100, len), I.Di, &cb, st); p.start(); p.stop(); cmp(p.GetProof(), w, "two-proof", fmt("length %llu", (unsigned long long)len)); }
    { uint64_t len = 300; int64_t total = 30 + 2 * 1024; /* an upper bound; steps beyond the end are told apart below */ for (int64_t at = 0; at <= total + 1; at++) { if (!C.thorough() && at > 60 && at % 13) continue; if (!next()) continue; C.traces++; C.states++; need(); std::atomic<bool> st(false); Stop<TwoWesolowskiProver> p(seg(I, 100, len), I.Di, &cb, st); p.sig = &st; p.at = at; p.start(); p.stop(); if (p.n <= at) { if (!p.IsFinished()) viol("not-finished", "two"); cmp(p.GetProof(), want(I, 100, len), "two-proof", "stop never reached"); C.extra["stop_after_end"]++; } else { if (p.IsFinished()) viol("stopped-finished", fmt("two stopped at step %lld", (long long)at)); if (p.n > at + 1) viol("stop-late", "two"); C.extra["stopped"]++; } } }
}
// ------------------------------------------------------------- pausable provers
static FastAlgorithmCallback *FC; static Inst *FI; static uint64_t FN;
static void fast_need(uint64_t n) { if (!FC) { FI = new Inst(0, 13); FC = new FastAlgorithmCallback(8, FI->Di, Fof(FI->at(0)), false); } vdf_original::form f; for (; FN < n;) { FN++; ref::F &r = const_cast<ref::F &>(FI->at(FN)); f.a[0] = *r.a.get_mpz_t(); f.b[0] = *r.b.get_mpz_t(); f.c[0] = *r.c.get_mpz_t(); FC->OnIteration(NL_FORM, &f, FN - 1); } mpz_init(f.a); mpz_init(f.b); mpz_init(f.c); }
struct IP : InterruptableProver { std::atomic<int64_t> n{0}; std::set<int64_t> pauses; sem_t at_pause; std::atomic<int64_t> last{0}; IP(Segment s, integer D, FastAlgorithmCallback *w) : InterruptableProver(s, D, w) { sem_init(&at_pause, 0, 0); }
    ~IP() { } std::function<void(int64_t)> hook;
    bool PerformExtraStep() override { int64_t i = n; if (hook) hook(i); if (pauses.count(i)) { pause(); sem_post(&at_pause); } bool r = InterruptableProver::PerformExtraStep(); n = i + 1; return r; } };
static bool wait_finish(IP &p, double s = 20) { for (double t = 0; t < s; t += 0.0005) { if (p.IsFinished() && p.IsFullyFinished()) return true; usleep(500); } return false; }
static bool take(sem_t *s) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 20; while (sem_timedwait(s, &ts)) if (errno != EINTR) return false; return true; }
static std::map<std::pair<uint64_t, uint64_t>, ref::F> WM;
static const ref::F &wantc(uint64_t from, uint64_t len) { auto k = std::make_pair(from, len); auto it = WM.find(k); if (it != WM.end()) return it->second; return WM[k] = want(*FI, from, len); }
static void pausable(uint64_t from, uint64_t len, std::vector<int64_t> at, int ending) {   // ending: 0 resume and finish, 1 stop while paused, 2 destroy after finish without stop
    C.states++; std::string ctx = fmt("segment %llu+%llu paused at", (unsigned long long)from, (unsigned long long)len); for (auto a : at) ctx += fmt(" %lld", (long long)a);
    new_event = false; bool stopped = false; { IP p(seg(*FI, from, len), FI->Di, FC); std::sort(at.begin(), at.end()); at.erase(std::unique(at.begin(), at.end()), at.end()); p.pauses.insert(at.begin(), at.end()); if (!p.IsRunning() || p.IsFinished() || p.IsFullyFinished()) viol("state", ctx + ": before the start"); p.start();
        for (size_t i = 0; i < at.size(); i++) { if (!take(&p.at_pause)) { if (p.IsFinished()) C.extra["pause_after_end"]++; else viol("pause-never", ctx); break; } if (p.IsRunning()) viol("state", ctx + ": running while paused"); int64_t n0 = p.n; for (int q = 0; q < 3; q++) sched_yield(); if (i + 1 == at.size()) usleep(300); if (p.n != n0 || n0 != at[i]) viol("paused-progress", ctx + fmt(": step %lld after pausing at step %lld", (long long)p.n.load(), (long long)at[i])); if (p.IsFinished()) viol("state", ctx + ": finished while paused");
            if (ending == 1 && i + 1 == at.size()) { p.stop(); stopped = true; if (p.n > at[i] + 2) viol("stop-late", ctx); break; } bool lastp = i + 1 == at.size(); if (lastp && i % 2) p.resume(); p.resume(); if (lastp && !p.IsRunning()) viol("state", ctx + ": not running after resume"); C.transitions += 2; }
        if (!stopped) { if (!wait_finish(p)) viol("resume-hang", ctx + ": did not finish"); else { cmp(p.GetProof(), wantc(from, len), "pausable-proof", ctx); { std::lock_guard<std::mutex> lk(new_event_mutex); if (!new_event) viol("no-event", ctx); } p.pause(); p.resume(); cmp(p.GetProof(), wantc(from, len), "pausable-proof", ctx + ", then paused and resumed"); } if (ending == 0) p.stop(); if (!p.IsFinished()) viol("state", ctx + ": finished prover not finished after stop"); } }
}
static void inter() {
    const uint64_t L0 = 1 << 16; int64_t total = 0; { fast_need(L0); IP p(seg(*FI, 0, L0), FI->Di, FC); p.start(); wait_finish(p); p.stop(); total = p.n; }
    // all segments of all lengths that fit
    for (uint64_t s = 0; s < 4; s++) { if (!next()) continue; C.traces++; fast_need((s + 1) * L0); pausable(s * L0, L0, {}, s % 3); }
    if (next()) { C.traces++; fast_need(1 << 18); pausable(0, 1 << 18, {0, 100, 30000}, 0); } if (C.thorough()) { if (next()) { fast_need(1 << 20); pausable(0, 1 << 20, {3, 70000}, 2); } if (next()) { fast_need(1 << 19); pausable(1 << 18, 1 << 18, {21845}, 0); } }
    // pause at every step, resumed; stop at every step
    for (int64_t at = 0; at < total; at++) { if (!C.thorough() && at > 40 && at < total - 40 && at % 23 && abs(at - 6554) > 10 && abs(at - 7578) > 10) continue; if (!next()) continue; C.traces++; C.nontrivial++; fast_need(L0); if (at % 2 || C.thorough()) pausable(0, L0, {at}, 0); if (at % 2 == 0 || C.thorough()) pausable(0, L0, {at}, 1); }
    // pairs and triples of pauses
    std::vector<int64_t> g{0, 1, 2, 77, 6552, 6553, 6554, 6555, 7000, 7577, 7578, 8600, total - 1}; for (size_t i = 0; i < g.size(); i++) for (size_t j = i + 1; j < g.size(); j++) { if (g[j] >= total) continue; if (!next()) continue; C.traces++; fast_need(L0); pausable(0, L0, {g[i], g[j]}, (i + j) % 3 == 1); pausable(0, L0, {g[i], g[j], total - 1 > g[j] ? total - 1 : g[j]}, 2 * ((i + j) % 2)); }
    // stop arriving from another thread while running, at every (grid) step
    for (int64_t at = 0; at < total; at += C.thorough() ? 17 : 211) { if (!next()) continue; C.traces++; C.states++; fast_need(L0); sem_t go; sem_init(&go, 0, 0); std::atomic<bool> issued(false); IP p(seg(*FI, 0, L0), FI->Di, FC); p.hook = [&](int64_t i) { if (i == at) { sem_post(&go); while (!p.IsFinished()) sched_yield(); } }; p.start(); take(&go); p.stop(); if (p.n > at + 1) viol("stop-late", fmt("stop at step %lld, ran to %lld", (long long)at, (long long)p.n.load())); }
}
int main(int argc, char **argv) { init(argc, argv); std::cout.setstate(std::ios::failbit); if (C.mode == "tables") tables(); else if (C.mode == "one") one(); else if (C.mode == "two") two(); else if (C.mode == "inter") inter(); else return 3; return finish(); }
