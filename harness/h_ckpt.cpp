// C11: which value sits in which slot. The real recorders are driven with forms that encode the exponent they
// stand for, so every lookup can be compared with the exponent it was asked for.
#include "vdf.h"
#include "vh.h"
#include <sys/mman.h>
using namespace vh;
int gcd_base_bits = 50; int gcd_128_max_iter = 3;
// large arrays get a guard page behind them: a slot outside its table faults
static struct { char *base; size_t len; void *user; } regs[256];
static void *galloc(size_t n) {
    if (n < (1u << 16)) return malloc(n);
    size_t p = (n + 4095) & ~4095ull; char *m = (char *)mmap(0, p + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) return nullptr;
    mprotect(m, 4096, PROT_NONE); mprotect(m + 4096 + p, 4096, PROT_NONE); void *u = m + 4096 + (p - ((n + 15) & ~15ull));
    for (auto &r : regs) if (!r.user) { r.base = m; r.len = p + 8192; r.user = u; return u; }
    abort();
}
void *operator new[](size_t n) { void *p = galloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete[](void *p) noexcept { if (!p) return; for (auto &r : regs) if (r.user == p) { r.user = nullptr; munmap(r.base, r.len); return; } free(p); }
void operator delete[](void *p, size_t) noexcept { operator delete[](p); }
static const char *DS = "-0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffe7";
static form enc(uint64_t e) { form f; f.a = integer(e + 2); f.b = integer((uint64_t)1); mpz_set_ui(f.c.impl, 1); mpz_mul_2exp(f.c.impl, f.c.impl, 63); return f; }
struct Feeder { vdf_original::form f; form h; Feeder() { mpz_set_ui(h.b.impl, 1); mpz_set_ui(h.c.impl, 1); mpz_mul_2exp(h.c.impl, h.c.impl, 63); }
    template <class W> void operator()(W &w, uint64_t e) { mpz_set_ui(h.a.impl, e + 2); f.a[0] = h.a.impl[0]; f.b[0] = h.b.impl[0]; f.c[0] = h.c.impl[0]; C.transitions++; w.OnIteration(NL_FORM, &f, e - 1); h.a.impl[0] = f.a[0]; } };
static bool is(const form &f, uint64_t e) { return mpz_cmp_ui(f.a.impl, e + 2) == 0 && mpz_cmp_ui(f.b.impl, 1) == 0; }
static std::string val(const form &f) { return "[" + f.a.to_string() + "-2]"; }
static uint64_t pw(int b) { return 1ull << (16 + 2 * b); }
static uint64_t kl(int b) { return b == 0 ? 10 : 12ull << (2 * (b - 1)); }
static integer mkD() { return integer(std::string(DS)); }
static void check_slot(FastAlgorithmCallback &w, uint64_t e, int b, const std::string &ctx) {
    C.states++; int64_t pos = w.GetPosition(e, b); if (pos < 0 || (uint64_t)pos >= w.forms_capacity) { viol("fast-slot-range", ctx + fmt(": exponent %llu bucket %d slot %lld", (unsigned long long)e, b, (long long)pos)); return; }
    if (!is(*w.GetForm(e, b), e)) viol("fast-slot-value", ctx + fmt(": exponent %llu of bucket %d holds ", (unsigned long long)e, b) + val(*w.GetForm(e, b)));
}
static const uint64_t kDocumented = 1ull << 34;
// every grid value of the last 20 segments of bucket b, when the recorder has just passed iteration `last`
static void check_live(FastAlgorithmCallback &w, int b, uint64_t first, uint64_t last, const std::string &ctx) {
    uint64_t cs = last / pw(b), s0 = cs >= (uint64_t)kWindowSize - 1 ? cs - (kWindowSize - 1) : 0;
    for (uint64_t s = s0; s <= cs; s++) for (uint64_t o = 0; o < pw(b); o += kl(b)) { uint64_t e = s * pw(b) + o; if (e > last) break; if (e < first && e != 0) continue; if (e == 0 && first) continue; check_slot(w, e, b, ctx); }
}
static void fast() {
    // 1. every iteration from the start, few segments, wrapping the windows several times, checked after every segment of the smallest size
    for (int segs = 1; segs <= 4; segs++) { if (!next()) continue; C.traces++; C.nontrivial++; integer D = mkD(); FastAlgorithmCallback w(segs, D, enc(0), false); Feeder fd; std::string ctx = fmt("%d segment sizes, all iterations", segs);
        uint64_t top = segs == 1 ? 70 * pw(0) : segs == 2 ? 45 * pw(1) : segs == 3 ? (C.thorough() ? 24 : 21) * pw(2) : (C.thorough() ? 21 : 6) * pw(3);
        for (uint64_t e = 1; e <= top; e++) { fd(w, e); if (e % pw(segs - 1) == 0 && e / pw(segs - 1) % (segs == 1 ? 1 : segs == 2 ? 4 : 10) == 0) for (int b = 0; b < segs; b++) check_live(w, b, 0, e, ctx); }
        for (int b = 0; b < segs; b++) check_live(w, b, 0, top, ctx); for (uint64_t i = 0; i <= top >> 16; i++) { C.states++; if (!is(w.checkpoints[i], i << 16)) viol("fast-checkpoint", ctx + fmt(": checkpoint %llu holds ", (unsigned long long)i) + val(w.checkpoints[i])); } }
    // 2. grid of one bucket (with the neighbours that must not be recorded in it), full windows, at every offset of the ring
    for (int segs = 1; segs <= 8; segs++) for (int b = 0; b < segs; b++) for (uint64_t s0 : {0, 1, 7, 19, 20, 21, 39, 1000}) { if (s0 == 1000 && b > 3) continue; if (!C.thorough() && s0 && segs != 8 && segs != b + 1) continue; uint64_t nseg = C.thorough() || s0 == 0 ? 21 : 3; if (s0 * pw(b) >= kDocumented) continue; nseg = std::min(nseg, kDocumented / pw(b) - s0); if (!next()) continue; C.traces++;
        integer D = mkD(); FastAlgorithmCallback w(segs, D, enc(0), false); Feeder fd; std::string ctx = fmt("%d segment sizes, bucket %d from segment %llu", segs, b, (unsigned long long)s0); uint64_t first = s0 * pw(b), last = first;
        for (uint64_t s = s0; s < s0 + nseg; s++) for (uint64_t o = 0; o < pw(b); o += kl(b)) { uint64_t e = s * pw(b) + o; if (e > 1) fd(w, e - 1); if (e) fd(w, e), last = e; fd(w, e + 1); if (o < 3 * kl(b) || o + 3 * kl(b) > pw(b)) { uint64_t from = o > 5 * kl(b) ? e - 5 * kl(b) : e - o; for (uint64_t q = from; q <= e; q += kl(b)) if (q >= first) check_slot(w, q, b, ctx); } }
        check_live(w, b, first ? first : 0, last, ctx); }
    // 3. slots of all exponents are pairwise different inside a window and across buckets
    for (int segs = 1; segs <= 8; segs++) { if (!next()) continue; C.traces++; integer D = mkD(); FastAlgorithmCallback w(segs, D, enc(0), false); std::vector<uint8_t> used(w.forms_capacity, 0);
        for (int b = 0; b < segs; b++) for (uint64_t s = 0; s < (uint64_t)kWindowSize; s++) for (uint64_t o = 0; o < pw(b); o += kl(b)) { C.states++; C.transitions++; int64_t p = w.GetPosition(s * pw(b) + o, b); if (p < 0 || (uint64_t)p >= w.forms_capacity) viol("fast-slot-range", fmt("bucket %d exponent %llu", b, (unsigned long long)(s * pw(b) + o))); else if (used[p]++) viol("fast-slot-shared", fmt("%d sizes: bucket %d exponent %llu shares slot %lld", segs, b, (unsigned long long)(s * pw(b) + o), (long long)p)); } }
    // 4. the checkpoint table up to and beyond its documented limit
    for (int m = 0; m < 2; m++) for (int segs : std::initializer_list<int>{1, 8}) { if (!next()) continue; C.traces++; integer D = mkD(); FastAlgorithmCallback w(segs, D, enc(0), m); Feeder fd; bool ended = false;
        for (uint64_t i = 1; i <= (1 << 18) + 40 && !ended; i++) for (uint64_t e : {(i << 16) - 1, i << 16, (i << 16) + 1}) { try { fd(w, e); if (m && e % (1 << 15) == 0) { C.states++; if (!is(w.y_ret, e)) viol("fast-yret", fmt("y_ret at %llu", (unsigned long long)e)); } } catch (std::exception &x) { ended = true; C.extra["refused_beyond_limit"]++; if (e < kDocumented) viol("fast-limit", fmt("iteration %llu refused: ", (unsigned long long)e) + x.what()); break; } }
        uint64_t n = 1 << 18; for (uint64_t i = 0; i < n; i++) { C.states++; if (!is(w.checkpoints[i], i << 16)) { viol("fast-checkpoint", fmt("checkpoint %llu holds ", (unsigned long long)i) + val(w.checkpoints[i])); break; } } }
    // 5. with separate storage threads: y_ret every 2^15, nothing else touched
    if (next()) { C.traces++; integer D = mkD(); FastAlgorithmCallback w(3, D, enc(0), true); Feeder fd; std::vector<uint64_t> size0(w.forms_capacity); for (size_t i = 0; i < w.forms_capacity; i++) size0[i] = w.forms[i].a.impl->_mp_size; for (uint64_t e = 1; e < 12 << 16; e++) { fd(w, e); if (e >= 1 << 15 && !is(w.y_ret, e & ~0x7fffull)) { viol("fast-yret", fmt("y_ret after %llu holds ", (unsigned long long)e) + val(w.y_ret)); break; } } for (size_t i = 0; i < w.forms_capacity; i++) { C.states++; if ((uint64_t)w.forms[i].a.impl->_mp_size != size0[i]) { viol("fast-multi-slot", fmt("slot %zu written", i)); break; } } }
}
// -------------------------------------------------------------------------------------- one proof
struct OW : OneWesolowskiProver { using OneWesolowskiProver::OneWesolowskiProver; uint64_t step() { return (uint64_t)k * l; } };
static void one1(uint64_t T, bool all) {
    C.traces++; integer D = mkD(); form f0 = enc(0); OneWesolowskiCallback w(D, f0, T); Feeder fd; std::string ctx = fmt("%llu iterations", (unsigned long long)T); uint64_t step = w.kl; { std::atomic<bool> st(false); form y = enc(T); Segment sg(0, T, f0, y); OW p(sg, D, w.forms.get(), st); if (p.step() != step) viol("one-stride", ctx + fmt(": recorder stride %llu, prover stride %llu", (unsigned long long)step, (unsigned long long)p.step())); }
    if ((T + step - 1) / step > w.forms_capacity) viol("one-capacity", ctx);
    try { if (all) for (uint64_t e = 1; e <= T + 3 * step + 2; e++) fd(w, e); else { for (uint64_t e = step; e <= T + 3 * step; e += step) { fd(w, e - 1); fd(w, e); fd(w, e + 1); } for (uint64_t e = T > 40 ? T - 40 : 1; e < T + 40; e++) fd(w, e); } } catch (std::exception &x) { viol("one-throws", ctx + ": " + x.what()); return; }
    if (!is(w.result, T)) viol("one-result", ctx + ": result holds " + val(w.result)); for (uint64_t i = 0; i * step <= T; i++) { C.states++; if (!is(w.forms[i], i * step)) { viol("one-value", ctx + fmt(": value %llu (exponent %llu) holds ", (unsigned long long)i, (unsigned long long)(i * step)) + val(w.forms[i])); break; } }
}
static void one() {
    uint64_t N = C.thorough() ? 12000 : 3000; for (uint64_t T = 1; T <= N; T++) { if (!next()) continue; one1(T, true); }
    for (int e = 13; e <= (C.thorough() ? 29 : 25); e++) for (int d = -40; d <= 40; d++) { if (abs(d) > (e > 20 ? 1 : e > 17 ? 6 : 40)) continue; if (!next()) continue; C.nontrivial++; one1((1ull << e) + d, e <= 17 || d == 0 && e < 22); }
    for (uint64_t T : {9999990ull, 10000000ull, 10000009ull, 10066329ull, 12345678ull, 33333333ull, 100000001ull}) { if (!C.thorough() && T > 40000000) continue; if (!next()) continue; one1(T, false); }
    // the stride and capacity alone, up to large counts (the array is only reserved)
    for (int e = 30; e <= (C.thorough() ? 33 : 31); e++) { if (!next()) continue; C.traces++; integer D = mkD(); form f0 = enc(0); uint64_t T = 1ull << e; OneWesolowskiCallback w(D, f0, T); if ((T + w.kl - 1) / w.kl > w.forms_capacity) viol("one-capacity", fmt("2^%d", e)); C.states++; }
}
// -------------------------------------------------------------------------------------- two weso
static void look(TwoWesolowskiCallback &w, uint64_t e, uint64_t want, const std::string &ctx, const char *key) { C.states++; try { form f = w.GetFormCopy(e); if (!is(f, want)) viol(key, ctx + fmt(": exponent %llu gives ", (unsigned long long)e) + val(f)); } catch (std::exception &x) { viol("two-throws", ctx + fmt(": exponent %llu: ", (unsigned long long)e) + x.what()); } }
static void two_full(uint64_t S) {
    C.traces++; C.nontrivial++; integer D = mkD(); TwoWesolowskiCallback w(D, enc(0)); Feeder fd; std::string ctx = fmt("switch at %llu", (unsigned long long)S); uint64_t last = (uint64_t)kMaxItersAllowed - 500000 + 42768;
    try { for (uint64_t e = 10; e <= S; e += 10) { if (e % 1000 == 0) { fd(w, e - 1); fd(w, e); fd(w, e + 3); } else fd(w, e); }
        if (w.LargeConstants()) viol("two-early", ctx); w.IncreaseConstants(S); if (!w.LargeConstants()) viol("two-flag", ctx);
        for (uint64_t e = 0; e <= S; e += 10) if (e < 100000 || e + 100000 > S || e % 7 == 0) look(w, e, e, ctx, "two-value");
        for (uint64_t e = S + 100; e <= last; e += 100) { if (e % 10000 == 0) for (int d = 10; d < 100; d += 10) fd(w, e - d); fd(w, e); } } catch (std::exception &x) { viol("two-throws", ctx + ": " + x.what()); return; }
    for (uint64_t e = 0; e < S; e += 10) look(w, e, e, ctx, "two-value"); for (uint64_t e = S; e <= last; e += 100) look(w, e, e, ctx, "two-value");
}
static void two_small(uint64_t S) {
    C.traces++; integer D = mkD(); TwoWesolowskiCallback w(D, enc(0)); Feeder fd; std::string ctx = fmt("switch at %llu", (unsigned long long)S); uint64_t last = S + 5000;
    for (uint64_t e = 1; e <= S; e++) { fd(w, e); if (e % 10 == 0 && (e <= 300 || e == S)) for (uint64_t q = 0; q <= e; q += 10) look(w, q, q, ctx, "two-value"); } w.IncreaseConstants(S); for (uint64_t q = 0; q <= S; q += 10) look(w, q, q, ctx, "two-value");
    for (uint64_t e = S + 1; e <= last; e++) { fd(w, e); if (e % 100 == 0) { for (uint64_t q = 0; q < S; q += 10) look(w, q, q, ctx, "two-value"); for (uint64_t q = S; q <= e; q += 100) look(w, q, q, ctx, "two-value"); } }
    // capacity: the first exponent beyond the table is refused, on both paths
    uint64_t cap = w.forms_capacity, e = S + (cap - S / 10) * 100; try { fd(w, e); viol("two-over-record", ctx + fmt(": exponent %llu accepted", (unsigned long long)e)); } catch (std::exception &) { C.extra["refused_beyond_capacity"]++; } try { w.GetFormCopy(e); viol("two-over-lookup", ctx); } catch (std::exception &) { C.extra["refused_beyond_capacity"]++; }
    try { fd(w, e - 100); look(w, e - 100, e - 100, ctx, "two-value"); } catch (std::exception &x) { viol("two-throws", ctx + ": last slot: " + x.what()); }
}
static void two() {
    std::vector<uint64_t> full{(uint64_t)kSwitchIters, (uint64_t)kSwitchIters + 42800}; if (C.thorough()) for (int d : std::initializer_list<int>{100, 8000, 24600, 32768 / 100 * 100, 42700}) full.push_back((uint64_t)kSwitchIters + d); for (auto S : full) { if (!next()) continue; two_full(S); }
    for (uint64_t S : {100, 200, 300, 1000, 1100, 2500}) { if (!C.thorough() && S > 300 && S != 1100) continue; if (!next()) continue; two_small(S); }
    if (next()) { C.traces++; integer D = mkD(); TwoWesolowskiCallback w(D, enc(0)); Feeder fd; uint64_t e = w.forms_capacity * 10; try { fd(w, e); viol("two-over-record", "without a switch"); } catch (std::exception &) { C.extra["refused_beyond_capacity"]++; } try { fd(w, e - 10); look(w, e - 10, e - 10, "no switch", "two-value"); } catch (std::exception &x) { viol("two-throws", x.what()); } for (uint64_t q : std::initializer_list<uint64_t>{e, e + 10, 1ull << 40, ~0ull}) try { w.GetFormCopy(q); viol("two-over-lookup", fmt("%llu", (unsigned long long)q)); } catch (std::exception &) { C.extra["refused_beyond_capacity"]++; } }
}
int main(int argc, char **argv) { init(argc, argv); std::cout.setstate(std::ios::failbit); if (C.mode == "fast") fast(); else if (C.mode == "one") one(); else if (C.mode == "two") two(); else return 3; return finish(); }
