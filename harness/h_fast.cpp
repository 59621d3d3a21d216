// C03: the accelerated squaring loop against repeated mathematical squaring, with every outcome of its batches.
#include "include.h"
#include <x86intrin.h>
#include "parameters.h"
static int g_interval = 10000;
#define checkpoint_interval g_interval
#include "bit_manipulation.h"
#include "double_utility.h"
#define inject_error inject_error_unused
#include "integer.h"
#undef inject_error
#include "vh.h"
#include "ref.h"
#include <thread>
#include <atomic>
static struct { bool on = false; long nth = -1; int bit = 0; int who = 0; } g_flt; static std::atomic<bool> g_fired{false}; static thread_local long g_site = 0;
static int whoami();
template <class T> static void inject_error(T &x) { if (!g_flt.on || (g_flt.who && whoami() != g_flt.who)) return; if (g_site++ == g_flt.nth) { size_t n = mpz_sizeinbase((mpz_srcptr)x, 2); if ((size_t)g_flt.bit < n) { g_fired = true; mpz_combit(x, g_flt.bit); } } }
#include "alloc.hpp"
#include "asm_main.h"
#include "vdf_new.h"
#include "picosha2.h"
#include "nucomp.h"
#include "nudupl_listener.h"
#include "gcd_base_continued_fractions.h"
#include "gcd_128.h"
#include "asm_types.h"
#include "threading.h"
#include "avx512_integer.h"
#include "vdf_fast.h"
static int whoami() { return c_thread_state.is_slave ? 2 : 1; }
int gcd_base_bits = 50; int gcd_128_max_iter = 3;
static uint64 fast_dispatch(square_state_type &st, form &f, const integer &D, const integer &L, uint64 base, uint64 n, INUDUPLListener *l);
#define repeated_square_fast fast_dispatch
#include "vdf.h"
#undef repeated_square_fast
using namespace vh; using ref::F; using ref::Z;
static Z toZ(const integer &x) { return Z(x.impl); }
static integer toI(const Z &z) { integer r; mpz_set(r.impl, z.get_mpz_t()); return r; }
static form mkform(const F &f) { form r; r.a = toI(f.a); r.b = toI(f.b); r.c = toI(f.c); return r; }
static F toF(const form &f) { return F{toZ(f.a), toZ(f.b), toZ(f.c)}; }
static Z big_p(int bits, int k) {
    Z lo = Z(1) << (bits - 1), x; if (k == 0) x = lo; else if (k == 1) { x = (Z(1) << bits) - 1; while (!(x % 8 == 7 && ref::is_prime(x))) x -= 1; return x; } else { gmp_randclass r(gmp_randinit_mt); r.seed(1000003ul * bits + k); x = lo + r.get_z_bits(bits - 1); }
    while (!(x % 8 == 7 && ref::is_prime(x))) x += 1; return x; }
// ---------------------------------------------------------------- what happened: reports and batch results, in order
struct Ev { int k; uint64_t a, b; bool ok; };   // k 0: report of iteration a; 1: batch at a returned b
static std::vector<Ev> ev; static const std::vector<F> *E; static Z gD; static std::string first_bad;
struct Rec : WesolowskiCallback {
    form t; Rec(integer &D) : WesolowskiCallback(D) {}
    void OnIteration(int type, void *data, uint64_t it) override {
        SetForm(type, data, &t); bool ok = it + 1 < E->size() && toF(t) == (*E)[it + 1]; if (!ok && first_bad.empty()) first_bad = fmt("report of iteration %llu", (unsigned long long)it + 1);
        ev.push_back({0, it, 0, ok});
    }
};
// ---------------------------------------------------------------- the batch function: the real ones, or a scripted one
static int g_impl = 0; struct Step { bool corrupt; int n; }; static std::vector<Step> script; static size_t spos; static int nfast, nslow;
static uint64 fast_dispatch(square_state_type &st, form &f, const integer &D, const integer &L, uint64 base, uint64 n, INUDUPLListener *l) {
    uint64 r; F before = toF(f); g_site = 0;
    if (g_impl == 0) r = repeated_square_fast(st, f, D, L, base, n, l);
    else if (g_impl == 1) r = repeated_square_fast_single_thread(st, f, D, L, base, n, l);
    else {
        Step s = spos < script.size() ? script[spos++] : Step{false, 1 << 30}; uint64 m = std::min<uint64>(s.n, n); vdf_original::form v; form t;
        for (uint64 i = 0; i < m; i++) { F w = s.corrupt && i >= m / 2 ? ref::identity(gD) : (*E)[base + i + 1]; t = mkform(w); v.a[0] = t.a.impl[0]; v.b[0] = t.b.impl[0]; v.c[0] = t.c.impl[0]; l->OnIteration(NL_FORM, &v, base + i); }
        if (s.corrupt) r = ~uint64(0); else { F w = (*E)[base + m]; if (m) { w.b += 2 * w.a * 3; w.c = (w.b * w.b - gD) / (4 * w.a); f = mkform(w); } r = m; }
    }
    if (r == ~uint64(0) && !(toF(f) == before)) first_bad = "the form changed although corruption was reported";
    if (r != ~uint64(0)) { F g = toF(f); if (!ref::valid(g, gD)) first_bad = "batch left no form of the discriminant"; else { ref::reduce(g, gD); if (base + r < E->size() && !(g == (*E)[base + r])) first_bad = fmt("form after the batch at %llu (%llu iterations) is wrong", (unsigned long long)base, (unsigned long long)r); } nfast += r; if (r < n) nslow++; }
    ev.push_back({1, base, r, true}); return r;
}
static std::string judge(uint64_t iters, int64_t done) {
    uint64_t nextit = 0, base = 0; size_t i = 0; bool inbatch = true; std::vector<size_t> cur;
    // split the event list at batch results: the reports before a result belong to the fast batch, those after it to the slow continuation
    while (i < ev.size()) {
        uint64_t b0 = nextit, p = b0; bool bad = false; for (; i < ev.size() && ev[i].k == 0; i++) { if (ev[i].a != p) return fmt("iteration %llu reported where %llu was due", (unsigned long long)ev[i].a + 1, (unsigned long long)p + 1); if (!ev[i].ok) bad = true; p++; }
        if (i == ev.size()) break;
        if (ev[i].a != b0) return fmt("a batch starts at %llu, expected %llu", (unsigned long long)ev[i].a, (unsigned long long)b0); uint64_t r = ev[i].b; i++;
        uint64_t slow;
        if (r == ~0ull) { p = b0; slow = g_interval; } else { if (bad) return "a wrong value was reported (" + first_bad + ")"; if (p != b0 + r) return fmt("a batch reported %llu iterations and returned %llu", (unsigned long long)(p - b0), (unsigned long long)r); slow = r < (uint64_t)g_interval ? 1 : 0; }
        uint64_t e = p + slow; for (; p < e; p++, i++) { if (i >= ev.size() || ev[i].k) return fmt("iteration %llu is never reported", (unsigned long long)p + 1); if (ev[i].a != p) return fmt("iteration %llu reported where %llu was due after a shortened batch", (unsigned long long)ev[i].a + 1, (unsigned long long)p + 1); if (!ev[i].ok) return fmt("the recomputed value of iteration %llu is wrong", (unsigned long long)p + 1); }
        nextit = p;
    }
    if (done != (int64_t)nextit) return fmt("the loop announces %lld iterations, %llu were reported", (long long)done, (unsigned long long)nextit); if (nextit <= iters) return fmt("stopped at %llu of %llu", (unsigned long long)nextit, (unsigned long long)iters); return "";
}
static std::vector<F> powers(const F &x, const Z &D, size_t n) { std::vector<F> e; F g = x; ref::reduce(g, D); e.push_back(g); for (size_t i = 0; i < n; i++) e.push_back(ref::square(e.back(), D)); return e; }
static std::string run(const Z &D, const F &x, uint64_t iters, const std::vector<F> &e) {
    ev.clear(); E = &e; gD = D; first_bad = ""; spos = 0; g_fired = false; integer Di = toI(D), L = root(-Di, 4); Rec w(Di); std::atomic<bool> stopped(false); fast_algorithm = false; two_weso = false;
    std::cout.setstate(std::ios::failbit); repeated_square(iters, mkform(x), Di, L, &w, nullptr, stopped); std::cout.clear();
    C.transitions += ev.size(); C.states += ev.size(); C.traces++; C.nontrivial++;
    if (!first_bad.empty() && first_bad.compare(0, 6, "report")) return first_bad; return judge(iters, w.iterations);
}
// ---------------------------------------------------------------- AVX-512 products
template <int EA, int PA, int EB, int PB, int EO, int PO> static void prod(const char *nm) {
    auto pats = [](int lim) { std::vector<Z> v; v.push_back(0); v.push_back(1); for (int n = 1; n <= lim * 64; n++) { if (!(C.thorough() || n % 52 <= 2 || n % 52 >= 50 || n % 64 <= 1 || n % 64 == 63 || n < 8)) continue; Z h = Z(1) << (n - 1); v.push_back(2 * h - 1); v.push_back(h); if (n > 3) v.push_back(h + 1); Z alt = 0; for (int i = 0; i < n; i += 52) alt += (Z(1) << std::min(i + 51, n - 1)); v.push_back(alt); } return v; };
    // all pairs are too many: every a against b of a spread of lengths, and the reverse
    auto va = pats(EA), vb = pats(EB); static mpz<EA, PA> A; static mpz<EB, PB> B; static mpz<EO, PO> O; integer ref_;
    for (size_t i = 0; i < va.size(); i++) { if (!next()) continue; for (size_t j = 0; j < vb.size(); j += (C.thorough() ? 1 : 1 + (i * 7 + j) % 5)) { if (mpz_sizeinbase(va[i].get_mpz_t(), 2) + mpz_sizeinbase(vb[j].get_mpz_t(), 2) > EO * 64) continue; for (int s = 0; s < 4; s++) {
        Z a = s & 1 ? Z(-va[i]) : va[i], b = s & 2 ? Z(-vb[j]) : vb[j]; mpz_set(A, a.get_mpz_t()); mpz_set(B, b.get_mpz_t()); mpz_set_si(O, 12345); O.set_mul(A, B); Z o((mpz_srcptr)O._()); C.transitions++; C.states++;
        if (o != a * b || A._()->_mp_size != a.get_mpz_t()->_mp_size || (o != 0 && O._()->_mp_d[std::abs(O._()->_mp_size) - 1] == 0)) viol(std::string("avx512-") + nm, fmt("%s: %s * %s gives %s", nm, a.get_str(16).c_str(), b.get_str(16).c_str(), o.get_str(16).c_str()));
    } } C.nontrivial++; C.traces++; }
}
int main(int argc, char **argv) {
    init_gmp(); set_rounding_mode(); init(argc, argv); (void)hasAVX2(); bool h2 = bAVX2.load(); bool h5 = __builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512ifma"); enable_avx512_ifma = false; bool q = C.thorough();
    struct Isa { const char *n; bool a2, a5; }; std::vector<Isa> isa{{"plain", false, false}}; if (h2) isa.push_back({"AVX2", true, false}); if (h5) isa.push_back({"AVX-512", h2, true}); auto use = [&](const Isa &i) { bAVX2 = i.a2; enable_avx512_ifma = i.a5; };
    if (C.mode == "avx512") {
        if (!h5) { outcome("no AVX-512 IFMA on this machine"); if (next()) C.nontrivial++; return finish(); }
        enable_avx512_ifma = true;
        prod<17, 24, 17, 24, 33, 40>("17x17"); prod<33, 40, 33, 40, 33, 40>("33x33"); prod<33, 40, 9, 16, 25, 32>("33x9"); prod<17, 24, 17, 24, 25, 32>("17x17to25"); prod<9, 16, 17, 24, 17, 24>("9x17"); prod<17, 24, 17, 24, 17, 24>("17x17to17"); prod<17, 24, 9, 16, 17, 24>("17x9"); prod<9, 16, 17, 24, 25, 32>("9x17to25");
    } else if (C.mode == "traj") {
        // full-size batches
        for (auto &is : isa) for (int bits : {1024, 1000, 512, 256, 130, 40}) for (int k = 0; k < (q ? 6 : bits >= 1000 ? 2 : 1); k++) for (int impl = 0; impl < 2; impl++) { if (!q && impl && bits == 1000) continue; if (!next()) continue;
            Z D = -big_p(bits, k); F x = k == 2 ? ref::pow(ref::mk(2, 1, D), Z(987654321), D) : ref::mk(2, 1, D); uint64_t n = q ? 20001 : 10001; auto e = powers(x, D, n + 10000); use(is); g_impl = impl; g_interval = 10000; nfast = nslow = 0; std::string s = run(D, x, n, e);
            outcome(fmt("%s, %d bits: %s", is.n, bits, nfast == 0 ? "all slow" : nslow ? "mixed" : "all fast")); if (!s.empty()) viol("trajectory", fmt("%s, %d bits, discriminant %d, %s: %s", is.n, bits, k, impl ? "one thread" : "two threads", s.c_str())); }
    } else if (C.mode == "sizes") {
        // every discriminant size around the limits between the fast and the slow path, many start forms, short batches
        for (auto &is : isa) for (int bits = 16; bits <= 1056; bits++) { bool edge = bits < 32 || bits % 64 < 4 || bits % 64 > 60 || (bits > 118 && bits < 142) || bits % 16 == 0; if (!q && !edge) continue; if (!next()) continue; use(is);
            for (int k = 0; k < 3; k++) { Z D = -big_p(bits, k); std::vector<F> xs{ref::mk(2, 1, D), ref::identity(D)}; xs.push_back(ref::sqn(xs[0], bits, D)); xs.push_back(ref::inverse(xs[2], D)); { F u = xs[2]; u.b += 2 * u.a; u.c = (u.b * u.b - D) / (4 * u.a); xs.push_back(u); }
                for (size_t xi = 0; xi < xs.size(); xi++) { auto e = powers(xs[xi], D, 80); g_impl = xi & 1; g_interval = 13; nfast = nslow = 0; std::string s = run(D, xs[xi], 40, e); outcome(nfast == 0 ? "all slow" : nslow ? "mixed" : "all fast"); if (!s.empty()) viol("sizes", fmt("%s, %d bits, discriminant %d, start form %zu: %s", is.n, bits, k, xi, s.c_str())); } } }
    } else if (C.mode == "small") {
        // every reduced form of every small discriminant
        for (uint64_t p = 7; p <= (q ? 20000 : 4000); p += 8) { if (!ref::is_prime(Z((unsigned long)p))) continue; if (!next()) continue; Z D = -Z((unsigned long)p); use(isa.back()); g_interval = 3; g_impl = 1; for (auto &x : ref::all_reduced(D)) { auto e = powers(x, D, 12); std::string s = run(D, x, 4, e); if (!s.empty()) viol("small", fmt("D=-%llu form %s: %s", (unsigned long long)p, ref::str(x).c_str(), s.c_str())); } }
    } else if (C.mode == "script") {
        Z D = -big_p(40, 2); F x = ref::mk(2, 1, D); auto e = powers(x, D, 200); g_impl = 2; int depth = q ? 5 : 4;
        for (int iv : {1, 2, 5}) { g_interval = iv; std::vector<Step> al; for (int n = 0; n <= iv; n++) al.push_back({false, n}); for (int n = 0; n <= iv; n++) al.push_back({true, n}); size_t tot = 1; for (int i = 0; i < depth; i++) tot *= al.size();
            for (size_t c0 = 0; c0 < tot; c0 += 256) { if (!next()) continue; for (size_t c = c0; c < std::min(tot, c0 + 256); c++) { script.clear(); size_t t = c; for (int i = 0; i < depth; i++) { script.push_back(al[t % al.size()]); t /= al.size(); } for (uint64_t it : {1, 3, 11}) { std::string s = run(D, x, it, e); if (!s.empty()) viol("script", fmt("batch size %d, outcomes number %zu, %llu iterations: %s", iv, c, (unsigned long long)it, s.c_str())); } } } }
    } else if (C.mode == "fault") {
        // one bit flipped in any intermediate the pipeline exposes to its error injection
        struct Cfg { int bits, impl, who; long sites; int step; }; std::vector<Cfg> cf{{256, 1, 0, 22, 1}, {512, 1, 0, 14, q ? 1 : 3}, {1024, 1, 0, 14, q ? 1 : 5}, {256, 0, 1, 14, q ? 3 : 17}, {256, 0, 2, 14, q ? 3 : 17}};
        for (auto &is : isa) for (auto &c : cf) { Z D = -big_p(c.bits, 1); F x = ref::sqn(ref::mk(2, 1, D), c.bits + 3, D); auto e = powers(x, D, 20); g_interval = 3; g_impl = c.impl; use(is);
            for (long n = 0; n < c.sites; n++) { if (!next()) continue; int nb = 0; for (int bit = 0; bit < c.bits + 70; bit += c.step) { g_flt.on = true; g_flt.nth = n; g_flt.bit = bit; g_flt.who = c.who; std::string s = run(D, x, 4, e); g_flt.on = false; bool fired = g_fired; nb += fired; if (!s.empty()) viol(fmt("fault-%d", c.impl), fmt("%s, %d bits, injection %ld flips bit %d: %s", is.n, c.bits, n, bit, s.c_str())); bool cor = false; for (auto &v : ev) if (v.k == 1 && v.b == ~0ull) cor = true; outcome(!fired ? "no such bit" : cor ? "corruption detected" : "harmless or ended early"); } C.extra["bits_flipped"] += nb; } }
    } else { fprintf(stderr, "mode?\n"); return 2; }
    return finish();
}
