// C16: the two-thread squaring pipeline under every (bounded) interleaving of its counter protocol, with faults.
#include "../sched/vsched.h"
#include "vh.h"
#include "include.h"
#include <x86intrin.h>
#include "parameters.h"
#include "bit_manipulation.h"
#include "double_utility.h"
#define inject_error inject_error_unused
#include "integer.h"
#undef inject_error
#include "alloc.hpp"
#include "asm_main.h"
#include "vdf_new.h"
#include "picosha2.h"
#include "nucomp.h"
#include "nudupl_listener.h"
#include "vdf_original.h"
#include "gcd_base_continued_fractions.h"
#include "gcd_128.h"
#include "asm_types.h"
#include <thread>
#include <signal.h>
#include <ucontext.h>
#include "ref.h"
int gcd_base_bits = 50; int gcd_128_max_iter = 3;
using namespace vh; using ref::F; using ref::Z;
// ---------------------------------------------------------------- faults, numbered in the order of occurrence per thread
namespace sim {
struct Fault { int kind = 0; long nth = -1; int arg = 0; bool slave = false; };   // kind 1: gcd fails after publishing arg entries; 2: flip bit arg at an injection site; 3: a spinning thread gives up
static Fault flt; static std::atomic<bool> fired{false}; static thread_local long ncall[4]; static thread_local long nwork = 0;
static bool me_slave();
__attribute__((no_sanitize_thread)) static bool hit(int kind) { sched::Quiet q; if (flt.kind != kind || me_slave() != flt.slave) return false; if (ncall[kind]++ == flt.nth) { fired = true; return true; } return false; }
static uint64_t spin() { return hit(3) ? 0 : 10000000; }
// the assembler kernel computes into private memory; its entries are then published one by one, as the kernel itself does
// (mode "step" checks on the kernel, instruction by instruction, that it publishes in this order)
__attribute__((no_sanitize_thread)) static int call(int (*f)(asm_code::asm_func_gcd_unsigned_data *), asm_code::asm_func_gcd_unsigned_data *d, uint64_t *pv, uint64_t &cnt) {
    auto d2 = *d; d2.out_uv_addr = pv + 8; d2.out_uv_counter_addr = &cnt; cnt = ~0ull; int r = f(&d2); d->iter = d2.iter; return r; }
static int gcd(int (*f)(asm_code::asm_func_gcd_unsigned_data *), asm_code::asm_func_gcd_unsigned_data *d) {
    alignas(64) uint64_t pv[8 * (gcd_max_iterations + 3)]; uint64_t cnt; int r; { sched::Quiet q; sched::progress(); r = call(f, d, pv, cnt); }
    int64_t last = cnt == ~0ull ? -2 : (int64_t)(cnt - d->uv_counter_start);
    bool bad = hit(1); if (bad) { last = std::min<int64_t>(last, flt.arg - 2); r = 1; }
    for (int64_t i = -1; i <= last; i++) {
        for (int k = 0; k < 6; k++) d->out_uv_addr[8 * i + k] = pv[8 * (i + 1) + k];
        for (uint64_t *p : {d->a, d->b, d->a_2, d->b_2}) p[0] = p[0] + 0;
        reinterpret_cast<std::atomic<uint64_t> *>(d->out_uv_counter_addr)->store(d->uv_counter_start + i, std::memory_order_release);
    }
    return r;
}
}
namespace asm_code { static int sim_avx2(asm_func_gcd_unsigned_data *d) { return sim::gcd(asm_avx2_func_gcd_unsigned, d); } static int sim_cel(asm_func_gcd_unsigned_data *d) { return sim::gcd(asm_cel_func_gcd_unsigned, d); } }
static int g_flip = 0;
template <class T> static void inject_error(T &x) { if (sim::hit(2)) { sched::Quiet q; mpz_combit(x, g_flip); } }
#define asm_avx2_func_gcd_unsigned sim_avx2
#define asm_cel_func_gcd_unsigned sim_cel
#define max_spin_counter sim::spin()
#include "threading.h"
#undef max_spin_counter
#undef asm_avx2_func_gcd_unsigned
#undef asm_cel_func_gcd_unsigned
#include "avx512_integer.h"
#include "vdf_fast.h"
static bool sim::me_slave() { return c_thread_state.is_slave; }
static Z toZ(const integer &x) { return Z(x.impl); }
static integer toI(const Z &z) { integer r; mpz_set(r.impl, z.get_mpz_t()); return r; }
static form mkform(const F &f) { form r; r.a = toI(f.a); r.b = toI(f.b); r.c = toI(f.c); return r; }
static Z big_p(int bits, int k) { Z lo = Z(1) << (bits - 1), x; gmp_randclass r(gmp_randinit_mt); r.seed(1000003ul * bits + k); x = lo + r.get_z_bits(bits - 1); while (!(x % 8 == 7 && ref::is_prime(x))) x += 1; return x; }
struct Lis : INUDUPLListener {   // like the recorders: takes the form out of the pipeline's state
    std::vector<std::pair<uint64_t, F>> got; form t; Z D;
    void OnIteration(int type, void *data, uint64 iteration) override {
        square_state_type *st = (square_state_type *)data; uint64 n; bool ok = type == NL_SQUARESTATE && st->assign(t.a, t.b, t.c, n);
        sched::Quiet q; if (!ok) { got.push_back({iteration, F{0, 0, 0}}); return; }
        F f{toZ(t.a), toZ(t.b), toZ(t.c)}; if (f.a > 0) ref::reduce(f, D); got.push_back({iteration, f});
    }
};
struct Sc { std::string name; Z D; F x; int iters; int bound; sim::Fault f; int flip = 0; bool avx = true; bool forms = true; };
// what the pipeline must have done, judged from its result, its report and the form it left
static std::string judge(const Sc &s, uint64 res, const form &f, const Lis &l, const std::vector<F> &e, bool fired, std::string &oc) {
    F g{toZ(f.a), toZ(f.b), toZ(f.c)};
    if (res == ~uint64(0)) { if (!s.f.kind || !fired) return "corruption reported without a fault"; if (!(g == s.x)) return "corruption reported but the form changed"; oc = "corruption"; return ""; }
    if (res > (uint64)s.iters) return fmt("claims %llu of %d iterations", (unsigned long long)res, s.iters);
    if (!s.f.kind || !fired) { if (s.forms && res != (uint64)s.iters) return fmt("stopped after %llu of %d iterations without a fault", (unsigned long long)res, s.iters); }
    if (!ref::valid(g, -s.D)) return "result is not a form of the discriminant"; ref::reduce(g, -s.D); if (!(g == e[res])) return fmt("claims %llu iterations but the form is not that power", (unsigned long long)res);
    if (l.got.size() != res) return fmt("%zu iterations reported, %llu claimed", l.got.size(), (unsigned long long)res);
    for (size_t i = 0; i < l.got.size(); i++) { if (l.got[i].first != 1000 + i) return fmt("report %zu carries number %llu", i, (unsigned long long)l.got[i].first); bool last = i + 1 == l.got.size(); if (!(l.got[i].second == e[i + 1]) ) return fmt("reported form of iteration %zu is wrong%s", i + 1, last ? " (last)" : ""); }
    oc = fmt("%llu of %d%s", (unsigned long long)res, s.iters, fired ? " after a fault" : ""); return "";
}
// ---------------------------------------------------------------- single-stepping the kernel
static volatile uint64_t *st_cnt; static uint64_t *st_ent; static uint64_t st_base, st_prev; static int st_max; static uint64_t st_snap[64][6]; static long st_steps; static volatile int st_bad; static int st_seen;
static void onstep(int, siginfo_t *, void *) {
    st_steps++; uint64_t c = *st_cnt; if (c == st_prev) { for (int i = 0; i < st_seen; i++) for (int k = 0; k < 6; k++) if (st_ent[8 * i + k] != st_snap[i][k]) st_bad = 2; return; }
    if (c != (st_prev == ~0ull ? st_base - 1 : st_prev + 1)) st_bad = 1; st_prev = c; int n = (int)(c - st_base) + 2; if (n < 0 || n > st_max) { st_bad = 3; return; } while (st_seen < n) { memcpy(st_snap[st_seen], st_ent + 8 * st_seen, 48); st_seen++; }
}
__attribute__((noinline)) static int stepped(int (*f)(asm_code::asm_func_gcd_unsigned_data *), asm_code::asm_func_gcd_unsigned_data *d) {
    int r; __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc"); r = f(d); __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc"); return r; }
int main(int argc, char **argv) {
    init_gmp(); set_rounding_mode(); init(argc, argv); (void)hasAVX2(); bool have_avx2 = bAVX2.load(); enable_avx512_ifma = false; int q = C.thorough() ? 1 : 0;
    if (C.mode == "step") {
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onstep; static char alt[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr); sa.sa_flags = SA_SIGINFO | SA_RESTART | SA_ONSTACK; sigaction(SIGTRAP, &sa, nullptr);
        for (int avx = 0; avx <= (have_avx2 ? 1 : 0); avx++) for (int bits : {128, 256, 512, 1000, 1024, 1200}) for (int half = 0; half < 2; half++) for (int k = 0; k < (q ? 40 : 6); k++) {
            if (!next()) continue; gmp_randclass r(gmp_randinit_mt); r.seed(bits * 100 + k); Z a = r.get_z_bits(bits - 1) + (Z(1) << (bits - 1)), b = k == 0 ? Z(1) : k == 1 ? Z(a - 1) : k == 2 ? Z(a >> 1) : k == 3 ? Z(a >> (bits / 2)) : k == 4 ? Z(0) : r.get_z_bits(bits - k % 5), th = half ? Z(1) << (bits / 2) : Z(0); if (b > a) std::swap(a, b);
            alignas(64) uint64_t A[4][gcd_size + 4] = {}, T[gcd_size + 4] = {}; alignas(64) uint64_t ent[8 * (gcd_max_iterations + 2)]; memset(ent, 0x5a, sizeof ent); alignas(64) uint64_t cnt = ~0ull;
            auto put = [](uint64_t *p, const Z &z) { size_t n = 0; mpz_export(p, &n, -1, 8, 0, 0, z.get_mpz_t()); }; put(A[0], a); put(A[1], b); put(T, th);
            asm_code::asm_func_gcd_unsigned_data d; d.a = (uint64 *)A[0]; d.b = (uint64 *)A[1]; d.a_2 = (uint64 *)A[2]; d.b_2 = (uint64 *)A[3]; d.threshold = (uint64 *)T; d.uv_counter_start = 77; d.out_uv_counter_addr = (uint64_t *)&cnt; d.out_uv_addr = (uint64 *)(ent + 8); d.iter = -1; d.a_end_index = (bits - 1) / 64;
            st_cnt = &cnt; st_ent = ent; st_base = 77; st_prev = ~0ull; st_max = gcd_max_iterations + 1; st_steps = 0; st_bad = 0; st_seen = 0;
            int rc = stepped(avx ? asm_code::asm_avx2_func_gcd_unsigned : asm_code::asm_cel_func_gcd_unsigned, &d);
            const char *w[] = {"", "the counter skips a value", "an entry changes after it was published", "the counter leaves its range"};
            if (st_bad) viol(fmt("kernel-publish-%d", (int)st_bad), fmt("%s kernel, %d-bit operands, case %d, %s: %s", avx ? "AVX2" : "plain", bits, k, half ? "half" : "full", w[st_bad]));
            else if (rc == 0 && st_seen != d.iter + 1 - 0) { if (st_seen != (int)d.iter) viol("kernel-count", fmt("%s kernel, %d-bit operands, case %d: %d entries published, %lld iterations returned", avx ? "AVX2" : "plain", bits, k, st_seen, (long long)d.iter)); }
            for (int i = st_seen; i <= gcd_max_iterations + 1; i++) if (ent[8 * i + 5] != 0x5a5a5a5a5a5a5a5aull) { viol("kernel-unpublished", "an entry was written but never published"); break; }
            C.states += st_steps; C.transitions += st_steps; C.traces++; C.nontrivial++; outcome(rc ? "kernel error" : "kernel ok");
        }
        return finish();
    }
    std::vector<Sc> sc;
    auto add = [&](std::string nm, int bits, int iters, int bound, sim::Fault f = sim::Fault(), int flip = 0, bool avx = true) {
        Z D = big_p(bits, 1); F x = ref::mk(2, 1, -D); x = ref::sqn(x, bits + 3, -D); Sc s; s.name = fmt("%s, %d bits", nm.c_str(), bits); s.D = D; s.x = x; s.iters = iters; s.bound = bound; s.f = f; s.flip = flip; s.avx = avx && have_avx2; sc.push_back(s); };
    if (C.mode == "clean") {
        add("two squarings", 256, 2, 2 + q); add("one squaring", 256, 1, 3 + q); add("one squaring", 512, 1, 2 + q); add("three squarings", 512, 3, 1 + q); add("one squaring", 1024, 1, 2 + q); add("one squaring, plain kernel", 1024, 1, 1 + q, sim::Fault(), 0, false);
        { Sc s; s.D = big_p(256, 1); s.x = ref::mk(2, 1, -s.D); s.iters = 2; s.bound = 2; s.name = "start form too small for the pipeline"; s.forms = false; sc.push_back(s); s.x = ref::identity(-s.D); s.name = "identity"; sc.push_back(s);
          s.D = big_p(1024, 1); F x = ref::sqn(ref::mk(2, 1, -s.D), 1030, -s.D); x.b += 2 * x.a * (Z(1) << 560); x.c = (x.b * x.b + s.D) / (4 * x.a); s.x = x; s.name = "start form wider than allowed"; sc.push_back(s); }
    } else if (C.mode == "fault") {
        int it = q ? 3 : 2;
        for (int sl = 0; sl < 2; sl++) {
            for (int n = 0; n < it; n++) for (int pub : {0, 1, 2, 100}) { sim::Fault f{1, n, pub, sl == 1}; add(fmt("%s gcd %d fails after %d entries", sl ? "slave" : "master", n, pub), 256, it, 1, f); }
            for (int n = 0; n < it * 6; n++) for (int bit : {0, 40}) { if (sl && n >= it * 5) break; sim::Fault f{2, n, 0, sl == 1}; add(fmt("%s injection %d flips bit %d", sl ? "slave" : "master", n, bit), 256, it, q, f, bit); }
            for (int n = 0; n < (q ? 60 : 40); n += 1) { sim::Fault f{3, n, 0, sl == 1}; add(fmt("%s gives up at spin %d", sl ? "slave" : "master", n), 256, it, 1, f); }
        }
    } else { fprintf(stderr, "mode?\n"); return 2; }
    for (auto &s : sc) {
        std::vector<F> e{s.x}; ref::reduce(e[0], -s.D); for (int i = 0; i < s.iters; i++) e.push_back(ref::square(e.back(), -s.D));
        integer D = toI(-s.D), L = root(toI(s.D), 4); sched::Opt o; o.bound = s.bound; o.hot = 1 << 20; o.max_steps = 2000000; auto *st = new square_state_type; st->pairindex = 3;
        auto body = [&] {
            uint64 res; form f; Lis l; { sched::Quiet qq; sim::flt = s.f; sim::fired = false; for (auto &x : sim::ncall) x = 0; g_flip = s.flip; bAVX2 = s.avx; f = mkform(s.x); l.D = -s.D; mpz_init2(l.t.a.impl, 2048); }
            res = repeated_square_fast_multithread(*st, f, D, L, 1000, s.iters, &l);
            std::string oc, er; { sched::Quiet qq; er = judge(s, res, f, l, e, sim::fired, oc); } if (!er.empty()) sched::fail("pipeline", er);
            { sched::Quiet qq; sched::outcome((s.f.kind == 0 ? s.name : fmt("fault kind %d", s.f.kind)) + ": " + oc); }
        };
        sched::explore(s.name, o, body); delete st; if (C.elapsed() > C.budget) { C.capped = true; break; }
    }
    return finish();
}
