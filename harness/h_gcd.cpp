// C22: every GCD kernel returns a valid cofactor reduction.
#include "vdf.h"
#include "vh.h"
#include <gmpxx.h>
int gcd_base_bits = 50; int gcd_128_max_iter = 3;
using namespace vh; typedef mpz_class Z;
static Z z64(uint64_t v) { Z r; mpz_import(r.get_mpz_t(), 1, 1, 8, 0, 0, &v); return r; }
static Z z128(uint64_t lo, uint64_t hi) { return (z64(hi) << 64) + z64(lo); }
static uint64_t lo64(const Z &v) { Z m = v & z64(~0ull); uint64_t r = 0; if (m != 0) mpz_export(&r, 0, 1, 8, 0, 0, m.get_mpz_t()); return r; }
// ---- operand families: a/b with a prescribed quotient sequence
struct Pair { Z a, b; std::string what; };
// periodic quotient word, innermost remainder g, until a has at least `bits` bits; `head` is the first (outermost) quotient if nonzero
static Pair word(const std::vector<Z> &w, const Z &g, int bits, const Z &head, int phase) {
    Z x = g, y = 0; size_t i = phase; // y < x
    while ((int)mpz_sizeinbase(x.get_mpz_t(), 2) < bits) { Z n = w[i % w.size()] * x + y; y = x; x = n; i++; }
    if (head != 0) { Z n = head * x + y; y = x; x = n; }
    Pair p{x, y, ""}; for (auto &q : w) p.what += q.get_str() + ","; p.what += fmt(" bits=%d g=", bits) + g.get_str() + " head=" + head.get_str(); return p;
}
static std::vector<Z> alphabet(bool big) {
    std::vector<Z> r = {1, 2, 3, 4, 5, 7, 8, 15, 16, 100, 255, 256};
    if (big) { for (int e : {15, 16, 31, 32, 33, 49, 50, 51, 52, 53, 62, 63, 64, 65, 70, 127, 128, 200}) for (int d = -1; d <= 1; d++) r.push_back((Z(1) << e) + d); }
    return r;
}
static void words(const std::function<void(const std::vector<Z> &)> &f, bool deep) {
    auto A = alphabet(true), S = alphabet(false);
    for (auto &x : A) f({x});
    for (auto &x : S) for (auto &y : A) { f({x, y}); }
    for (auto &x : A) if (x > 256) for (int n : {2, 3, 5, 9}) { std::vector<Z> w(n, Z(1)); w.push_back(x); f(w); w.assign(n, Z(2)); w.push_back(x); f(w); }
    for (int x = 1; x <= (deep ? 9 : 5); x++) for (int y = 1; y <= (deep ? 9 : 5); y++) for (int z = 1; z <= (deep ? 9 : 5); z++) { f({x, y, z}); if (deep) for (int u = 1; u <= 5; u++) f({x, y, z, u}); }
}
static std::vector<std::pair<Z, Z>> euclid(Z a, Z b) { std::vector<std::pair<Z, Z>> r{{a, b}}; while (b != 0) { Z t = a % b; a = b; b = t; r.push_back({a, b}); } return r; }
// ---- the partial extended gcd used by composition
static void part1(const Z &a, const Z &b, const Z &L, const char *key, const std::string &what) {
    C.states++; C.transitions++; Z r2 = a, r1 = b, c2 = 77, c1 = 77;
    mpz_xgcd_partial(c2.get_mpz_t(), c1.get_mpz_t(), r2.get_mpz_t(), r1.get_mpz_t(), L.get_mpz_t());
    // reference
    Z x2 = a, x1 = b, d2 = 0, d1 = -1; int steps = 0; while (x1 != 0 && x1 > L) { Z q = x2 / x1, t = x2 - q * x1; x2 = x1; x1 = t; t = d2 - q * d1; d2 = d1; d1 = t; steps++; }
    std::string ctx = what + ": a=" + a.get_str() + " b=" + b.get_str() + " L=" + L.get_str() + " gave r2=" + r2.get_str() + " r1=" + r1.get_str() + " co2=" + c2.get_str() + " co1=" + c1.get_str();
    if (r2 < 0 || r1 < 0) { viol(fmt("%s-negative", key), ctx); return; }
    if (r1 > L && r1 != 0) viol(fmt("%s-stops-early", key), ctx);
    // the leading-word steps may go beyond the bound, never leave Euclid's sequence
    while ((r2 != x2 || r1 != x1) && x1 != 0 && x1 >= r1) { Z q = x2 / x1, t = x2 - q * x1; x2 = x1; x1 = t; t = d2 - q * d1; d2 = d1; d1 = t; C.extra["steps_beyond_bound"]++; }
    if (r2 != x2 || r1 != x1) { viol(fmt("%s-not-euclid", key), ctx); return; }
    Z det = c2 * r1 - c1 * r2; if (det != a && det != -a) viol(fmt("%s-relation", key), ctx + " co2*r1-co1*r2 is not +-a");
    // r_i == -+ co_i * b (mod a), with matching signs for the pair
    Z e1 = (r1 + c1 * b) % a, e2 = (r2 + c2 * b) % a, f1 = (r1 - c1 * b) % a, f2 = (r2 - c2 * b) % a;
    if (a != 0 && !(e1 == 0 && e2 == 0) && !(f1 == 0 && f2 == 0) && !(e1 == 0 && f2 == 0) && !(f1 == 0 && e2 == 0)) viol(fmt("%s-congruence", key), ctx);
    if (abs(c1) != abs(d1) || abs(c2) != abs(d2)) viol(fmt("%s-cofactor", key), ctx + " expected |co|=" + d2.get_str() + "," + d1.get_str());
    else if ((c1 * d2 * c2 * d1) < 0 || (c1 != d1 && c1 != -d1)) viol(fmt("%s-cofactor-sign", key), ctx);
    C.extra[fmt("max_steps")] = std::max<uint64_t>(C.extra["max_steps"], steps);
}
static void partial() {
    int N = C.thorough() ? 140 : 64;
    for (int a = 1; a <= N; a++) { if (!next()) continue; C.traces++; C.nontrivial++; for (int b = 0; b <= a; b++) for (int L = 0; L <= a; L++) part1(a, b, L, "partial", "small"); }
    // operands just around one and two machine words
    for (int e : {31, 32, 62, 63, 64, 65, 126, 127, 128, 129}) { if (!next()) continue; C.traces++; for (int d = -6; d <= 6; d++) for (int f : {1, 2, 3, 5}) for (int h = -3; h <= 3; h++) { Z a = (Z(1) << e) + d, b = a / f + h; if (b < 0 || b > a) continue; for (int le : {0, 1, e / 4, e / 2, e / 2 + 1, e - 1, e}) for (int ld = -1; ld <= 1; ld++) { Z L = (Z(1) << le) + ld; part1(a, b, L, "partial", "word-size"); } } }
    words([&](const std::vector<Z> &w) {
        if (!next()) return; C.traces++; C.nontrivial++;
        for (int bits : {40, 64, 65, 128, 260, 520, 1030}) for (int hd = 0; hd < 3; hd++) {
            Pair p = word(w, hd == 2 ? (Z(1) << 64) - 1 : Z(1), bits, hd == 1 ? (Z(1) << 65) + 1 : Z(0), hd); auto tr = euclid(p.a, p.b); size_t st = std::max<size_t>(1, tr.size() / (C.thorough() ? 16 : 6));
            for (size_t i = 0; i < tr.size(); i += st) for (int d = -1; d <= 1; d++) { Z L = tr[i].second + d; if (L >= 0) part1(p.a, p.b, L, "partial", p.what); }
            part1(p.a, p.b, sqrt(p.a), "partial", p.what); part1(p.a, p.a - p.b, sqrt(p.a), "partial", p.what); part1(p.a, p.b, 0, "partial", p.what);
        }
    }, C.thorough());
    sample(fmt("all a<=%d, b<=a, L<=a; quotient words over %zu quotients at seven sizes", N, alphabet(true).size()));
}
// ---- guarded buffers
static uint64_t *guarded(size_t bytes) { static size_t pg = 4096; size_t n = (bytes + pg - 1) / pg * pg; char *m = (char *)mmap(0, n + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m, pg, PROT_NONE); mprotect(m + pg + n, pg, PROT_NONE); return (uint64_t *)(m + pg + n - bytes); }
static const char *isa_name[] = {"cel", "avx2"};
static bool have_avx2() { return __builtin_cpu_supports("avx2") && __builtin_cpu_supports("bmi2") && __builtin_cpu_supports("fma"); }
struct M2 { Z m[2][2]; };
static const std::vector<Z> corners = {0, (Z(1) << 64) - 1};
// remainders after a matrix with the given parity
static void apply(const M2 &m, int odd, const Z &a, const Z &b, Z &x, Z &y) { x = m.m[0][0] * a - m.m[0][1] * b; y = m.m[1][1] * b - m.m[1][0] * a; if (odd) { x = -x; y = -y; } }
static bool check_matrix(const M2 &m, int odd, const Z &a, const Z &b, const Z &T, bool lehmer, const std::string &key, const std::string &ctx, Z &x, Z &y) {
    Z det = m.m[0][0] * m.m[1][1] - m.m[0][1] * m.m[1][0]; if (det != (odd ? -1 : 1)) { viol(key + "-determinant", ctx); return false; }
    apply(m, odd, a, b, x, y);
    if (y < 0 || x < y) { viol(key + "-remainders", ctx + " remainders " + x.get_str() + "," + y.get_str()); return false; }
    if (x <= T) { viol(key + "-overshoot", ctx + " larger remainder " + x.get_str() + " is not above the bound"); return false; }
    if (m.m[0][0] == 1 && m.m[1][1] == 1 && m.m[0][1] == 0 && m.m[1][0] == 0) { viol(key + "-identity", ctx + " progress claimed with the identity"); return false; }
    if (lehmer) for (auto &e : corners) for (auto &f : corners) { Z X, Y; apply(m, odd, (a << 64) + e, (b << 64) + f, X, Y); if (Y < 0 || X < Y) { viol(key + "-lehmer", ctx + " matrix is not valid for every continuation of the operands"); return false; } }
    else { Z u = a, v = b; bool hit = false; while (true) { if (u == x && v == y) { hit = true; break; } if (v == 0 || u < x) break; Z t = u % v; u = v; v = t; } if (!hit) { viol(key + "-not-euclid", ctx); return false; } }
    return true;
}
// ---- base kernel
static void base1(double a, double b, bool lehmer, double T, int isa, const std::string &what) {
    C.states++; C.transitions++; alignas(16) double ab[2] = {a, b}, u[2] = {1, 0}, v[2] = {0, 1}, th[2] = {T, T}; alignas(16) uint64 il[2] = {lehmer ? ~0ull : 0, lehmer ? ~0ull : 0}; uint64 np = 7;
    int ec = isa ? asm_code::asm_avx2_func_gcd_base(ab, u, v, il, th, &np) : asm_code::asm_cel_func_gcd_base(ab, u, v, il, th, &np);
    std::string key = fmt("base-%s", isa_name[isa]), ctx = what + fmt(" %s a=%.0f b=%.0f lehmer=%d T=%.0f u=%.0f,%.0f v=%.0f,%.0f", isa_name[isa], a, b, lehmer, T, u[0], u[1], v[0], v[1]);
    if (ec) { C.extra["base_errors"]++; return; }
    if (np) { if (np != 1) viol(key + "-flag", ctx); C.extra["base_no_progress"]++; return; }
    C.extra["base_progress"]++; int odd = v[1] < 0; M2 m; m.m[0][0] = fabs(u[0]); m.m[0][1] = fabs(v[0]); m.m[1][0] = fabs(u[1]); m.m[1][1] = fabs(v[1]);
    Z x, y; Z za = a, zb = b, zt = T; if (!check_matrix(m, odd, za, zb, zt, lehmer, key, ctx, x, y)) return;
    if (x != Z(ab[0]) || y != Z(ab[1])) viol(key + "-values", ctx + fmt(" returned %.0f,%.0f", ab[0], ab[1]));
}
static void base() {
    int isas = have_avx2() ? 2 : 1; int N = C.thorough() ? 600 : 220;
    for (int a = 1; a <= N; a++) { if (!next()) continue; C.traces++; C.nontrivial++; for (int b = 1; b <= a; b++) for (int l = 0; l < 2; l++) for (int t : {0, 1, b / 2, b - 1, b, b + 1}) { if (t < 0 || t >= a) continue; for (int i = 0; i < isas; i++) base1(a, b, l, t, i, "small"); } }
    words([&](const std::vector<Z> &w) {
        if (!next()) return; C.traces++; C.nontrivial++;
        for (int bits : {20, 30, 40, 45, 49, 50}) for (int ph = 0; ph < 2; ph++) { Pair p = word(w, 1, bits, 0, ph); auto tr = euclid(p.a, p.b);
            for (auto &r : tr) { if (mpz_sizeinbase(r.first.get_mpz_t(), 2) > 50 || r.second == 0) continue; for (int l = 0; l < 2; l++) for (int i = 0; i < isas; i++) { base1(r.first.get_d(), r.second.get_d(), l, 0, i, p.what); for (size_t k = 1; k < tr.size(); k += 3) for (int d = -1; d <= 1; d++) { Z T = tr[k].second + d; if (T < 0 || T >= r.first) continue; base1(r.first.get_d(), r.second.get_d(), l, T.get_d(), i, p.what); } } if (tr.size() > 12 && &r - &tr[0] > 4) break; }
        }
    }, C.thorough());
    sample(fmt("all b<=a<=%d with six bounds; both instruction sets", N));
}
// ---- 128-bit kernel
static void g128_1(const Z &a, const Z &b, bool lehmer, const Z &T, int isa, const std::string &what) {
    C.states++; C.transitions++; asm_code::asm_func_gcd_128_data d; memset(&d, 0x5a, sizeof d);
    d.ab_start_0_0 = lo64(a); d.ab_start_0_8 = lo64(a >> 64); d.ab_start_1_0 = lo64(b); d.ab_start_1_8 = lo64(b >> 64); d.is_lehmer = lehmer; d.ab_threshold_0 = lo64(T); d.ab_threshold_8 = lo64(T >> 64);
    int ec = isa ? asm_code::asm_avx2_func_gcd_128(&d) : asm_code::asm_cel_func_gcd_128(&d);
    std::string key = fmt("g128-%s", isa_name[isa]), ctx = what + fmt(" %s a=", isa_name[isa]) + a.get_str() + " b=" + b.get_str() + fmt(" lehmer=%d T=", lehmer) + T.get_str() + fmt(" u=%llu,%llu v=%llu,%llu parity=%llu", (unsigned long long)d.u_0, (unsigned long long)d.u_1, (unsigned long long)d.v_0, (unsigned long long)d.v_1, (unsigned long long)d.parity);
    if (ec) { C.extra["g128_errors"]++; return; } if (d.no_progress) { C.extra["g128_no_progress"]++; return; } C.extra["g128_progress"]++;
    if (d.parity > 1) { viol(key + "-parity", ctx); return; }
    M2 m; m.m[0][0] = z64(d.u_0); m.m[1][0] = z64(d.u_1); m.m[0][1] = z64(d.v_0); m.m[1][1] = z64(d.v_1); Z x, y; check_matrix(m, (int)d.parity, a, b, T, lehmer, key, ctx, x, y);
}
static void g128() {
    int isas = have_avx2() ? 2 : 1; int N = C.thorough() ? 300 : 120;
    for (int a = 1; a <= N; a++) { if (!next()) continue; C.traces++; C.nontrivial++; for (int b = 1; b <= a; b++) for (int t : {0, 1, b / 2, b - 1, b}) { if (t < 0 || t >= a) continue; for (int i = 0; i < isas; i++) for (int s : {0, 30, 60, 90, 119}) for (int l = 0; l < 2; l++) { if (l && s < 90) continue; g128_1(Z(a) << s, (Z(b) << s) + (s ? 1 : 0) > (Z(a) << s) ? Z(b) << s : Z(b) << s, l, Z(t) << s, i, "small"); } } }
    words([&](const std::vector<Z> &w) {
        if (!next()) return; C.traces++; C.nontrivial++;
        for (int bits : {40, 63, 64, 65, 96, 97, 120, 127, 128}) for (int ph = 0; ph < 2; ph++) { Pair p = word(w, 1, bits, 0, ph); auto tr = euclid(p.a, p.b); int used = 0;
            for (auto &r : tr) { int rb = mpz_sizeinbase(r.first.get_mpz_t(), 2); if (rb > 128 || r.second == 0) continue; if (++used > 4) break;
                for (int l = 0; l < 2; l++) for (int i = 0; i < isas; i++) { g128_1(r.first, r.second, l, 0, i, p.what); size_t st = std::max<size_t>(1, tr.size() / 5); for (size_t k = 1; k < tr.size(); k += st) for (int d = -1; d <= 1; d++) { Z T = tr[k].second + d; if (T < 0 || T >= r.first) continue; g128_1(r.first, r.second, l, T, i, p.what); } } }
        }
    }, C.thorough());
    sample("128-bit kernel, quotient words at nine sizes, both instruction sets, exact and leading-bits mode");
}
// ---- full kernel
static void uns1(const Z &a, const Z &b, const Z &T, const std::string &what, const std::vector<std::pair<Z, Z>> &tr) {
    static uint64_t *A = guarded(8 * gcd_size), *B = guarded(8 * gcd_size), *A2 = guarded(8 * gcd_size), *B2 = guarded(8 * gcd_size), *TH = guarded(8 * gcd_size), *UV = guarded(64 * (gcd_max_iterations + 1)), *CT = guarded(64);
    int isas = have_avx2() ? 2 : 1; size_t stop = 0; while (stop + 1 < tr.size() && tr[stop].second > T) stop++;
    for (int isa = 0; isa < isas; isa++) {
        C.states++; C.transitions++;
        auto put = [](uint64_t *p, const Z &v) { memset(p, 0, 8 * gcd_size); mpz_export(p, 0, -1, 8, 0, 0, v.get_mpz_t()); };
        put(A, a); put(B, b); put(TH, T); memset(A2, 0, 8 * gcd_size); memset(B2, 0, 8 * gcd_size); memset(UV, 0xee, 64 * (gcd_max_iterations + 1)); *CT = 4711;
        asm_code::asm_func_gcd_unsigned_data d; d.a = A; d.b = B; d.a_2 = A2; d.b_2 = B2; d.threshold = TH; d.uv_counter_start = 1000; d.out_uv_counter_addr = CT; d.out_uv_addr = UV + 8; d.iter = -1; d.a_end_index = a == 0 ? 0 : (mpz_sizeinbase(a.get_mpz_t(), 2) + 63) / 64 - 1;
        int ec = isa ? asm_code::asm_avx2_func_gcd_unsigned(&d) : asm_code::asm_cel_func_gcd_unsigned(&d);
        std::string key = fmt("gcd-%s", isa_name[isa]), ctx = what + fmt(" %s error=%d iter=%lld a=", isa_name[isa], ec, (long long)d.iter) + a.get_str() + " b=" + b.get_str() + " T=" + T.get_str();
        if (ec) { C.extra[fmt("gcd_refused_%s", isa_name[isa])]++; if (getenv("DBG")) printf("REF %s\n", ctx.c_str()); continue; }
        C.extra[fmt("gcd_done_%s", isa_name[isa])]++;
        if (d.iter < 0 || d.iter > gcd_max_iterations) { viol(key + "-iter", ctx); continue; }
        C.extra["max_iter"] = std::max<uint64_t>(C.extra["max_iter"], d.iter);
        bool even = ((d.iter - 1) & 1) == 0; Z x, y; mpz_import(x.get_mpz_t(), gcd_size, -1, 8, 0, 0, even ? A2 : A); mpz_import(y.get_mpz_t(), gcd_size, -1, 8, 0, 0, even ? B2 : B);
        if (d.iter == 0) { if (b > T) viol(key + "-stops-early", ctx); continue; }
        if (y > T) viol(key + "-stops-early", ctx + " remainder " + y.get_str());
        if (x != tr[stop].first || y != tr[stop].second) { viol(key + "-not-euclid", ctx + " gave " + x.get_str() + "," + y.get_str() + " expected " + tr[stop].first.get_str() + "," + tr[stop].second.get_str()); continue; }
        Z u = a, v = b; bool ok = true;
        for (int i = 0; i < d.iter && ok; i++) {
            uint64_t *e = UV + 8 * (i + 1); uint64_t fl = UV[8 * i + 5]; if (fl != 0) { viol(key + "-exit-flag", ctx + fmt(" entry %d", i)); ok = false; break; }
            if (e[4] > 1) { viol(key + "-parity", ctx); ok = false; break; }
            M2 m; m.m[0][0] = z64(e[0]); m.m[1][0] = z64(e[1]); m.m[0][1] = z64(e[2]); m.m[1][1] = z64(e[3]); Z det = m.m[0][0] * m.m[1][1] - m.m[0][1] * m.m[1][0];
            if (det != (e[4] ? -1 : 1)) { viol(key + "-determinant", ctx + fmt(" matrix %d", i)); ok = false; break; }
            Z n1, n2; apply(m, (int)e[4], u, v, n1, n2); if (n2 < 0 || n1 < n2 || n1 <= T) { viol(key + "-matrix", ctx + fmt(" matrix %d leads to ", i) + n1.get_str() + "," + n2.get_str()); ok = false; break; } u = n1; v = n2;
        }
        if (!ok) continue;
        if (u != x || v != y) viol(key + "-matrix-product", ctx);
        if (UV[8 * d.iter + 5] != 1) viol(key + "-no-exit-flag", ctx);
        if (*CT != 1000 + d.iter - 1) viol(key + "-counter", ctx + fmt(" counter %llu", (unsigned long long)*CT));
    }
}
static void uns() {
    set_rounding_mode();
    int N = C.thorough() ? 260 : 110;
    for (int a = 1; a <= N; a++) { if (!next()) continue; C.traces++; C.nontrivial++; for (int b = 0; b <= a; b++) { auto tr = euclid(a, b); for (int t = 0; t < a; t = t < 6 ? t + 1 : t + 3) uns1(a, b, t, "small", tr); } }
    for (int lim = 1; lim <= 20; lim++) { if (!next()) continue; C.traces++; for (int d = -2; d <= 2; d++) for (int f : {1, 2, 3}) for (int s : {0, 1, 31, 62, 63}) { Z a = ((Z(1) << (64 * lim - s - 1)) + d), b = a / f - (f == 1 ? 1 : 0); if (mpz_sizeinbase(a.get_mpz_t(), 2) > 1280) continue; auto tr = euclid(a, b); for (int te : {0, 32, 32 * lim, 32 * lim + 1, 64 * lim - 66}) { if (te < 0) continue; Z T = te ? (Z(1) << te) : Z(0); if (T < a) { uns1(a, b, T, "limbs", tr); uns1(a, b, T > 0 ? Z(T - 1) : T, "limbs", tr); } } } }
    words([&](const std::vector<Z> &w) {
        if (!next()) return; C.traces++; C.nontrivial++;
        for (int bits : {60, 64, 128, 129, 192, 320, 520, 1024, 1210}) for (int hd = 0; hd < 3; hd++) {
            Pair p = word(w, hd == 2 ? (Z(1) << 64) - 1 : Z(1), bits, hd == 1 ? (Z(1) << 40) + 1 : Z(0), hd); if (mpz_sizeinbase(p.a.get_mpz_t(), 2) > 1280) continue; auto tr = euclid(p.a, p.b); size_t st = std::max<size_t>(1, tr.size() / (C.thorough() ? 12 : 4));
            uns1(p.a, p.b, 0, p.what, tr); Z L = sqrt(p.a); uns1(p.a, p.b, L, p.what, tr); uns1(p.a, p.b, sqrt(L), p.what, tr);
            for (size_t i = 0; i < tr.size(); i += st) for (int d = -1; d <= 1; d++) { Z T = tr[i].second + d; if (T >= 0 && T < p.a) uns1(p.a, p.b, T, p.what, tr); }
        }
    }, C.thorough());
    sample(fmt("all b<=a<=%d with a grid of bounds; 1..20 limbs; quotient words at nine sizes; both instruction sets", N));
}
int main(int argc, char **argv) { init_gmp(); set_rounding_mode(); init(argc, argv);
    if (C.mode == "partial") partial(); else if (C.mode == "base") base(); else if (C.mode == "g128") g128(); else if (C.mode == "uns") uns(); else return 3; return finish(); }
