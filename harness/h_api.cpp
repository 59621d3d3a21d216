// C10 malformed arguments of every public entry point, C28 C interface against the C++ library.
#include "group_ops.h"
#include "ref_verify.h"
#include "c_bindings/c_wrapper.cpp"
#include <sys/resource.h>
#include <limits>
using namespace vh;
typedef std::vector<uint8_t> B;
// every buffer handed to the library ends at an inaccessible page and is read-only where it is an input
struct Guard { uint8_t *base, *end; size_t cap;
    Guard(size_t c) { cap = (c + 4095) & ~4095ull; if (!cap) cap = 4096; base = (uint8_t *)mmap(0, cap + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(base, 4096, PROT_NONE); mprotect(base + 4096 + cap, 4096, PROT_NONE); end = base + 4096 + cap; }
    uint8_t *put(const B &b) { mprotect(end - cap, cap, PROT_READ | PROT_WRITE); if (b.size() > cap) abort(); memset(end - cap, 0x5a, cap); memcpy(end - b.size(), b.data(), b.size()); mprotect(end - cap, cap, PROT_READ); return end - b.size(); }
    uint8_t *out(size_t n) { mprotect(end - cap, cap, PROT_READ | PROT_WRITE); memset(end - cap, 0x5a, cap); return end - n; }
    bool before_ok(size_t n) { for (uint8_t *p = end - cap; p < end - n; p++) if (*p != 0x5a) return false; return true; } };
static Guard *gx, *gb, *gs, *go;
static const char *last_exc = "";
template <class Fn> static int call(Fn f) { C.states++; C.transitions++; alarm(30); int r; try { r = f(); } catch (std::exception &) { r = -1; } catch (...) { r = -2; } alarm(0); if (r == -1) C.extra["threw"]++; else if (r == -2) viol("foreign-exception", "an exception that is not a std::exception left the library"); else C.extra[r ? "true" : "false"]++; return r; }
static Z p2(int e) { Z r = 1; return r << e; }
static std::string hx(const B &b, size_t n = 8) { std::string r; for (size_t i = 0; i < b.size() && i < n; i++) r += fmt("%02x", b[i]); return r; }
static const B seedv{0xde, 0xad, 0xbe, 0xef};
struct Proofs { Z D; F x, y; B xs, p0, p1, p2, wb; Z Bz; };
static B enc(const F &f, const Z &D) { return ref::encode(f, mpz_sizeinbase(D.get_mpz_t(), 2)); }
static Proofs mkproofs(int bits, uint64_t t) { // depth 0, 1 and 2 proofs of x^(2^t)
    Proofs p; p.D = ref::create_discriminant(seedv, bits); p.x = ref::mk(2, 1, p.D); ref::reduce(p.x, p.D); p.xs = enc(p.x, p.D); p.y = ref::sqn(p.x, t, p.D);
    auto cat = [&](const F &y, const F &pi) { B o = enc(y, p.D), q = enc(pi, p.D); o.insert(o.end(), q.begin(), q.end()); return o; };
    p.p0 = cat(p.y, ref::prove(p.D, p.x, p.y, t)); p.wb = B(p.p0.begin() + 100, p.p0.end()); p.Bz = ref::challenge(p.x, p.y, p.D);
    F m = ref::sqn(p.x, 4, p.D), m2 = ref::sqn(m, 3, p.D); auto seg = [&](B &o, const F &a, const F &b, uint64_t n) { ref::put_be64(o, n); ref::put_be(o, ref::challenge(a, b, p.D), 33); B e = enc(ref::prove(p.D, a, b, n), p.D); o.insert(o.end(), e.begin(), e.end()); };
    p.p1 = cat(p.y, ref::prove(p.D, m, p.y, t - 4)); seg(p.p1, p.x, m, 4);
    p.p2 = cat(p.y, ref::prove(p.D, m2, p.y, t - 7)); seg(p.p2, m, m2, 3); seg(p.p2, p.x, m, 4);
    return p;
}
static B rep(uint8_t c, size_t n) { return B(n, c); }
static B flag2(uint8_t a, uint8_t b) { B r(200, 0); r[0] = a; r[100] = b; return r; }
static uint64_t inv141() { uint64_t x = 1; for (int i = 0; i < 6; i++) x *= 2 - 141 * x; return x; }
struct ND { std::string n; Z D; };
static std::vector<ND> discs(const Proofs &a, const Proofs &b) {
    std::vector<ND> v{{"valid256", a.D}, {"valid1024", b.D}, {"-valid256", -a.D}, {"valid256-1", a.D - 1}, {"valid256-2", a.D - 2}, {"valid256-3", a.D - 3}, {"valid256*4", a.D * 4}, {"valid256*9", a.D * 9}};
    for (int i : {0, 1, 2, 3, 4, 5, 8, 9, 12, 13, 16, 17, 21, 255, 256, 257}) { v.push_back({fmt("+%d", i), Z(i)}); if (i) v.push_back({fmt("-%d", i), Z(-i)}); }
    for (int i : {7, 11, 15, 23, 24, 27, 28, 31, 32, 63, 64, 127, 128, 175}) v.push_back({fmt("-%d", i), Z(-i)});
    for (int e : {31, 32, 63, 64, 127, 128, 1023, 1024, 1025, 1087, 1088, 2048, 4096, 65536}) for (int d : {-1, 0, 1, 7}) { v.push_back({fmt("-(2^%d%+d)", e, d), -(p2(e) + d)}); if (d == 1) v.push_back({fmt("+(2^%d%+d)", e, d), p2(e) + d}); }
    for (const char *s : {"", "abc", "0x", "-", "-0x", "1e5", "0xzz", " ", "--7", "0b2", "08", "-0", "7 7"}) v.push_back({std::string("text '") + s + "'", toZ(integer(std::string(s)))});
    return v;
}
static bool okD(const Z &D) { return D < 0 && mpz_sizeinbase(D.get_mpz_t(), 2) <= 1024; }
static void c10_verify() {
    const uint64_t T = 11; Proofs P = mkproofs(256, T), Q = mkproofs(1024, T); auto ds = discs(P, Q);
    std::vector<std::pair<std::string, B>> xs{{"null", B()}, {"generator", P.xs}, {"generator1024", Q.xs}, {"flag8", rep(0, 100)}, {"flag4", rep(0, 100)}, {"zeros", rep(0, 100)}, {"ff", rep(0xff, 100)}, {"01s", rep(1, 100)}, {"output", enc(P.y, P.D)}};
    xs[3].second[0] = 8; xs[4].second[0] = 4;
    std::vector<std::pair<std::string, B>> bl{{"null", B()}, {"p0", P.p0}, {"p1", P.p1}, {"p2", P.p2}, {"q0", Q.p0}, {"q1", Q.p1}, {"wb", P.wb}, {"id", flag2(4, 4)}, {"gen", flag2(8, 8)}, {"both", flag2(12, 12)}, {"zeros", rep(0, 341)}, {"ff", rep(0xff, 341)}, {"empty", B()}, {"one", rep(8, 1)}, {"99", rep(0, 99)}, {"199", rep(0, 199)}, {"201", rep(0, 201)}, {"340", rep(0, 340)}, {"342", rep(0, 342)}, {"141", rep(0, 141)}, {"59", rep(0, 59)}};
    // segments whose iteration count or challenge is extreme
    for (uint64_t n : {0ull, 1ull << 32, 1ull << 63, ~0ull}) { B b = P.p1; B t; ref::put_be64(t, n); std::copy(t.begin(), t.end(), b.begin() + 200); bl.push_back({fmt("p1 n=%llx", (unsigned long long)n), b}); }
    for (int v : {0, 1, 255}) { B b = P.p1; for (int i = 208; i < 241; i++) b[i] = v == 1 ? i == 240 : v; bl.push_back({fmt("p1 B=%d", v), b}); }
    std::vector<uint64_t> depths{0, 1, 2, 3, 1ull << 32, ~0ull, ~0ull - 1, ~0ull / 141, ~0ull / 141 + 1, (~0ull - 100) / 141, (~0ull - 200) / 141, 1ull << 63};
    for (uint64_t v : {1ull, 2ull, 41ull, 140ull, 142ull}) { depths.push_back(inv141() * v); depths.push_back(inv141() * (0 - v)); }
    std::vector<uint64_t> its{0, 1, T, T + 1, 1ull << 32, ~0ull};
    auto dsz = [&](const Z &D) { uint64_t n = mpz_sizeinbase(D.get_mpz_t(), 2); return n; };
    for (auto &d : ds) for (auto &x : xs) {
        if (!next()) continue; C.traces++; if (okD(d.D)) C.nontrivial++;
        for (auto &b : bl) { uint8_t *xp = x.first == "null" ? nullptr : gx->put(x.second), *bp = b.first == "null" ? nullptr : gb->put(b.second);
            std::vector<size_t> lens{b.second.size()}; if (b.first == "null") lens = {0, 100, 200, 241, 341, (size_t)-1}; else for (size_t l : {(size_t)-1, (size_t)1 << 63, (size_t)0}) lens.push_back(l);
            for (size_t len : lens) for (uint64_t dep : depths) { bool fits = dep < 100 && len == 200 + dep * 141, fitsb = dep < 100 && len == 100 + dep * 141; if (len > b.second.size() && (fits || fitsb) && bp) continue; // the caller lied about its buffer
                std::string ctx = "D=" + d.n + " x=" + x.first + " blob=" + b.first + fmt(" len=%zu depth=%llu", len, (unsigned long long)dep);
                for (uint64_t it : its) { if (!fits && !fitsb && it > 1) break;
                    for (uint64_t bits : {dsz(d.D), (uint64_t)0, (uint64_t)1025, (uint64_t)1 << 32, (uint64_t)~0ull}) { if (bits != dsz(d.D) && it != T && it != 0) continue;
                        int r = call([&] { return CheckProofOfTimeNWesolowski(toI(d.D), xp, bp, len, it, bits, dep); });
                        if (r == 1 && (!fits || !xp || !bp || !okD(d.D) || bits == 0 || bits > 1024)) viol("verify-accepts-malformed", ctx + fmt(" t=%llu bits=%llu accepted", (unsigned long long)it, (unsigned long long)bits)); }
                    for (int bi = 0; bi < 7; bi++) { if (!fitsb && bi) break; integer Bi = bi == 0 ? toI(P.Bz) : bi == 1 ? integer(0) : bi == 2 ? integer(-1) : bi == 3 ? integer(1) : bi == 4 ? toI(-P.Bz) : bi == 5 ? toI(p2(300) + 1) : integer(std::string("junk"));
                        int r = call([&] { auto q = CheckProofOfTimeNWesolowskiWithB(toI(d.D), Bi, xp, bp, len, it, dep); if (q.first && q.second.size() != 100) viol("withb-size", ctx); if (!q.first && !q.second.empty()) viol("withb-result-on-failure", ctx); return (int)q.first; });
                        if (r == 1 && (!fitsb || !xp || !bp || !okD(d.D) || (bi && bi != 3))) viol("withb-accepts-malformed", ctx + fmt(" B#%d accepted", bi)); }
                    { int r = call([&] { integer q = GetBFromProof(toI(d.D), xp, bp, len, it, dep); return 1; }); if (r == 1 && (!fits || !xp || !bp || !okD(d.D))) viol("getb-accepts-malformed", ctx); }
                } } 
            if (xp && bp && b.second.size() >= 200) { bool v = true; int r = call([&] { v = true; integer D = toI(d.D); form fx = DeserializeForm(D, xp, 100), fy = DeserializeForm(D, bp, 100), fp = DeserializeForm(D, bp + 100, 100); VerifyWesolowskiProof(D, fx, fy, fp, T, v); return (int)v; }); if (r == 1 && d.D >= 0) viol("verify-simple-malformed", "D=" + d.n + " accepted"); }
            if (xp && bp) for (size_t n : {b.second.size(), (size_t)0}) for (int st = 0; st < 2; st++) { call([&] { DeserializeForm(toI(d.D), bp, n, st); return 1; }); call([&] { integer a, q, D = toI(d.D); for (uint64_t bits : {dsz(d.D), (uint64_t)0, (uint64_t)32, (uint64_t)1024, (uint64_t)1025, (uint64_t)1 << 33}) bqfc_deserialize(a.impl, q.impl, D.impl, bp, n, bits, st); return 1; }); }
        }
    }
}
static void c10_disc() { // discriminant creation and the combined entry point
    std::vector<B> seeds{B(), B{0}, B{0xff}, B{0, 0}, B{0xff, 0xff}, rep(0, 32), rep(0xff, 32), rep(0xff, 300), seedv};
    Proofs P = mkproofs(256, 11);
    for (auto &s : seeds) { for (long len : {0l, 1l, 7l, 8l, 9l, 15l, 16l, 17l, 24l, 31l, 32l, 255l, 256l, 257l, 264l, 1016l, 1023l, 1024l, 1025l, 1032l, 2048l, 65536l, 2147483647l, -1l, -8l, -1024l, -2147483647l - 1}) { if (!next()) continue; C.traces++;
            std::string ctx = "seed=" + hx(s, 40) + fmt(" (%zu bytes) length=%ld", s.size(), len); B cp = s;
            int r = call([&] { integer D = CreateDiscriminant(cp, (int)len); if ((long)D.num_bits() != len) viol("disc-size", ctx); return 1; }); bool bad = s.empty() || len <= 0 || len > 1024 || len % 8;
            if (bad && r != -1) viol("disc-accepts-malformed", ctx); if (cp != s) viol("disc-seed-modified", ctx);
            if (len >= 0 && (len <= 1024 || len % 8)) for (int xi = 0; xi < 2; xi++) for (size_t bl : {(size_t)0, (size_t)200, (size_t)341}) { B blob = rep(0, bl); if (bl) blob[0] = blob[100] = 8; uint8_t *bp = gb->put(blob);
                int q = call([&] { return CreateDiscriminantAndCheckProofOfTimeNWesolowski(s, (uint32_t)len, xi ? gx->put(P.xs) : nullptr, bp, bl, 5, 0); }); if (q == 1 && (bad || !xi || bl != 200)) viol("combined-accepts-malformed", ctx); }
        }
        if (!next()) continue; C.traces++; for (uint32_t len : {0u, 1025u, 0x80000000u, 0xffffffffu, 0x80000400u}) { int q = call([&] { return CreateDiscriminantAndCheckProofOfTimeNWesolowski(s, len, P.xs.data(), P.p0.data(), 200, 11, 0); }); if (q == 1) viol("combined-accepts-malformed", fmt("length %u", len)); }
    }
}
static void c10_c() { // the C entry points: an exception or crash here takes the process down
    const size_t H = (size_t)-1; std::vector<std::pair<B, bool>> seeds; Proofs P = mkproofs(256, 11);
    struct S { const char *n; int kind; size_t size; }; std::vector<S> ss{{"null0", 0, 0}, {"null4", 0, 4}, {"nullhuge", 0, H}, {"ok0", 1, 0}, {"ok4", 1, 4}, {"hugesize", 1, H}, {"hugesize2", 1, H / 2 + 2}};
    std::vector<size_t> bits{0, 1, 7, 8, 9, 24, 256, 257, 1023, 1024, 1025, 1032, ((size_t)1 << 32) + 256, ((size_t)1 << 31), ((size_t)1 << 31) + 256, H, H - 7, (size_t)1 << 63};
    for (auto &s : ss) for (size_t b : bits) for (int res = 0; res < 2; res++) { if (!next()) continue; C.traces++; uint8_t *sp = s.kind ? gs->put(seedv) : nullptr; bool bad = !res || !s.kind || s.size != 4 || b == 0 || b > 1024 || b % 8;
        size_t n = b / 8 <= 128 ? b / 8 : 128; uint8_t *o = res ? go->out(n) : nullptr; std::string ctx = fmt("seed %s bits %zu result %s", s.n, b, res ? "ok" : "null");
        int r = call([&] { return (int)create_discriminant_wrapper(sp, s.size, b, o); }); if (r < 0) viol("c-exception", "create_discriminant_wrapper " + ctx); if (r == 1 && bad) viol("c-accepts-malformed", "create_discriminant_wrapper " + ctx); if (r == 0 && !bad) viol("c-refuses", ctx); if (res && !go->before_ok(n)) viol("c-writes-before", ctx);
        for (int xk = 0; xk < 5; xk++) for (size_t xl : {(size_t)0, (size_t)99, (size_t)100, (size_t)101, H}) for (uint64_t t : {0ull, 1ull, 2ull, 3ull, 100ull}) { if (res && b != 256 && xk > 1) continue; if (!res && t != 1) continue;
            B xb = xk == 2 ? rep(0xff, 100) : xk == 3 ? rep(0, 100) : xk == 4 ? enc(P.y, P.D) : P.xs; uint8_t *xp = xk ? gx->put(xb) : nullptr; std::string c2 = ctx + fmt(" x#%d len %zu t %llu", xk, xl, (unsigned long long)t);
            ByteArray a{(uint8_t *)1, 77}; int q = call([&] { a = prove_wrapper(sp, s.size, xp, xl, b, t); return 1; }); if (q < 0) { viol("c-exception", "prove_wrapper " + c2); continue; }
            bool bad2 = !xp || xl != 100 || !s.kind || s.size != 4 || b == 0 || b > 1024 || b % 8 || xk == 3; if (bad2 && (a.data || a.length)) viol("c-accepts-malformed", "prove_wrapper " + c2); if (!a.data && a.length) viol("c-null-with-length", c2);
            if (!bad2 && xk == 1 && t && b >= 256 && a.length != 200) viol("c-refuses", "prove_wrapper " + c2); call([&] { delete_byte_array(a); return 1; }); }
    }
    B db(32); { Z m = -P.D; size_t n; mpz_export(db.data(), &n, 1, 1, 1, 0, m.get_mpz_t()); }
    for (int dk = 0; dk < 6; dk++) for (size_t dl : {(size_t)0, (size_t)1, (size_t)31, (size_t)32, (size_t)128, (size_t)129, ((size_t)1 << 61) + 32, (size_t)1 << 61, (size_t)1 << 29, H}) for (int xk = 0; xk < 3; xk++) { if (!next()) continue; C.traces++; C.nontrivial++;
        B d = dk == 1 ? db : dk == 2 ? rep(0, 128) : dk == 3 ? rep(0xff, 128) : dk == 4 ? rep(1, 128) : B(); if (dk == 5) { d = rep(0, 96); d.insert(d.end(), db.begin(), db.end()); } if (dk && dl <= 128 && d.size() < dl) continue; if (dk && dl > 128 && dl < 4096) d = rep(0xff, dl); uint8_t *dp = dk ? gs->put(d) : nullptr; if (dk && dl <= d.size()) dp = gs->put(B(d.end() - dl, d.end()));
        uint8_t *xp = xk ? gx->put(xk == 1 ? P.xs : rep(0xf3, 100)) : nullptr;
        for (int bk = 0; bk < 5; bk++) { B b = bk == 1 ? P.p0 : bk == 2 ? P.p1 : bk == 3 ? rep(0xf3, 200) : bk == 4 ? B() : B(); uint8_t *bp = bk ? gb->put(b) : nullptr;
            for (size_t bl : {b.size(), (size_t)0, H}) for (uint64_t dep : {(uint64_t)0, (uint64_t)1, (uint64_t)~0ull, (uint64_t)(~0ull / 141)}) for (uint64_t t : {0ull, 11ull, ~0ull}) { std::string ctx = fmt("verify D#%d size %zu x#%d blob#%d len %zu depth %llu t %llu", dk, dl, xk, bk, bl, (unsigned long long)dep, (unsigned long long)t);
                int r = call([&] { return (int)verify_n_wesolowski_wrapper(dp, dl, xp, bp, bl, t, dep); }); if (r < 0) viol("c-exception", ctx);
                bool good = (dk == 1 || dk == 5) && xk == 1 && t == 11 && ((bk == 1 && dep == 0) || (bk == 2 && dep == 1)) && bl == b.size() && (dl == 32 || (dl == 128 && dk == 5)); if (r == 1 && !good) viol("c-accepts-malformed", ctx); if (r == 0 && good) viol("c-refuses", ctx); } }
    }
}
// ---------------------------------------------------------------- C28
static std::map<void *, size_t> live; static bool track = false; static uint64_t bad_free = 0;
static void *talloc(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (track) { track = false; live[p] = n; track = true; } return p; }
static void tfree(void *p) noexcept { if (!p) return; if (track) { track = false; auto i = live.find(p); if (i == live.end()) bad_free++; else live.erase(i); track = true; } free(p); }
void *operator new(size_t n) { return talloc(n); }
void *operator new[](size_t n) { return talloc(n); }
void operator delete(void *p) noexcept { tfree(p); }
void operator delete[](void *p) noexcept { tfree(p); }
void operator delete(void *p, size_t) noexcept { tfree(p); }
void operator delete[](void *p, size_t) noexcept { tfree(p); }
static void c28_disc() {
    std::vector<B> seeds; for (int i = 0; i < (C.thorough() ? 256 : 48); i++) { seeds.push_back(B{(uint8_t)(i * 5), (uint8_t)i}); } for (int n = 1; n <= 64; n += 3) { B s(n, 0xff); s[0] = n; seeds.push_back(s); } seeds.push_back(rep(0, 32)); seeds.push_back(rep(0xff, 4));
    std::vector<size_t> bits; for (size_t b = 0; b <= 272; b++) bits.push_back(b); for (size_t b : {504, 512, 520, 1000, 1016, 1024, 1032, 2048}) bits.push_back(b);
    for (auto &s : seeds) { if (!next()) continue; C.traces++; C.nontrivial++; for (size_t b : bits) { if (b > 264 && (s[0] & 7)) continue; C.states++; C.transitions++; uint8_t *sp = gs->put(s); size_t n = (b + 7) / 8; uint8_t *o = go->out(n); B exp; bool ok = true;
            try { B c = s; integer D = CreateDiscriminant(c, (int)b); integer m = -D; exp = m.to_bytes(); } catch (std::exception &) { ok = false; }
            int r; try { r = create_discriminant_wrapper(sp, s.size(), b, o); } catch (...) { viol("c-exception", "create_discriminant_wrapper threw"); continue; } std::string ctx = "create_discriminant_wrapper seed=" + hx(s, 64) + fmt(" bits=%zu", b);
            if (r != ok) viol("disc-verdict", ctx + fmt(": returned %d, the C++ function %s", r, ok ? "succeeds" : "throws")); if (ok && r) { if (exp.size() != b / 8 || memcmp(exp.data(), o, exp.size())) viol("disc-value", ctx + " differs from the C++ discriminant"); Z z; mpz_import(z.get_mpz_t(), b / 8, 1, 1, 1, 0, o); if (b >= 16 && z % 8 != 7) viol("disc-value", ctx + " is not 7 mod 8"); } if (!go->before_ok(n)) viol("disc-writes-outside", ctx);
            if (!ok) for (size_t i = 0; i < n; i++) if (o[i] != 0x5a) { viol("disc-writes-on-failure", ctx); break; } } }
}
static void c28_prove() {
    for (int bits : {64, 256, 512, 1024}) for (int si = 0; si < 3; si++) for (int xk = 0; xk < 5; xk++) { if (!next()) continue; C.traces++; B seed{(uint8_t)si, 1, 2, (uint8_t)bits}; B sc = seed; integer D = CreateDiscriminant(sc, bits); Z Dz = toZ(D); F x = ref::mk(2, 1, Dz); ref::reduce(x, Dz); if (xk == 1) x = ref::identity(Dz); if (xk == 2) x = ref::sqn(x, 20, Dz); B xs = enc(x, Dz); if (xk == 3) xs[50] ^= 0x55; if (xk == 4) xs[0] |= 0x80; B db = (-D).to_bytes();
        for (uint64_t t = 1; t <= (C.thorough() ? 400 : 120); t += bits >= 512 ? 7 : 1) { C.states++; C.transitions++; B exp; bool ok = true; try { form f = DeserializeForm(D, xs.data(), xs.size()); exp = ProveSlow(D, f, t, ""); } catch (std::exception &) { ok = false; }
            uint8_t *sp = gs->put(seed), *xp = gx->put(xs); std::string ctx = fmt("prove_wrapper %d bits seed#%d x#%d t=%llu", bits, si, xk, (unsigned long long)t); live.clear(); bad_free = 0; track = true; ByteArray a = prove_wrapper(sp, seed.size(), xp, xs.size(), bits, t); track = false;
            if (ok) { C.nontrivial++; if (!a.data || a.length != exp.size() || memcmp(a.data, exp.data(), exp.size())) { viol("prove-value", ctx + " differs from the C++ proof"); continue; }
                if (!live.count(a.data)) viol("prove-ownership", ctx + ": the returned buffer is not a live allocation"); else if (live[a.data] < a.length) viol("prove-ownership", ctx + ": the returned buffer is smaller than its length");
                track = true; delete_byte_array(a); track = false; if (live.count(a.data)) viol("free-missing", ctx + ": delete_byte_array does not release the buffer"); if (bad_free) viol("free-twice", ctx + ": something not live was released");
                // verdicts of the C and C++ verifiers on this proof and on its neighbours
                for (int dv = 0; dv < 8; dv++) { B blob = exp, d = db; uint64_t tt = t, dep = 0; B x2 = xs; if (dv == 1) tt++; if (dv == 2) blob[3] ^= 1; if (dv == 3) blob[150] ^= 4; if (dv == 4) dep = 1; if (dv == 5) blob.pop_back(); if (dv == 6) d[d.size() - 1] ^= 8; if (dv == 7) d.insert(d.begin(), 0);
                    integer D2; mpz_import(D2.impl, d.size(), 1, 1, 1, 0, d.data()); D2 = -D2; int w; try { w = CheckProofOfTimeNWesolowski(D2, x2.data(), blob.data(), blob.size(), tt, d.size() * 8, dep); } catch (std::exception &) { w = 0; }
                    int g = verify_n_wesolowski_wrapper(gs->put(d), d.size(), gx->put(x2), gb->put(blob), blob.size(), tt, dep); C.transitions++; if (g != w) viol("verify-verdict", ctx + fmt(" deviation %d: C says %d, C++ says %d", dv, g, w)); if (dv == 0 && !g) viol("verify-verdict", ctx + " honest proof refused"); C.extra[g ? "accepted" : "rejected"]++; }
            } else { if (a.data || a.length) viol("prove-failure", ctx + " should be empty"); track = true; delete_byte_array(a); track = false; if (bad_free) viol("free-twice", ctx); C.extra["prove_refused"]++; }
            live.clear(); } }
}
static void c28_verify() { // multi-segment blobs through both interfaces
    for (int bits : {64, 256, 1024}) { Proofs P = mkproofs(bits, 11); Z m = -P.D; B d(bits / 8); mpz_export(d.data(), 0, 1, 1, 1, 0, m.get_mpz_t());
        int bi = 0; for (B *bp : {&P.p0, &P.p1, &P.p2}) { B base = *bp; int depth = bi++; int step = bits == 1024 ? 3 : 1;
            for (size_t pos = 0; pos < base.size(); pos += step) { if (!next()) continue; C.traces++; C.nontrivial++; for (int w = 0; w < (bits == 64 ? 8 : 2); w++) { B b = base; b[pos] ^= 1 << (w * 3 % 8 + (bits == 64 ? 0 : (pos % 3))); integer D = toI(P.D); int e; try { e = CheckProofOfTimeNWesolowski(D, P.xs.data(), b.data(), b.size(), 11, bits, depth); } catch (std::exception &) { e = 0; } int g = verify_n_wesolowski_wrapper(gs->put(d), d.size(), gx->put(P.xs), gb->put(b), b.size(), 11, depth); C.states++; C.transitions++; if (g != e) viol("verify-verdict", fmt("%d bits depth %d byte %zu: C says %d, C++ says %d", bits, depth, pos, g, e)); C.extra[g ? "accepted" : "rejected"]++; } }
            if (next()) for (uint64_t t : {0ull, 1ull, 4ull, 7ull, 10ull, 11ull, 12ull, (1ull << 32) + 11, (1ull << 63) + 11, ~0ull}) for (uint64_t dep : {0ull, 1ull, 2ull, 3ull, (1ull << 32) + depth, ~0ull}) { integer D = toI(P.D); int e; try { e = CheckProofOfTimeNWesolowski(D, P.xs.data(), base.data(), base.size(), t, bits, dep); } catch (std::exception &) { e = 0; } int g = verify_n_wesolowski_wrapper(gs->put(d), d.size(), gx->put(P.xs), gb->put(base), base.size(), t, dep); C.states++; C.transitions++; if (g != e || g != (t == 11 && dep == depth)) viol("verify-verdict", fmt("%d bits depth %d called with t=%llu depth=%llu: C says %d, C++ says %d", bits, depth, (unsigned long long)t, (unsigned long long)dep, g, e)); } } }
}
int main(int argc, char **argv) {
    init(argc, argv); struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl); gx = new Guard(4096); gb = new Guard(4096); gs = new Guard(4096); go = new Guard(4096);
    if (C.mode == "verify") c10_verify(); else if (C.mode == "disc") c10_disc(); else if (C.mode == "c") c10_c(); else if (C.mode == "c28disc") c28_disc(); else if (C.mode == "c28prove") c28_prove(); else if (C.mode == "c28verify") c28_verify(); else return 3;
    return finish();
}
