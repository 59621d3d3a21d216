// C32: the Rust interface. The tree's lib.rs is compiled into a static library and linked here; every slice ends at an
// inaccessible page, the oracle is the independent reference, allocations made by the C++ side must be released.
#include "group_ops.h"
#include "ref_verify.h"
#include "c_bindings/c_wrapper.cpp"
#include <sys/resource.h>
using namespace vh;
typedef std::vector<uint8_t> B;
extern "C" int rs_create_discriminant(const uint8_t *, size_t, uint8_t *, size_t);
extern "C" int rs_verify(const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint64_t);
extern "C" int rs_prove(const uint8_t *, size_t, const uint8_t *, size_t, size_t, uint64_t, uint8_t *, size_t, size_t *);
struct Guard { uint8_t *end; size_t cap;
    Guard(size_t c) { cap = (c + 4095) & ~4095ull; uint8_t *b = (uint8_t *)mmap(0, cap + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(b, 4096, PROT_NONE); mprotect(b + 4096 + cap, 4096, PROT_NONE); end = b + 4096 + cap; }
    uint8_t *put(const B &b) { mprotect(end - cap, cap, PROT_READ | PROT_WRITE); if (b.size() > cap) abort(); memset(end - cap, 0x5a, cap); if (b.size()) memcpy(end - b.size(), b.data(), b.size()); mprotect(end - cap, cap, PROT_READ); return end - b.size(); }
    uint8_t *out(size_t n) { mprotect(end - cap, cap, PROT_READ | PROT_WRITE); memset(end - cap, 0x5a, cap); return end - n; }
    bool before_ok(size_t n) { for (uint8_t *p = end - cap; p < end - n; p++) if (*p != 0x5a) return false; return true; } };
static Guard *gd, *gx, *gb, *gs, *go;
static std::map<void *, size_t> live; static bool track = false; static uint64_t bad_free = 0;
static void *talloc(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (track) { track = false; live[p] = n; track = true; } return p; }
static void tfree(void *p) noexcept { if (!p) return; if (track) { track = false; auto i = live.find(p); if (i == live.end()) bad_free++; else live.erase(i); track = true; } free(p); }
void *operator new(size_t n) { return talloc(n); }
void *operator new[](size_t n) { return talloc(n); }
void operator delete(void *p) noexcept { tfree(p); }
void operator delete[](void *p) noexcept { tfree(p); }
void operator delete(void *p, size_t) noexcept { tfree(p); }
void operator delete[](void *p, size_t) noexcept { tfree(p); }
static std::string hx(const B &b, size_t n = 8) { std::string r; for (size_t i = 0; i < b.size() && i < n; i++) r += fmt("%02x", b[i]); return r; }
static B rep(uint8_t c, size_t n) { return B(n, c); }
static B enc(const F &f, const Z &D) { return ref::encode(f, mpz_sizeinbase(D.get_mpz_t(), 2)); }
static B mag(const Z &D) { B b; Z m = abs(D); b.resize(m == 0 ? 0 : (mpz_sizeinbase(m.get_mpz_t(), 2) + 7) / 8); if (b.size()) mpz_export(b.data(), 0, 1, 1, 1, 0, m.get_mpz_t()); return b; }
static const B seedv{0xde, 0xad, 0xbe, 0xef};
struct Proofs { Z D; F x, y; B xs, d, p[3]; uint64_t t; };
static Proofs mk(int bits) { Proofs p; p.t = 11; p.D = ref::create_discriminant(seedv, bits); p.d = mag(p.D); p.x = ref::mk(2, 1, p.D); ref::reduce(p.x, p.D); p.xs = enc(p.x, p.D); p.y = ref::sqn(p.x, 11, p.D);
    auto cat = [&](const F &y, const F &pi) { B o = enc(y, p.D), q = enc(pi, p.D); o.insert(o.end(), q.begin(), q.end()); return o; }; auto seg = [&](B &o, const F &a, const F &b, uint64_t n) { ref::put_be64(o, n); ref::put_be(o, ref::challenge(a, b, p.D), 33); B e = enc(ref::prove(p.D, a, b, n), p.D); o.insert(o.end(), e.begin(), e.end()); };
    F m = ref::sqn(p.x, 4, p.D), m2 = ref::sqn(m, 3, p.D); p.p[0] = cat(p.y, ref::prove(p.D, p.x, p.y, 11)); p.p[1] = cat(p.y, ref::prove(p.D, m, p.y, 7)); seg(p.p[1], p.x, m, 4); p.p[2] = cat(p.y, ref::prove(p.D, m2, p.y, 4)); seg(p.p[2], m, m2, 3); seg(p.p[2], p.x, m, 4); return p; }
static void ver(const B &d, const B &x, const B &b, uint64_t t, uint64_t dep, const std::string &ctx) {
    Z m; if (d.size()) mpz_import(m.get_mpz_t(), d.size(), 1, 1, 1, 0, d.data()); Z D = -m; bool w = D < 0 && d.size() <= 128 && x.size() == 100 && ref::verify(D, x.data(), b.data(), b.size(), t, dep);
    uint8_t *pd = gd->put(d), *px = gx->put(x), *pb = gb->put(b); C.states++; C.transitions++; alarm(60); int g = rs_verify(pd, d.size(), px, x.size(), pb, b.size(), t, dep); alarm(0); C.extra[g == 1 ? "accepted" : "rejected"]++;
    if (g != (int)w) viol("rust-verify", ctx + fmt(": discriminant %zu bytes, x %zu bytes, proof %zu bytes, t=%llu, recursion %llu: returned %d, must be %d", d.size(), x.size(), b.size(), (unsigned long long)t, (unsigned long long)dep, g, w)); }
static void m_verify() {
    for (int bits : {64, 256, 512, 1024}) { Proofs P = mk(bits); for (int dep = 0; dep < 3; dep++) { const B &b = P.p[dep]; auto ctx = fmt("%d bits depth %d ", bits, dep);
            for (size_t n = 0; n <= 220; n++) { if (!next()) continue; C.traces++; C.nontrivial++; B x = P.xs; x.resize(n, 0); ver(P.d, x, b, 11, dep, ctx + "x length"); ver(P.d, rep(0, n), b, 11, dep, ctx + "zero x"); ver(P.d, rep(0xff, n), b, 11, dep, ctx + "ff x"); }
            for (size_t n = 0; n <= b.size() + 150; n++) { if (!next()) continue; C.traces++; B c = b; c.resize(n, 0); for (uint64_t q : {0ull, 1ull, 2ull, 3ull, ~0ull, ~0ull / 141}) ver(P.d, P.xs, c, 11, q, ctx + "proof length"); }
            for (size_t n = 0; n <= 140; n++) { if (!next()) continue; C.traces++; B d = P.d; if (n < d.size()) d = B(d.end() - n, d.end()); else d.insert(d.begin(), n - d.size(), 0); ver(d, P.xs, b, 11, dep, ctx + "discriminant padded"); d = P.d; d.resize(n, 0xff); ver(d, P.xs, b, 11, dep, ctx + "discriminant resized"); ver(rep(0xff, n), P.xs, b, 11, dep, ctx + "ff discriminant"); ver(rep(0, n), P.xs, b, 11, dep, ctx + "zero discriminant"); }
            for (size_t pos = 0; pos < b.size(); pos++) { if (!next()) continue; C.traces++; for (int w = 0; w < (C.thorough() ? 8 : bits <= 256 ? 4 : 1); w++) { B c = b; c[pos] ^= 1 << ((pos + 2 * w) % 8); ver(P.d, P.xs, c, 11, dep, ctx + fmt("proof byte %zu", pos)); } }
            for (size_t pos = 0; pos < 100; pos++) { if (!next()) continue; C.traces++; B c = P.xs; c[pos] ^= 1 << (pos % 8); ver(P.d, c, b, 11, dep, ctx + fmt("x byte %zu", pos)); }
            for (size_t pos = 0; pos < P.d.size(); pos++) { if (!next()) continue; C.traces++; B c = P.d; c[pos] ^= 1 << (pos % 8); ver(c, P.xs, b, 11, dep, ctx + fmt("discriminant byte %zu", pos)); }
            if (next()) { C.traces++; for (uint64_t t : {0ull, 1ull, 4ull, 7ull, 10ull, 11ull, 12ull, (1ull << 32) + 11, (1ull << 63) + 11, ~0ull}) for (uint64_t q : {0ull, 1ull, 2ull, 3ull, (1ull << 32) + dep, 1ull << 63, ~0ull}) ver(P.d, P.xs, b, t, q, ctx + "counts"); } } } }
static void m_disc() {
    std::vector<B> seeds{B(), rep(0, 32), rep(0xff, 300), seedv}; for (int i = 0; i < (C.thorough() ? 128 : 24); i++) seeds.push_back(B{(uint8_t)(i * 37), (uint8_t)i, 0, 1}); for (int n = 3; n <= 64; n += 6) seeds.push_back(rep(n, n));
    for (auto &s : seeds) for (size_t m = 0; m <= 140; m += m < 32 || (m > 120 && m < 136) ? 1 : 8) { if (!next()) continue; C.traces++; C.states++; C.transitions++; uint8_t *ps = gs->put(s), *o = go->out(m); B init(o, o + m); alarm(60); int r = rs_create_discriminant(ps, s.size(), o, m); alarm(0); bool good = s.size() && m && m <= 128; std::string ctx = "create_discriminant seed=" + hx(s, 16) + fmt(" (%zu bytes), result of %zu bytes", s.size(), m);
            if (r < 0) viol("rust-panic", ctx); if (r == 1 && !good) viol("rust-disc-accepts", ctx); if (r == 0 && good && m >= 8) viol("rust-disc-refuses", ctx); if (!go->before_ok(m)) viol("rust-disc-writes", ctx); if (r == 0 && memcmp(o, init.data(), m)) viol("rust-disc-writes", ctx + " on failure");
            if (r == 1 && good && m >= 2) { C.nontrivial++; B e = mag(ref::create_discriminant(s, m * 8)); if (e.size() != m || memcmp(e.data(), o, m)) viol("rust-disc-value", ctx); } } }
static void m_prove() {
    B out(4096); for (int bits : {64, 256, 512, 1024}) for (int si = 0; si < 3; si++) for (int xk = 0; xk < 5; xk++) { B seed{(uint8_t)si, 1, 2, (uint8_t)bits}; if (si == 2) seed.clear();
        for (uint64_t blk = 0; blk < (C.thorough() ? 40u : 10u); blk++) { if (!next()) continue; C.traces++; Z D; F x; B xs; if (si < 2) { D = ref::create_discriminant(seed, bits); x = ref::mk(2, 1, D); ref::reduce(x, D); if (xk == 1) x = ref::identity(D); if (xk == 2) x = ref::sqn(x, 20, D); xs = enc(x, D); } else xs = rep(8, 100); if (xk == 3) xs[50] ^= 0x55; if (xk == 4) xs.resize((blk * 53) % 201, 0); bool good = si < 2 && xs.size() == 100 && ref::decode_consensus(xs.data(), D, x);
            F y = good ? ref::sqn(x, blk * 12, D) : F(); for (uint64_t t = blk * 12; t < blk * 12 + 12; t += bits >= 512 ? 5 : 1) { if (!t) continue; C.states++; C.transitions++; uint8_t *ps = gs->put(seed), *px = gx->put(xs); size_t len = 0; live.clear(); bad_free = 0; alarm(60); track = true; int r = rs_prove(ps, seed.size(), px, xs.size(), bits, t, out.data(), out.size(), &len); track = false; alarm(0); std::string ctx = fmt("prove %d bits seed#%d x#%d (%zu bytes) t=%llu", bits, si, xk, xs.size(), (unsigned long long)t);
                if (r != (int)good) { viol("rust-prove-verdict", ctx + fmt(": %d, must be %d", r, good)); continue; } size_t n = 0; for (auto &l : live) if (l.second == 200) n++; if (n) viol("rust-prove-leak", ctx + ": the result buffer is not released"); if (bad_free) viol("rust-prove-free", ctx + ": something not allocated was released"); if (!good) continue; C.nontrivial++;
                F yt = ref::sqn(y, t - blk * 12, D); B e = enc(yt, D), p = enc(ref::prove(D, x, yt, t), D); e.insert(e.end(), p.begin(), p.end()); if (len != e.size() || memcmp(e.data(), out.data(), len)) viol("rust-prove-value", ctx + fmt(" (%zu bytes)", len)); else ver(mag(D), xs, e, t, 0, "round trip " + ctx); } }
    }
    for (size_t bits : {(size_t)0, (size_t)7, (size_t)1025, (size_t)1032, ((size_t)1 << 32) + 256, (size_t)1 << 63, (size_t)-1}) if (next()) { size_t len; Proofs P = mk(256); C.transitions++; if (rs_prove(gs->put(seedv), 4, gx->put(P.xs), 100, bits, 5, out.data(), 4096, &len)) viol("rust-prove-verdict", fmt("size %zu accepted", bits)); }
}
int main(int argc, char **argv) {
    init(argc, argv); struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl); gd = new Guard(4096); gx = new Guard(4096); gb = new Guard(4096); gs = new Guard(4096); go = new Guard(4096);
    if (C.mode == "verify") m_verify(); else if (C.mode == "disc") m_disc(); else if (C.mode == "prove") m_prove(); else return 3;
    return finish();
}
