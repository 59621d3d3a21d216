// C06: the compressed form codec.
#include "group_ops.h"
#include "ref_codec.h"
using namespace vh;
typedef std::vector<uint8_t> B;
static std::string hx(const uint8_t *b, int n = 100) { std::string r; int m = n; while (m > 1 && b[m-1] == 0) m--; for (int i = 0; i < m; i++) r += fmt("%02x", b[i]); if (m < n) r += fmt("(+%d zero bytes)", n - m); return r; }
static int raw(const integer &D, const uint8_t *s, size_t n, bool strict, Z &a, Z &b) { integer x, y; int r = bqfc_deserialize(x.impl, y.impl, D.impl, s, n, D.num_bits(), strict); a = toZ(x); b = toZ(y); return r; }
// guarded buffer: 100 bytes ending at an inaccessible page
static uint8_t *guard_end() { static uint8_t *p = nullptr; if (!p) { p = (uint8_t *)mmap(0, 12288, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p, 4096, PROT_NONE); mprotect(p + 8192, 4096, PROT_NONE); p += 8192; } return p; }
static void roundtrip(const integer &D, const F &f, bool expect_ok = true) {
    C.states++; C.transitions++; int db = D.num_bits(); form x = mkform(f);
    std::vector<unsigned char> s = SerializeForm(x, db); std::string ctx = "D=" + toZ(D).get_str() + " f=" + ref::str(f) + " bytes " + hx(s.data());
    if (s.size() != 100) { viol("size", ctx + fmt(" has %zu bytes", s.size())); return; }
    B e = ref::encode(f, db); if (memcmp(e.data(), s.data(), 100)) viol("layout", ctx + " differs from the published layout " + hx(e.data()));
    memset(guard_end() - 100, 0xAA, 100); if (bqfc_serialize(guard_end() - 100, x.a.impl, x.b.impl, db)) viol("serialize-fail", ctx); else if (memcmp(guard_end() - 100, s.data(), 100)) viol("serialize-stale", ctx + " leaves bytes of the buffer unwritten");
    for (int strict = 0; strict < 2; strict++) {
        try { form r = DeserializeForm(D, guard_end() - 100, 100, strict); if (!(toF(r) == f)) viol("roundtrip", ctx + " decodes to " + ref::str(toF(r))); }
        catch (std::exception &ex) { viol("roundtrip", ctx + fmt(" strict=%d refuses its own encoding: ", strict) + ex.what()); }
    }
}
static void small() {
    for (uint64_t p : small_ps(7, C.thorough() ? 120000 : 20000)) {
        if (!next()) continue; Z D = -Z((unsigned long)p); integer Di = toI(D); C.traces++; C.nontrivial++; std::set<B> seen;
        auto cls = ref::all_reduced(D); for (auto &f : cls) { roundtrip(Di, f); form x = mkform(f); auto s = SerializeForm(x, Di.num_bits()); if (!seen.insert(B(s.begin(), s.end())).second) viol("injective", "two forms share an encoding D=" + D.get_str()); }
    }
}
static void big() { // every size class: many forms, also forms with a composed of square factors so that g > 1
    for (int bits = 8; bits <= 1024; bits += (C.thorough() ? 3 : (bits < 80 ? 1 : 13))) for (int k = 0; k < 3; k++) {
        if (k == 2 && bits < 16) continue;
        if (!next()) continue; Z D = -big_p(bits, k); if (k == 1 || k == 0) { if (mpz_sizeinbase(D.get_mpz_t(), 2) != (size_t)bits) continue; }
        integer Di = toI(D); C.traces++; C.nontrivial++;
        F g = ref::mk(2, 1, D); ref::reduce(g, D); F f = g; F pf = prime_form(D, 3); ref::reduce(pf, D); F h = pf;
        roundtrip(Di, ref::identity(D));
        // forms with small a = 2^i (t small, g large) and inverses, products with prime forms
        F p2 = ref::identity(D); for (int i = 0; i < bits / 2; i++) { roundtrip(Di, p2); roundtrip(Di, ref::inverse(p2, D)); F q = ref::compose(p2, pf, D); roundtrip(Di, q); roundtrip(Di, ref::inverse(q, D)); p2 = ref::compose(p2, g, D); }
        F p3 = pf; for (int i = 0; i < bits / 4; i++) { roundtrip(Di, p3); p3 = ref::compose(p3, pf, D); }
        int N = C.thorough() ? 400 : 60; F x = ref::sqn(g, bits, D);
        for (int i = 0; i < N; i++) { roundtrip(Di, x); roundtrip(Di, ref::inverse(x, D)); x = ref::square(x, D); }
        // forms (a,b) with structured a: small prime powers found by search on b
        long cnt = 0; for (long a = 3; a < 2000 && cnt < 300; a++) { Z A = a; if (4 * A * A > -D) break; for (Z b = 1; b <= A; b += 2) if (ref::fmod(b * b - D, 4 * A) == 0) { F ff = ref::mk(A, b, D); if (!ref::reduced(ff) || gcd(gcd(ff.a, ff.b), ff.c) != 1) continue; roundtrip(Di, ff); roundtrip(Di, ref::inverse(ff, D)); cnt++; } }
    }
}
// a byte string: accepted or not, by both modes, by raw and by form-level entry points
static void judge_bytes(const integer &D, const uint8_t *s, int maybe = 0) {
    C.states++; C.transitions++; int db = D.num_bits(); Z Dz = toZ(D); memcpy(guard_end() - 100, s, 100); const uint8_t *g = guard_end() - 100;
    bool flagged = s[0] & 12; F want; bool canon = ref::decode_strict(s, Dz, db, want);
    auto ctx = [&] { return "D=" + Dz.get_str() + " bytes " + hx(s); };
    // strict
    bool acc = false; F got; try { form f = DeserializeForm(D, g, 100, true); acc = true; got = toF(f); } catch (std::exception &) {}
    if (flagged) { F w = ref::mk(s[0] & 8 ? 2 : 1, 1, Dz); ref::reduce(w, Dz); if (acc && !canon) viol("strict-accepts-noncanonical", ctx() + " (flagged) accepted"); if (acc && !(got == w)) viol("flagged", ctx() + " decodes to " + ref::str(got)); if (!acc && canon) viol("strict-refuses", ctx()); }
    else {
        if (acc && !canon) viol("strict-accepts-noncanonical", ctx() + " is accepted by strict deserialization and decodes to " + ref::str(got) + " whose encoding is " + hx(ref::encode(got, db).data()));
        if (acc && canon && !(got == want)) viol("strict-value", ctx() + " decodes to " + ref::str(got) + " expected " + ref::str(want));
        if (!acc && canon) viol("strict-refuses", ctx() + " is the canonical encoding of " + ref::str(want) + " and is refused");
    }
    if (acc) C.extra["accepted_strict"]++;
    // lenient, raw level: whatever is accepted re-serializes to the same bytes
    Z a, b; if (raw(D, g, 100, false, a, b) == 0) {
        C.extra["accepted_lenient"]++;
        if (!flagged) { uint8_t o[100]; integer ai = toI(a), bi = toI(b); if (bqfc_serialize(o, ai.impl, bi.impl, db) || memcmp(o, s, 100)) viol("lenient-reserialize", ctx() + " decodes to (" + a.get_str() + "," + b.get_str() + ") which encodes differently"); }
        Z ra, rb; if (!ref::decode_raw(s, Dz, db, ra, rb) || ra != a || rb != b) viol("lenient-value", ctx() + " decodes to (" + a.get_str() + "," + b.get_str() + ")");
    } else if (canon) viol("lenient-refuses", ctx() + " canonical encoding refused");
    try { form f = DeserializeForm(D, g, 100, false); F h = toF(f); if (!ref::reduced(h) || !ref::valid(h, Dz)) viol("lenient-form", ctx() + " yields " + ref::str(h)); } catch (std::exception &) { if (canon) viol("lenient-refuses", ctx()); }
}
static void bytes_small() { // all byte strings of the smallest layout (a 2 bytes, t 1, g 1, b0 1)
    std::vector<uint64_t> ps{7, 23, 31, 47, 71, 79, 103, 127, 151, 191, 1999, 65519}; if (C.thorough()) for (uint64_t p : {4294967291ull, 2147483647ull, 16777183ull, 1048447ull, 3327ull, 887ull}) if (p % 8 == 7 && ref::is_prime(Z((unsigned long)p))) ps.push_back(p);
    for (uint64_t p : ps) { integer Di = toI(-Z((unsigned long)p)); int amax = p < 300 ? 40 : p < 5000 ? 64 : 160; if (C.thorough()) amax *= 4;
        for (int a = 0; a <= amax; a++) { if (!next()) continue; C.traces++; C.nontrivial++;
            uint8_t s[100]; int gm = C.thorough() ? 24 : 9, bm = C.thorough() ? 40 : 12; int tm = C.thorough() ? 256 : 64;
            for (int fl = 0; fl < 4; fl++) for (int t = 0; t < tm; t++) for (int g = 0; g < gm; g++) for (int b0 = 0; b0 < bm; b0++) { memset(s, 0, 100); s[0] = fl; s[2] = a; s[4] = t; s[5] = g; s[6] = b0; judge_bytes(Di, s); } }
        for (int fl = 4; fl < 256; fl += 1) { if (!next()) continue; uint8_t s[100]; memset(s, 0, 100); s[0] = fl; judge_bytes(Di, s); for (int i = 1; i < 100; i++) for (int v : {1, 2, 0xff}) { memset(s, 0, 100); s[0] = fl; s[i] = v; judge_bytes(Di, s); } }
    }
}
static void bytes_dev() { // every single-byte substitution and selected field deviations of valid encodings, all sizes
    std::vector<int> bs{16, 31, 32, 33, 63, 64, 65, 96, 128, 129, 160, 256, 512, 1024};
    for (int bits : bs) for (int k = 0; k < 2; k++) { Z D = -big_p(bits, k + 2); integer Di = toI(D); F g = ref::mk(2, 1, D); ref::reduce(g, D); F x = g;
        for (int j = 0; j < 6; j++) {
            F f = j == 0 ? ref::identity(D) : j == 1 ? g : j == 2 ? ref::sqn(g, 2, D) : j == 3 ? ref::inverse(ref::sqn(g, bits / 3, D), D) : j == 4 ? ref::compose(ref::pow(prime_form(D, 3), 4, D), ref::pow(g, bits / 8 + 1, D), D) : ref::sqn(g, bits + 5, D);
            B e = ref::encode(f, bits); int used = std::min(100, (int)((bits + 31) / 32 * 3 + 4));
            for (int i = 0; i < 100; i++) { if (!next()) continue; C.traces++; C.nontrivial++;
                bool all = C.thorough() || i < 6 || i >= used - 8 && i < used + 1; uint8_t s[100];
                for (int v = 0; v < 256; v += (all ? 1 : 17)) { memcpy(s, e.data(), 100); s[i] = s[i] ^ v; judge_bytes(Di, s); }
                // g and b0 moved together / g_size changes
                if (i == 1) for (int gs = 0; gs < used; gs++) { memcpy(s, e.data(), 100); s[1] = gs; judge_bytes(Di, s); }
                if (i == 0) { // t=0 encodings of (a,a): every a of the small range
                    for (int a = 0; a < 256; a++) { memset(s, 0, 100); s[2] = a; judge_bytes(Di, s); memset(s, 0, 100); s[2] = a; s[0] = 1; judge_bytes(Di, s); } }
            } } }
}
static void sizes() { // other lengths and out-of-range discriminant sizes are refused, no access outside the buffer
    Z D = -big_p(256, 2); integer Di = toI(D); F g = ref::sqn(ref::mk(2, 1, D), 300, D); B e = ref::encode(g, 256);
    for (int n = 0; n <= 300; n++) { if (!next()) continue; C.states++; C.transitions++; C.traces++; uint8_t *p = guard_end() - std::min(n, 4000); for (int i = 0; i < n; i++) p[i] = i < 100 ? e[i] : 0; Z a, b;
        bool acc; if (n == 100) continue; acc = raw(Di, p, n, false, a, b) == 0; if (acc) viol("length", fmt("length %d accepted", n)); acc = raw(Di, p, n, true, a, b) == 0; if (acc) viol("length", fmt("length %d accepted (strict)", n));
        for (int st = 0; st < 2; st++) { bool th = false; try { DeserializeForm(Di, p, n, st); } catch (std::exception &) { th = true; } if (!th) viol("length", fmt("length %d accepted by DeserializeForm", n)); } }
    std::vector<size_t> dbs; for (size_t d = 1000; d < 1200; d++) dbs.push_back(d); for (size_t d : {(size_t)0, (size_t)2048, (size_t)4096, (size_t)65536, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 256, ~(size_t)0, ~(size_t)30}) dbs.push_back(d);
    for (size_t db : dbs) { if (!next()) continue; C.states++; C.transitions++; C.traces++; memcpy(guard_end() - 100, e.data(), 100); integer x, y; bool bad = db == 0 || db > 1024;
        int r = bqfc_deserialize(x.impl, y.impl, Di.impl, guard_end() - 100, 100, db, false); if (bad && !r) viol("dbits", fmt("d_bits %zu accepted", db));
        form f = mkform(g); uint8_t *o = guard_end() - 100; memset(o, 0x5A, 100); r = bqfc_serialize(o, f.a.impl, f.b.impl, db); if (bad && !r) viol("dbits", fmt("serialize with d_bits %zu accepted", db)); if (bad) for (int i = 0; i < 100; i++) if (o[i] != 0x5A) { viol("dbits-write", fmt("serialize with d_bits %zu wrote", db)); break; }
        int sz = bqfc_get_compr_size(db); if (bad ? sz > 0 : sz != (int)((db + 31) / 32 * 3 + 4)) viol("compr-size", fmt("bqfc_get_compr_size(%zu)=%d", db, sz)); }
    // forms too large for the announced size are refused and nothing is written past the buffer
    for (int db = 1; db <= 1024; db += 7) for (int big : {33, 64, 128, 256, 512, 1024}) { if (!next()) continue; C.states++; C.transitions++; Z D2 = -big_p(big, 2); F f2 = ref::sqn(ref::mk(2, 1, D2), 2 * big, D2); form f = mkform(f2); uint8_t *o = guard_end() - 100; memset(o, 0, 100); int r = bqfc_serialize(o, f.a.impl, f.b.impl, db); if (r == 0) { B e2 = ref::encode(f2, db); if (memcmp(e2.data(), o, 100)) viol("oversize", fmt("form of a %d-bit discriminant encoded wrongly for %d bits", big, db)); } }
}
int main(int argc, char **argv) {
    init(argc, argv); const std::string &m = C.mode;
    if (m == "small") small(); else if (m == "big") big(); else if (m == "bytes") bytes_small(); else if (m == "dev") bytes_dev(); else if (m == "sizes") sizes(); else return 3;
    return finish();
}
