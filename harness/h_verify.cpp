// C07 completeness, C08 soundness of the plain verifier, C09 multi-segment proofs.
#include "group_ops.h"
#include "ref_verify.h"
#include "prover_slow.h"
using namespace vh;
typedef std::vector<uint8_t> B;
static int dbits(const Z &D) { return mpz_sizeinbase(D.get_mpz_t(), 2); }
// the library's verdict; exceptions (undecodable forms) are rejections
static int lib(const Z &D, const uint8_t *xs, const B &blob, uint64_t it, uint64_t depth, std::string *why = nullptr) {
    try { return CheckProofOfTimeNWesolowski(toI(D), xs, blob.data(), blob.size(), it, dbits(D), depth); } catch (std::exception &e) { if (why) *why = e.what(); return 0; }
}
static std::string hx(const B &b) { std::string r; for (auto c : b) r += fmt("%02x", c); return r; }
static void same(const Z &D, const B &xs, const B &blob, uint64_t it, uint64_t depth, const char *key, const std::string &what) {
    C.states++; C.transitions++; bool w = ref::verify(D, xs.data(), blob.data(), blob.size(), it, depth); std::string why; int g = lib(D, xs.data(), blob, it, depth, &why);
    if (w) C.extra["accepted"]++; else C.extra["rejected"]++;
    if (g != (int)w) viol(fmt("%s-%s", key, g ? "accepted" : "rejected"), what + fmt(": verifier says %d, reference %d (", g, (int)w) + why + ") D=" + D.get_str() + fmt(" t=%llu depth=%llu x=", (unsigned long long)it, (unsigned long long)depth) + hx(xs) + " blob=" + hx(blob));
}
// ---- C07
static void prove1(const Z &D, const F &x, const F &y, uint64_t t, bool refv) {
    C.states++; C.transitions++; integer Di = toI(D); form xi = mkform(x); B r; std::string ctx = fmt("%d-bit D=", dbits(D)) + D.get_str() + " x=" + ref::str(x) + fmt(" t=%llu", (unsigned long long)t);
    try { r = ProveSlow(Di, xi, t, ""); } catch (std::exception &e) { viol("prove-throws", ctx + ": " + e.what()); return; }
    if (r.size() != 200) { viol("prove-size", ctx + fmt(": %zu bytes", r.size())); return; }
    B ey = ref::encode(y, dbits(D)); if (memcmp(ey.data(), r.data(), 100)) viol("prove-output", ctx + " output is not x^(2^t)");
    B xs = ref::encode(x, dbits(D)); std::string why; if (!lib(D, xs.data(), r, t, 0, &why)) viol("honest-rejected", ctx + " honest proof rejected: " + why);
    if (refv && !ref::verify(D, xs.data(), r.data(), r.size(), t, 0)) viol("honest-invalid", ctx + " proof does not satisfy the Wesolowski equation");
}
static void complete() {
    struct Cfg { int bits; uint64_t hi; }; std::vector<Cfg> cf = C.thorough() ? std::vector<Cfg>{{24, 6000}, {64, 20000}, {128, 6000}, {256, 4000}, {512, 2000}, {1024, 2500}} : std::vector<Cfg>{{24, 1500}, {64, 3000}, {128, 1200}, {256, 700}, {512, 300}, {1024, 300}};
    for (auto c : cf) for (int st = 0; st < 3; st++) {
        Z D = ref::create_discriminant(B{(uint8_t)c.bits, (uint8_t)st, 7, 9}, c.bits); if (c.bits == 24) D = -big_p(24, st);
        F x = st == 0 ? ref::mk(2, 1, D) : st == 1 ? prime_form(D, 3) : ref::sqn(ref::mk(2, 1, D), 50, D); ref::reduce(x, D);
        F y = x; uint64_t done = 0; int blk = 40;
        for (uint64_t lo = 1; lo <= c.hi; lo += blk) {
            if (!next()) continue; C.traces++; C.nontrivial++;
            for (uint64_t t = lo; t < lo + blk && t <= c.hi; t++) { while (done < t) { y = ref::square(y, D); done++; } prove1(D, x, y, t, c.bits <= 64 || t % 16 == 3); }
        }
        if (st == 0) sample(fmt("%d bits: every t in 1..%llu", c.bits, (unsigned long long)c.hi));
    }
    // the identity, and elements of small order: every t
    for (uint64_t p : {7ull, 23ull, 47ull, 71ull, 167ull, 1439ull}) { if (!next()) continue; Z D = -Z((unsigned long)p); C.traces++; for (auto &x : ref::all_reduced(D)) { F y = x; for (uint64_t t = 1; t <= 60; t++) { y = ref::square(y, D); prove1(D, x, y, t, true); } } }
    // counts around every power of two and around each change of the window size
    for (int bits : {64, 256}) { Z D = ref::create_discriminant(B{1, 2, 3, (uint8_t)bits}, bits); F x = ref::mk(2, 1, D); ref::reduce(x, D);
        for (int e = 11; e <= (bits == 64 ? 17 : 14); e++) for (int d = -2; d <= 2; d++) { if (!next()) continue; C.traces++; C.nontrivial++; uint64_t t = (1ull << e) + d; prove1(D, x, ref::sqn(x, t, D), t, true); } }
    if (C.thorough()) { // beyond 2^23.25 iterations the table count l becomes 10
        for (uint64_t t : {9999999ull, 9999998ull, 10000001ull, 12345678ull}) { if (!next()) continue; Z D = -big_p(32, 2); F x = ref::mk(2, 1, D); ref::reduce(x, D); Grp g(D); form f = mkform(x); for (uint64_t i = 0; i < t; i++) f = g.pul(g.nudupl_alias(f)); prove1(D, x, toF(f), t, true); }
    }
}
// ---- C07 internal block function against exact arithmetic is exercised through the proofs above
// ---- C08
static void groups() { // whole small class groups: every x, y, proof, t
    int hmax = C.thorough() ? 25 : 9; uint64_t tmax = C.thorough() ? 12 : 6; size_t used = 0;
    for (uint64_t p : small_ps(7, 1200)) {
        Z D = -Z((unsigned long)p); auto cls = ref::all_reduced(D); if ((int)cls.size() > hmax) continue; if (++used > (C.thorough() ? 40 : 14)) break; std::vector<B> enc; for (auto &f : cls) enc.push_back(ref::encode(f, dbits(D)));
        for (size_t xi = 0; xi < cls.size(); xi++) { if (!next()) continue; C.traces++; C.nontrivial++;
            for (size_t yi = 0; yi < cls.size(); yi++) { Z Bz = ref::challenge(cls[xi], cls[yi], D);
                for (size_t pi = 0; pi < cls.size(); pi++) { F pb = ref::pow(cls[pi], Bz, D); B blob = enc[yi]; blob.insert(blob.end(), enc[pi].begin(), enc[pi].end());
                    for (uint64_t t = 0; t <= tmax; t++) { C.states++; C.transitions++; bool w = ref::compose(pb, ref::pow(cls[xi], ref::pow2mod(t, Bz), D), D) == cls[yi]; C.extra[w ? "accepted" : "rejected"]++; int g = lib(D, enc[xi].data(), blob, t, 0); if (g != (int)w) viol(g ? "eq-accepted" : "eq-rejected", fmt("D=-%llu x=", (unsigned long long)p) + ref::str(cls[xi]) + " y=" + ref::str(cls[yi]) + " proof=" + ref::str(cls[pi]) + fmt(" t=%llu: verifier says %d", (unsigned long long)t, g)); } } } }
    }
}
struct Inst { Z D; F x, y, pi; uint64_t t; B xs, blob; };
static Inst inst(int bits, int k, uint64_t t) {
    Inst i; i.D = ref::create_discriminant(B{(uint8_t)k, 1, 2, 3, 4}, bits); F g = ref::mk(2, 1, i.D); ref::reduce(g, i.D); i.x = k == 0 ? g : ref::sqn(g, 20 + k, i.D); i.t = t; i.y = ref::sqn(i.x, t, i.D); i.pi = ref::prove(i.D, i.x, i.y, t);
    i.xs = ref::encode(i.x, bits); i.blob = ref::encode(i.y, bits); B e = ref::encode(i.pi, bits); i.blob.insert(i.blob.end(), e.begin(), e.end()); return i;
}
static void bytes1() { // every single-byte substitution of output and proof and x
    struct Cf { int bits; uint64_t t; int step; }; std::vector<Cf> cf{{40, 33, 1}, {64, 100, 1}, {128, 300, C.thorough() ? 1 : 7}, {264, 500, C.thorough() ? 1 : 23}, {1024, 600, C.thorough() ? 3 : 51}};
    for (auto c : cf) for (int k = 0; k < 2; k++) { Inst in; bool have = false;
        for (int pos = 0; pos < 300; pos++) { if (!next()) continue; if (!have) { in = inst(c.bits, k, c.t); have = true; if (!lib(in.D, in.xs.data(), in.blob, in.t, 0)) viol("base", "reference-built proof rejected"); } C.traces++; C.nontrivial++;
            int off = pos % c.step + 1; for (int v = 1; v < 256; v++) { if (c.step > 1 && (v & (v - 1)) && (v - off) % c.step) continue; B bl = in.blob, xs = in.xs; (pos < 200 ? bl[pos] : xs[pos - 200]) ^= v; same(in.D, xs, bl, in.t, 0, "byte", fmt("byte %d ^ %d", pos, v)); } } }
}
static void around() { // iteration windows, other discriminants, other forms, lengths, depths
    for (int bits : {40, 64, 128, 256, 1024}) for (int k = 0; k < 3; k++) { uint64_t t0 = 64 + 13 * k; Inst in; bool have = false; auto get = [&] { if (!have) { in = inst(bits, k, t0); have = true; } };
        for (int d = 0; d < 260; d += (bits == 1024 && !C.thorough() ? 9 : bits > 100 && !C.thorough() ? 3 : 1)) { if (!next()) continue; get(); C.traces++; C.nontrivial++; same(in.D, in.xs, in.blob, d, 0, "iters", "iteration count changed"); }
        for (int e = 8; e < 64; e += 5) for (int d = -1; d < 2; d++) { if (!next()) continue; get(); C.traces++; same(in.D, in.xs, in.blob, (1ull << e) * 1 + in.t + d, 0, "iters", "iteration count changed"); }
        if (next()) { get(); same(in.D, in.xs, in.blob, ~0ull, 0, "iters", "max iterations"); same(in.D, in.xs, in.blob, in.t, 0, "base", "honest"); if (!lib(in.D, in.xs.data(), in.blob, in.t, 0)) viol("base", "honest rejected"); }
        // other class representatives as x / y / proof: near-misses
        for (int j = 0; j < 24; j++) { if (!next()) continue; get(); C.traces++; F g = ref::mk(2, 1, in.D); ref::reduce(g, in.D); F y = in.y, pi = in.pi, x = in.x;
            switch (j % 12) { case 0: y = ref::inverse(y, in.D); break; case 1: pi = ref::inverse(pi, in.D); break; case 2: x = ref::inverse(x, in.D); break; case 3: y = ref::identity(in.D); break; case 4: pi = ref::identity(in.D); break; case 5: x = ref::identity(in.D); break; case 6: y = x; break; case 7: pi = y; break; case 8: y = ref::compose(y, g, in.D); break; case 9: pi = ref::compose(pi, g, in.D); break; case 10: x = g; break; default: y = ref::inverse(y, in.D); pi = ref::inverse(pi, in.D); x = ref::inverse(x, in.D); }
            if (j >= 12) { y = ref::square(y, in.D); }
            B xs = ref::encode(x, bits), bl = ref::encode(y, bits), e = ref::encode(pi, bits); bl.insert(bl.end(), e.begin(), e.end()); same(in.D, xs, bl, in.t, 0, "form", fmt("form substitution %d", j)); }
        // other discriminants
        for (int j = 0; j < 16; j++) { if (!next()) continue; get(); C.traces++; Z D2 = ref::create_discriminant(B{(uint8_t)j, 9, 9}, bits); same(D2, in.xs, in.blob, in.t, 0, "disc", "other discriminant"); F g = ref::mk(2, 1, D2); ref::reduce(g, D2); same(D2, ref::encode(g, bits), in.blob, in.t, 0, "disc", "other discriminant"); }
        // blob lengths and depths
        for (int n = 0; n <= 700; n += (n % 141 > 60 && n % 141 < 56 ? 1 : (bits == 40 ? 1 : 19))) { if (!next()) continue; get(); C.traces++; B bl = in.blob; bl.resize(n, 0); for (uint64_t dep : {0ull, 1ull, 2ull, 3ull, 130824156ull, 1ull << 32, ~0ull, ~0ull / 141, ~0ull / 141 + 1, 130824158ull * 1000000000ull}) same(in.D, in.xs, bl, in.t, dep, "length", fmt("blob length %d", n)); }
        // disc size argument
        if (next()) { get(); C.traces++; for (uint64_t ds : {0ull, 1025ull, 2048ull, 1ull << 32, (1ull << 32) + 256, ~0ull}) { bool g = false; try { g = CheckProofOfTimeNWesolowski(toI(in.D), in.xs.data(), in.blob.data(), 200, in.t, ds, 0); } catch (std::exception &) {} C.states++; C.transitions++; if (g) viol("discsize", fmt("discriminant size %llu accepted", (unsigned long long)ds)); } }
        // CreateDiscriminantAndCheck
        if (next()) { get(); C.traces++; B seed{(uint8_t)k, 1, 2, 3, 4}; auto call = [&](const B &s, uint32_t ds, const B &bl, uint64_t t) { C.states++; C.transitions++; try { return (int)CreateDiscriminantAndCheckProofOfTimeNWesolowski(s, ds, in.xs.data(), bl.data(), bl.size(), t, 0); } catch (std::exception &) { return 0; } };
            if (call(seed, bits, in.blob, in.t) != 1) viol("cdcheck", "honest proof rejected by CreateDiscriminantAndCheck"); B s2 = seed; s2[0] ^= 1; if (call(s2, bits, in.blob, in.t)) viol("cdcheck", "wrong seed accepted"); if (call(seed, bits + 8 > 1024 ? bits - 8 : bits + 8, in.blob, in.t)) viol("cdcheck", "wrong size accepted"); if (call(seed, bits, in.blob, in.t + 1)) viol("cdcheck", "wrong count accepted"); for (uint32_t ds : {0u, 1025u, 4096u, 0xffffffffu, 1032u}) if (call(seed, ds, in.blob, in.t)) viol("cdcheck", "bad size accepted"); } }
}
// ---- C09
struct NW { Z D; F x; std::vector<uint64_t> ts; std::vector<F> xs, ys, pis; std::vector<Z> Bs; uint64_t total; };
static NW mknw(int bits, int k, const std::vector<uint64_t> &ts) {
    NW n; n.D = ref::create_discriminant(B{(uint8_t)k, 5, 6, 7}, bits); n.x = ref::mk(2, 1, n.D); ref::reduce(n.x, n.D); n.x = ref::sqn(n.x, k, n.D); n.ts = ts; n.total = 0; F c = n.x;
    for (auto t : ts) { n.xs.push_back(c); F y = ref::sqn(c, t, n.D); n.ys.push_back(y); n.pis.push_back(ref::prove(n.D, c, y, t)); n.Bs.push_back(ref::challenge(c, y, n.D)); c = y; n.total += t; }
    return n;
}
// segments ts[0..m-2] are listed last-first; the final part is ts[m-1]
static B ser(const NW &n, bool withy, const std::vector<size_t> *order = nullptr) {
    int b = dbits(n.D); B o; size_t m = n.ts.size(); if (withy) { B e = ref::encode(n.ys[m - 1], b); o.insert(o.end(), e.begin(), e.end()); } { B e = ref::encode(n.pis[m - 1], b); o.insert(o.end(), e.begin(), e.end()); }
    for (size_t i = m - 1; i-- > 0;) { size_t j = order ? (*order)[i] : i; ref::put_be64(o, n.ts[j]); ref::put_be(o, n.Bs[j], 33); B e = ref::encode(n.pis[j], b); o.insert(o.end(), e.begin(), e.end()); }
    return o;
}
static void samewb(const NW &n, const Z &Bz, const B &xs, const B &blob, uint64_t it, uint64_t dep, const std::string &what) {
    C.states++; C.transitions++; F y; bool w = ref::verify_with_b(n.D, Bz, xs.data(), blob.data(), blob.size(), it, dep, y); std::pair<bool, B> r{false, {}}; std::string why; try { r = CheckProofOfTimeNWesolowskiWithB(toI(n.D), toI(Bz), xs.data(), blob.data(), blob.size(), it, dep); } catch (std::exception &e) { why = e.what(); }
    if (r.first != w) viol(r.first ? "withb-accepted" : "withb-rejected", what + fmt(" t=%llu depth=%llu ", (unsigned long long)it, (unsigned long long)dep) + why + " D=" + n.D.get_str() + " blob " + hx(blob)); else if (w && r.second != ref::encode(y, dbits(n.D))) viol("withb-output", what + ": returned output is not the verified one"); else if (!w && !r.second.empty()) viol("withb-output", what + ": output returned on failure");
    if (w) C.extra["accepted"]++; else C.extra["rejected"]++;
}
static void devs(const NW &n) {
    int bits = dbits(n.D); B xs = ref::encode(n.x, bits), full = ser(n, true), nob = ser(n, false); uint64_t dep = n.ts.size() - 1; std::string sp = "split"; for (auto t : n.ts) sp += fmt(" %llu", (unsigned long long)t);
    size_t m = n.ts.size(); Z Bl = n.Bs[m - 1];
    if (!lib(n.D, xs.data(), full, n.total, dep)) viol("nweso-honest", sp + " honest proof rejected"); same(n.D, xs, full, n.total, dep, "nweso", sp + " honest");
    samewb(n, Bl, xs, nob, n.total, dep, sp + " honest");
    try { C.states++; C.transitions++; integer b = GetBFromProof(toI(n.D), xs.data(), full.data(), full.size(), n.total, dep); if (toZ(b) != Bl) viol("getbfromproof", sp + " wrong challenge " + b.to_string()); } catch (std::exception &e) { viol("getbfromproof", sp + " throws " + e.what()); }
    auto getb_rejects = [&](const B &bl, uint64_t it, uint64_t d, const char *w) { C.states++; C.transitions++; bool th = false; try { GetBFromProof(toI(n.D), xs.data(), bl.data(), bl.size(), it, d); } catch (std::exception &) { th = true; } if (!th) viol("getbfromproof-accepts", sp + " " + w); };
    // totals, depths, lengths
    for (int64_t d : {-3, -2, -1, 1, 2, 3, 64}) { same(n.D, xs, full, n.total + d, dep, "total", sp); samewb(n, Bl, xs, nob, n.total + d, dep, sp + " total changed"); }
    for (auto t : n.ts) { same(n.D, xs, full, t, dep, "total", sp); same(n.D, xs, full, n.total - t, dep, "total", sp); same(n.D, xs, full, n.total + t, dep, "total", sp); samewb(n, Bl, xs, nob, n.total - t, dep, sp + " total changed"); }
    same(n.D, xs, full, 0, dep, "total", sp); same(n.D, xs, full, ~0ull, dep, "total", sp);
    for (uint64_t d : {0ull, 1ull, 2ull, 3ull, 4ull, 5ull, 1ull << 40, ~0ull}) if (d != dep) { same(n.D, xs, full, n.total, d, "depth", sp); samewb(n, Bl, xs, nob, n.total, d, sp + " depth changed"); getb_rejects(full, n.total, d, "wrong depth"); }
    for (int dl : {-141, -100, -1, 1, 8, 100, 141, 282}) { B b = full; if ((int)b.size() + dl < 0) continue; b.resize(b.size() + dl, 0); same(n.D, xs, b, n.total, dep, "len", sp); same(n.D, xs, b, n.total, dep + (dl == 141) + 2 * (dl == 282) - (dl == -141), "len", sp); if (dl != 0) getb_rejects(b, n.total, dep, "wrong length"); B c = nob; if ((int)c.size() + dl >= 0) { c.resize(c.size() + dl, 0); samewb(n, Bl, xs, c, n.total, dep, sp + " length changed"); } }
    // per-segment counts: single changes, compensated changes, wrap-around
    for (size_t s = 0; s + 1 < m; s++) { size_t off = 200 + (m - 2 - s) * 141; auto setc = [&](B b, size_t o, uint64_t v) { for (int i = 0; i < 8; i++) b[o + i] = v >> (56 - 8 * i); return b; };
        for (uint64_t v : std::vector<uint64_t>{n.ts[s] + 1, n.ts[s] - 1, (uint64_t)0, n.total, n.total + 1, n.ts[s] ^ (1ull << 63), n.ts[s] + (1ull << 32), n.ts[s] + 256, ~0ull, ~n.ts[s] + 1}) { B b = setc(full, off, v); same(n.D, xs, b, n.total, dep, "segcount", sp); same(n.D, xs, b, n.total - n.ts[s] + v, dep, "segcount", sp + " compensated total"); samewb(n, Bl, xs, setc(nob, off - 100, v), n.total, dep, sp + " segment count"); }
        for (size_t s2 = 0; s2 + 1 < m; s2++) if (s2 != s) { size_t o2 = 200 + (m - 2 - s2) * 141; B b = setc(setc(full, off, n.ts[s] + 1), o2, n.ts[s2] - 1); same(n.D, xs, b, n.total, dep, "segcount", sp + " moved one iteration"); b = setc(setc(full, off, n.ts[s2]), o2, n.ts[s]); same(n.D, xs, b, n.total, dep, "segcount", sp + " swapped counts"); }
        if (n.total > n.ts[s]) getb_rejects(setc(full, off, n.total + 1), n.total, dep, "segment count above total");
        for (int i = 0; i < 33; i++) for (int v : {1, 0x80, 0xff}) { B b = full; b[off + 8 + i] ^= v; same(n.D, xs, b, n.total, dep, "segB", sp); if (v == 1) { B c = nob; c[off - 100 + 8 + i] ^= v; samewb(n, Bl, xs, c, n.total, dep, sp + " segment challenge"); } }
        { B b = full; memset(&b[off + 8], 0, 33); same(n.D, xs, b, n.total, dep, "segB0", sp); B c = nob; memset(&c[off - 92], 0, 33); samewb(n, Bl, xs, c, n.total, dep, sp + " zero challenge"); bool th = false; (void)th; try { GetBFromProof(toI(n.D), xs.data(), b.data(), b.size(), n.total, dep); } catch (std::exception &) {} }
        for (int i = 0; i < 100; i += 9) { B b = full; b[off + 41 + i] ^= 1; same(n.D, xs, b, n.total, dep, "segproof", sp); B c = nob; c[off - 100 + 41 + i] ^= 1; samewb(n, Bl, xs, c, n.total, dep, sp + " segment proof"); }
        // proof of another segment / challenge of another segment in this place
        for (size_t s2 = 0; s2 < m; s2++) if (s2 != s) { NW q = n; q.pis[s] = n.pis[s2]; same(n.D, xs, ser(q, true), n.total, dep, "segmix", sp); q = n; q.Bs[s] = n.Bs[s2]; same(n.D, xs, ser(q, true), n.total, dep, "segmix", sp); q = n; std::swap(q.ts[s], q.ts[s2]); std::swap(q.Bs[s], q.Bs[s2]); std::swap(q.pis[s], q.pis[s2]); same(n.D, xs, ser(q, true), n.total, dep, "segmix", sp); }
    }
    for (int i = 0; i < 200; i += 3) { B b = full; b[i] ^= 1; same(n.D, xs, b, n.total, dep, "final", sp); if (i >= 100) { B c = nob; c[i - 100] ^= 1; samewb(n, Bl, xs, c, n.total, dep, sp + " final proof"); } }
    for (const Z &b : {Z(0), Z(1), Z(2), Z(Bl + 2), Z(Bl - 2), Z(Bl * 3), Z(-Bl), m > 1 ? n.Bs[0] : Z(5)}) if (b > 0) samewb(n, b, xs, nob, n.total, dep, sp + " other challenge"); 
    { NW q = n; q.x = ref::inverse(n.x, n.D); samewb(n, Bl, ref::encode(q.x, bits), nob, n.total, dep, sp + " inverse x"); same(n.D, ref::encode(q.x, bits), full, n.total, dep, "x", sp); }
    // dropped or duplicated segment
    for (size_t s = 0; s + 1 < m; s++) { size_t off = 200 + (m - 2 - s) * 141; B b(full); b.erase(b.begin() + off, b.begin() + off + 141); same(n.D, xs, b, n.total, dep - 1, "drop", sp); same(n.D, xs, b, n.total - n.ts[s], dep - 1, "drop", sp); B d = full; d.insert(d.begin() + off, full.begin() + off, full.begin() + off + 141); same(n.D, xs, d, n.total, dep + 1, "dup", sp); same(n.D, xs, d, n.total + n.ts[s], dep + 1, "dup", sp); }
}
static void nweso() {
    for (int bits : {40, 64, 128}) { int T = C.thorough() ? 40 : 9;
        for (int a = 1; a <= T; a++) for (int b = 0; a + b <= T; b++) for (int c = 0; a + b + c <= T; c++) {
            if (b == 0 && c != 0) continue; if (!C.thorough() && bits != 40 && (a * 7 + b * 3 + c) % 11) continue; if (bits == 128 && (a + 2 * b + c) % 3) continue;
            if (!next()) continue; C.traces++; C.nontrivial++; std::vector<uint64_t> ts{(uint64_t)a}; if (b) ts.push_back(b); if (c) ts.push_back(c); devs(mknw(bits, a % 5, ts)); } }
    // zero-iteration segments and larger sizes / depths
    std::vector<std::vector<uint64_t>> sp{{5, 0, 6}, {0, 7}, {7, 0}, {0, 0, 3}, {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {100, 200}, {200, 100, 50}, {64, 64, 64, 64, 64}};
    for (int bits : {64, 256, 1024}) for (auto &v : sp) { if (!next()) continue; C.traces++; C.nontrivial++; if (bits == 1024 && !C.thorough() && v.size() > 3) continue; devs(mknw(bits, 1, v)); }
    if (next()) { C.traces++; std::vector<uint64_t> ts; for (int i = 0; i < 65; i++) ts.push_back(1 + i % 3); NW n = mknw(40, 2, ts); B xs = ref::encode(n.x, 40), full = ser(n, true); same(n.D, xs, full, n.total, 64, "deep", "64 segments"); same(n.D, xs, full, n.total + 1, 64, "deep", "64 segments"); samewb(n, n.Bs[64], xs, ser(n, false), n.total, 64, "64 segments"); }
}
int main(int argc, char **argv) {
    init(argc, argv); const std::string &m = C.mode;
    if (m == "complete") complete(); else if (m == "groups") groups(); else if (m == "bytes1") bytes1(); else if (m == "around") around(); else if (m == "nweso") nweso(); else return 3;
    return finish();
}
