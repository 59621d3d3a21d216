// Independent Wesolowski verifier (consensus rules) and proof builder.
#pragma once
#include "ref_codec.h"
#include "ref_sha.h"
#include <map>
namespace ref {
typedef std::vector<uint8_t> Bytes;
// consensus decoding: flagged strings, or strings that re-encode to themselves; then reduced
inline bool decode_consensus(const uint8_t *s, const Z &D, F &f) {
    int db = mpz_sizeinbase(D.get_mpz_t(), 2); Z a, b;
    if (!decode_raw(s, D, db, a, b)) return false;
    if (!(s[0] & 12)) { if (a <= 0) return false; size_t rb = (db + 31) & ~31; F r{a, b, 0};
        // an unreduced (a,b) may not fit its fields; then it is not an encoding
        Bytes e = encode(r, db); for (int i = 0; i < 100; i++) if (e[i] != s[i]) return false; (void)rb; }
    if (a <= 0 || fmod(b * b - D, 4 * a) != 0) return false;
    f = mk(a, b, D); reduce(f, D); return true;
}
inline F mpow(const F &f, const Z &n, const Z &D) {   // memoized pow
    static std::map<std::string, F> M; std::string k = f.a.get_str(62) + "," + f.b.get_str(62) + "," + n.get_str(62) + "," + D.get_str(62);
    auto it = M.find(k); if (it != M.end()) return it->second; if (M.size() > 20000) M.clear(); return M[k] = pow(f, n, D);
}
inline Z challenge0(const F &x, const F &y, const Z &D);
inline Z challenge(const F &x, const F &y, const Z &D) {
    static std::map<std::string, Z> M; std::string k = x.a.get_str(62) + "," + x.b.get_str(62) + "," + y.a.get_str(62) + "," + y.b.get_str(62) + "," + D.get_str(62);
    auto it = M.find(k); if (it != M.end()) return it->second; if (M.size() > 20000) M.clear(); return M[k] = challenge0(x, y, D);
}
inline Z challenge0(const F &x, const F &y, const Z &D) {
    int db = mpz_sizeinbase(D.get_mpz_t(), 2); Bytes a = encode(x, db), b = encode(y, db); a.insert(a.end(), b.begin(), b.end());
    return hash_prime(a, 264, {263});
}
inline Z pow2mod(uint64_t t, const Z &B) { Z r, two = 2, e; mpz_import(e.get_mpz_t(), 1, 1, 8, 0, 0, &t); mpz_powm(r.get_mpz_t(), two.get_mpz_t(), e.get_mpz_t(), B.get_mpz_t()); return r; }
inline uint64_t be64(const uint8_t *p) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | p[i]; return v; }
inline void put_be64(Bytes &o, uint64_t v) { for (int i = 7; i >= 0; i--) o.push_back((uint8_t)(v >> (8 * i))); }
inline void put_be(Bytes &o, const Z &v, int n) { for (int i = n - 1; i >= 0; i--) { Z r = (v >> (8 * i)) & 255; o.push_back((uint8_t)r.get_ui()); } }
inline bool segs(const Z &D, F &x, const uint8_t *b, size_t from, size_t to, uint64_t &iters) {
    while (to > from) { to -= 141; uint64_t t = be64(b + to); F pi; if (!decode_consensus(b + to + 41, D, pi)) return false;
        Z B; mpz_import(B.get_mpz_t(), 33, 1, 1, 1, 0, b + to + 8); if (B == 0) return false;
        F y = compose(mpow(pi, B, D), mpow(x, pow2mod(t, B), D), D); if (B != challenge(x, y, D)) return false;
        if (t > iters) return false; iters -= t; x = y; }
    return true;
}
inline bool verify(const Z &D, const uint8_t *xs, const uint8_t *b, size_t n, uint64_t iters, uint64_t depth) {
    if (depth > (1u << 20) || n != 200 + depth * 141) return false; F x; if (!decode_consensus(xs, D, x)) return false;
    if (!segs(D, x, b, 200, n, iters)) return false;
    F y, pi; if (!decode_consensus(b, D, y) || !decode_consensus(b + 100, D, pi)) return false;
    Z B = challenge(x, y, D); return compose(mpow(pi, B, D), mpow(x, pow2mod(iters, B), D), D) == y;
}
inline bool verify_with_b(const Z &D, const Z &B, const uint8_t *xs, const uint8_t *b, size_t n, uint64_t iters, uint64_t depth, F &y) {
    if (depth > (1u << 20) || n != 100 + depth * 141) return false; F x; if (!decode_consensus(xs, D, x)) return false;
    if (!segs(D, x, b, 100, n, iters)) return false; F pi; if (!decode_consensus(b, D, pi) || B == 0) return false;
    y = compose(mpow(pi, B, D), mpow(x, pow2mod(iters, B), D), D); return B == challenge(x, y, D);
}
// honest segment proof
inline F prove(const Z &D, const F &x, const F &y, uint64_t t) {
    Z B = challenge(x, y, D), q = 0, r = 1; F pi = identity(D);   // pi = x^(floor(2^t/B)) by long division
    for (uint64_t i = 0; i < t; i++) { r *= 2; pi = square(pi, D); if (r >= B) { r -= B; pi = compose(pi, x, D); } }
    return pi;
}
} // namespace ref
