// Independent codec for the published 100-byte form layout (comments in bqfc.c), strict = only canonical encodings of reduced forms.
#pragma once
#include "ref.h"
#include <vector>
#include <cstdint>
namespace ref {
// The format's t comes from the partial Euclidean algorithm in Lehmer form on 64-bit leading words (Antic/Flint's
// definition, which the format fixed); model written on exact integers, word arithmetic emulated with __int128.
inline Z partial_cofactor(Z r2, Z r1, const Z &L) {
    Z c2 = 0, c1 = -1; typedef __int128 W;
    auto top = [](const Z &x, long sh) { Z y = x >> sh; return (W)(uint64_t)mpz_getlimbn(y.get_mpz_t(), 0); };
    while (r1 != 0 && r1 > L) {
        long bits = (long)std::max(mpz_sizeinbase(r2.get_mpz_t(), 2), mpz_sizeinbase(r1.get_mpz_t(), 2)) - 63; if (bits < 0) bits = 0;
        W x2 = top(r2, bits), x1 = top(r1, bits), bb = top(L, bits), a2 = 0, a1 = 1, b2 = 1, b1 = 0; int i = 0;
        for (; x1 != 0 && x1 > bb; i++) {
            W q = x2 / x1, t1 = x2 - q * x1, t2 = a2 - q * a1, t3 = b2 - q * b1;
            if (i & 1) { if (t1 < -t3 || x1 - t1 < t2 - a1) break; } else { if (t1 < -t2 || x1 - t1 < t3 - b1) break; }
            x2 = x1; x1 = t1; a2 = a1; a1 = t2; b2 = b1; b1 = t3;
        }
        if (i == 0) { Z q = r2 / r1; Z r = r2 - q * r1; r2 = r1; r1 = r; Z x = c2 - q * c1; c2 = c1; c1 = x; }
        else { Z A2 = (long)a2, A1 = (long)a1, B2 = (long)b2, B1 = (long)b1;
            Z n2 = r2 * B2 + r1 * A2, n1 = r1 * A1 + r2 * B1, d2 = c2 * B2 + c1 * A2, d1 = c1 * A1 + c2 * B1; r2 = n2; r1 = n1; c2 = d2; c1 = d1;
            if (r1 < 0) { c1 = -c1; r1 = -r1; } if (r2 < 0) { c2 = -c2; r2 = -r2; } }
    }
    return -c1;
}
inline void put_le(std::vector<uint8_t> &o, Z v, size_t n) { for (size_t i = 0; i < n; i++) { Z r = v & 255; o.push_back((uint8_t)r.get_ui()); v >>= 8; } }
inline Z get_le(const uint8_t *p, size_t n) { Z v = 0; for (size_t i = n; i-- > 0;) v = v * 256 + p[i]; return v; }
inline std::vector<uint8_t> encode(const F &f, int d_bits) {
    std::vector<uint8_t> o;
    if (f.b == 1 && f.a <= 2) { o.push_back(f.a == 2 ? 8 : 4); o.resize(100, 0); return o; }
    Z A = f.a, t = 0, g = 0, b0 = 0; bool bs = false;
    if (f.a != f.b) {
        bs = f.b < 0; Z s; mpz_sqrt(s.get_mpz_t(), f.a.get_mpz_t());
        t = partial_cofactor(f.a, abs(f.b), s); g = gcd(f.a, t); if (g != 1) { A = f.a / g; t /= g; b0 = abs(f.b) / A; } else b0 = 0;
    }
    size_t db = (d_bits + 31) & ~31, gs = g == 0 ? 0 : (mpz_sizeinbase(g.get_mpz_t(), 2) + 7) / 8 - 1;
    o.push_back((bs ? 1 : 0) | (t < 0 ? 2 : 0)); o.push_back((uint8_t)gs);
    put_le(o, A, db / 16 - gs); put_le(o, abs(t), db / 32 - gs); put_le(o, g, gs + 1); put_le(o, b0, gs + 1);
    o.resize(100, 0); return o;
}
// value decoded by the layout, or false. lenient=true reproduces the historical consensus rule: any string whose decoded (a,b)
// re-encodes to itself is accepted (after reduction); flagged strings are accepted whatever their other bytes.
inline bool decode_raw(const uint8_t *s, const Z &D, int d_bits, Z &a, Z &b) {
    if (s[0] & 12) { a = s[0] & 8 ? 2 : 1; b = 1; return true; }
    size_t db = (d_bits + 31) & ~31, gs = s[1]; if (gs >= db / 32) return false;
    size_t o = 2; Z A = get_le(s + o, db / 16 - gs); o += db / 16 - gs; Z t = get_le(s + o, db / 32 - gs); o += db / 32 - gs;
    Z g = get_le(s + o, gs + 1); o += gs + 1; Z b0 = get_le(s + o, gs + 1); o += gs + 1;
    if (s[0] & 2) t = -t;
    if (t == 0) { a = A; b = A; }
    else {
        if (A == 0) return false; Z ti; Z tm = fmod(t, A);
        if (A == 1) ti = 0; else if (gcd(tm, A) != 1 || !mpz_invert(ti.get_mpz_t(), tm.get_mpz_t(), A.get_mpz_t())) return false;
        Z q = fmod(tm * tm % A * fmod(D, A), A); if (!mpz_perfect_square_p(q.get_mpz_t())) return false;
        Z r; mpz_sqrt(r.get_mpz_t(), q.get_mpz_t()); b = r * ti % A; a = g > 1 ? Z(A * g) : A; b += A * b0; if (s[0] & 1) b = -b;
    }
    return true;
}
inline bool decode_strict(const uint8_t *s, const Z &D, int d_bits, F &f) {
    Z a, b; if (!decode_raw(s, D, d_bits, a, b)) return false; if (a <= 0) return false;
    if (fmod(b * b - D, 4 * a) != 0) return false;
    f = mk(a, b, D); if (!reduced(f)) return false;
    auto e = encode(f, d_bits); for (int i = 0; i < 100; i++) if (e[i] != s[i]) return false;
    return true;
}
} // namespace ref
