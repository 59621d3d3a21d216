// Independent reference model: binary quadratic forms over plain GMP C++ (mpz_class), written from the
// textbook definitions (Cohen, Alg. 5.4.7 composition via Bezout; Gauss reduction). Slow and boring.
#pragma once
#include <gmpxx.h>
#include <string>
#include <vector>
#include <cstdint>
namespace ref {
typedef mpz_class Z;
struct F { Z a, b, c; bool operator==(const F &o) const { return a == o.a && b == o.b && c == o.c; }
           bool operator<(const F &o) const { if (a != o.a) return a < o.a; return b < o.b; } };
inline Z fdiv(const Z &n, const Z &d) { Z q; mpz_fdiv_q(q.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t()); return q; }
inline Z fmod(const Z &n, const Z &d) { Z q; mpz_fdiv_r(q.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t()); return q; }
inline F mk(const Z &a, const Z &b, const Z &D) { F f; f.a = a; f.b = b; f.c = (b * b - D) / (4 * a); return f; }
inline bool valid(const F &f, const Z &D) { return f.a > 0 && f.b * f.b - 4 * f.a * f.c == D; }
inline void normalize(F &f, const Z &D) {
    // -a < b <= a
    Z twoa = 2 * f.a;
    Z r = fmod(f.b, twoa);
    if (r > f.a) r -= twoa;
    f.b = r; f.c = (f.b * f.b - D) / (4 * f.a);
}
inline void reduce(F &f, const Z &D) {
    normalize(f, D);
    while (f.a > f.c) { Z t = f.a; f.a = f.c; f.c = t; f.b = -f.b; normalize(f, D); }
    if (f.a == f.c && f.b < 0) f.b = -f.b;
}
inline bool reduced(const F &f) {
    Z ab = abs(f.b);
    if (ab > f.a || f.a > f.c) return false;
    if ((ab == f.a || f.a == f.c) && f.b < 0) return false;
    return f.a > 0;
}
inline F identity(const Z &D) { return mk(1, fmod(D, 2), D); }
inline F inverse(F f, const Z &D) { f.b = -f.b; reduce(f, D); return f; }
// Dirichlet composition: e = gcd(a1,a2,(b1+b2)/2)
inline F compose(const F &f, const F &g, const Z &D, bool do_reduce = true) {
    Z s = (f.b + g.b) / 2; // exact: b1 = b2 mod 2
    Z d1, u, v; mpz_gcdext(d1.get_mpz_t(), u.get_mpz_t(), v.get_mpz_t(), f.a.get_mpz_t(), g.a.get_mpz_t());
    Z e, x, w; mpz_gcdext(e.get_mpz_t(), x.get_mpz_t(), w.get_mpz_t(), d1.get_mpz_t(), s.get_mpz_t());
    // e = x*u*a1 + x*v*a2 + w*s
    Z A = f.a * g.a / (e * e);
    Z B = (x * u * f.a * g.b + x * v * g.a * f.b + w * ((f.b * g.b + D) / 2)) / e;
    F r; r.a = A; r.b = fmod(B, 2 * A); r.c = (r.b * r.b - D) / (4 * A);
    if (do_reduce) reduce(r, D);
    return r;
}
inline F square(const F &f, const Z &D) { return compose(f, f, D); }
inline F pow(const F &f, Z n, const Z &D) {
    F r = identity(D), p = f; reduce(p, D);
    while (n > 0) { if (mpz_odd_p(n.get_mpz_t())) r = compose(r, p, D); n >>= 1; if (n > 0) p = square(p, D); }
    return r;
}
inline F sqn(F f, uint64_t t, const Z &D) { reduce(f, D); for (uint64_t i = 0; i < t; i++) f = square(f, D); return f; }
inline std::string str(const F &f) { return "(" + f.a.get_str() + "," + f.b.get_str() + "," + f.c.get_str() + ")"; }
inline bool is_prime(const Z &n) { return mpz_probab_prime_p(n.get_mpz_t(), 40) != 0; }
// all reduced primitive-or-not forms of discriminant D<0 (D = 0,1 mod 4); primitive only if prim
inline std::vector<F> all_reduced(const Z &D, bool prim = true) {
    std::vector<F> v; Z amax; Z t = -D / 3; mpz_sqrt(amax.get_mpz_t(), t.get_mpz_t());
    for (Z a = 1; a <= amax; a++)
        for (Z b = -a + 1; b <= a; b++) {
            Z n = b * b - D; Z fa = 4 * a;
            if (n % fa != 0) continue;
            F f{a, b, n / fa};
            if (!reduced(f)) continue;
            if (prim) { Z g = gcd(gcd(f.a, f.b), f.c); if (g != 1) continue; }
            v.push_back(f);
        }
    return v;
}
} // namespace ref
