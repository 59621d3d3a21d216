// Adapters: every form operation the library offers, behind one signature, plus conversions to the reference.
#pragma once
#include "verifier.h"
#include "vdf_original.h"
#include "ref.h"
#include "vh.h"
using ref::F; using ref::Z;
inline Z toZ(const integer &x) { return Z(x.impl); }
inline integer toI(const Z &z) { integer r; mpz_set(r.impl, z.get_mpz_t()); return r; }
inline F toF(const form &f) { return F{toZ(f.a), toZ(f.b), toZ(f.c)}; }
inline form mkform(const F &f) { form r; r.a = toI(f.a); r.b = toI(f.b); r.c = toI(f.c); return r; }
struct Grp {   // one discriminant
    Z D; integer Di, L; PulmarkReducer *pr; vdf_original *vo;
    Grp(const Z &d) : D(d), Di(toI(d)), pr(new PulmarkReducer), vo(new vdf_original) { L = root(-Di, 4); }
    ~Grp() { delete pr; delete vo; }
    form nucomp(const form &a, const form &b) { form r; nucomp_form(r, a, b, Di, L); return r; }
    form nucomp_alias1(form a, const form &b) { nucomp_form(a, a, b, Di, L); return a; }
    form nucomp_alias2(const form &a, form b) { nucomp_form(b, a, b, Di, L); return b; }
    form nudupl(form a) { form r; nudupl_form(r, a, Di, L); return r; }
    form nudupl_alias(form a) { nudupl_form(a, a, Di, L); return a; }
    form pul(form a) { pr->reduce(a); return a; }
    form red(form a) { a.reduce(); return a; }
    form vored(const form &a) {
        vdf_original::form t; mpz_init_set(t.a, a.a.impl); mpz_init_set(t.b, a.b.impl); mpz_init_set(t.c, a.c.impl);
        vo->reduce(t); form r; mpz_set(r.a.impl, t.a); mpz_set(r.b.impl, t.b); mpz_set(r.c.impl, t.c);
        mpz_clears(t.a, t.b, t.c, NULL); return r;
    }
    form vosq(const form &a) {
        vdf_original::form t; mpz_init_set(t.a, a.a.impl); mpz_init_set(t.b, a.b.impl); mpz_init_set(t.c, a.c.impl);
        vdf_original::form *o = vo->square(t); form r; mpz_set(r.a.impl, o->a); mpz_set(r.b.impl, o->b); mpz_set(r.c.impl, o->c);
        mpz_clears(t.a, t.b, t.c, NULL); return r;
    }
};
// small valid discriminants: -p, p prime, p = 7 mod 8
inline std::vector<uint64_t> small_ps(uint64_t lo, uint64_t hi) {
    std::vector<uint64_t> r; for (uint64_t p = lo; p <= hi; p++) if (p % 8 == 7 && ref::is_prime(Z((unsigned long)p))) r.push_back(p); return r;
}
// k-th deterministic valid discriminant of exactly `bits` bits (edge-shaped: next after 2^(bits-1), previous below 2^bits, pseudo-random)
inline Z big_p(int bits, int k) {
    Z lo = Z(1) << (bits - 1), x;
    if (k == 0) x = lo; else if (k == 1) { x = (Z(1) << bits) - 1; while (!(x % 8 == 7 && ref::is_prime(x))) x -= 1; return x; }
    else { gmp_randclass r(gmp_randinit_mt); r.seed(1000003ul * bits + k); x = lo + r.get_z_bits(bits - 1); }
    while (!(x % 8 == 7 && ref::is_prime(x))) x += 1;
    return x;
}
// form with a = smallest split prime >= q0 (b odd), not reduced on purpose unless asked
inline F prime_form(const Z &D, Z q) {
    for (;; q += 1) {
        if (!ref::is_prime(q)) continue;
        if (q == 2) { if (ref::fmod(D, 8) == 1) return ref::mk(2, 1, D); continue; }
        Z dm = ref::fmod(D, q);
        if (mpz_legendre(dm.get_mpz_t(), q.get_mpz_t()) != 1) continue;
        // Tonelli via brute/cipolla for modest q: use q = 3 mod 4 shortcut or search
        Z r; if (q % 4 == 3) { Z e = (q + 1) / 4; mpz_powm(r.get_mpz_t(), dm.get_mpz_t(), e.get_mpz_t(), q.get_mpz_t()); }
        else { if (q > 100000) continue; bool ok = false; for (r = 0; r < q; r++) if ((r * r - dm) % q == 0) { ok = true; break; } if (!ok) continue; }
        if (r % 2 == 0) r = q - r;
        return ref::mk(q, r, D);
    }
}
