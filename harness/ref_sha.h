// Independent SHA-256 (FIPS 180-4) and hash-to-prime reference.
#pragma once
#include <vector>
#include <string>
#include <cstdint>
#include <cstring>
#include "ref.h"
namespace ref {
inline void sha256(const uint8_t *m, size_t n, uint8_t out[32]) {
    static uint32_t K[64], H0[8]; static bool init = false;
    if (!init) { // constants derived from their definition: fractional parts of cube / square roots of the first primes
        int c = 0; for (int p = 2; c < 64; p++) { bool pr = true; for (int d = 2; d * d <= p; d++) if (p % d == 0) pr = false; if (!pr) continue;
            Z x = Z(p) << 96, r; mpz_root(r.get_mpz_t(), x.get_mpz_t(), 3); Z k = r & 0xffffffffu; K[c] = (uint32_t)k.get_ui();
            if (c < 8) { x = Z(p) << 64; mpz_sqrt(r.get_mpz_t(), x.get_mpz_t()); k = r & 0xffffffffu; H0[c] = (uint32_t)k.get_ui(); } c++; }
        init = true; }
    std::vector<uint8_t> b(m, m + n); b.push_back(0x80); while (b.size() % 64 != 56) b.push_back(0);
    uint64_t bits = (uint64_t)n * 8; for (int i = 7; i >= 0; i--) b.push_back((uint8_t)(bits >> (8 * i)));
    uint32_t H[8]; memcpy(H, H0, sizeof H);
    auto R = [](uint32_t x, int k) { return (x >> k) | (x << (32 - k)); };
    for (size_t o = 0; o < b.size(); o += 64) {
        uint32_t w[64]; for (int i = 0; i < 16; i++) w[i] = b[o+4*i] << 24 | b[o+4*i+1] << 16 | b[o+4*i+2] << 8 | b[o+4*i+3];
        for (int i = 16; i < 64; i++) w[i] = (R(w[i-2],17)^R(w[i-2],19)^(w[i-2]>>10)) + w[i-7] + (R(w[i-15],7)^R(w[i-15],18)^(w[i-15]>>3)) + w[i-16];
        uint32_t v[8]; memcpy(v, H, sizeof v);
        for (int i = 0; i < 64; i++) {
            uint32_t t1 = v[7] + (R(v[4],6)^R(v[4],11)^R(v[4],25)) + ((v[4]&v[5])^(~v[4]&v[6])) + K[i] + w[i];
            uint32_t t2 = (R(v[0],2)^R(v[0],13)^R(v[0],22)) + ((v[0]&v[1])^(v[0]&v[2])^(v[1]&v[2]));
            v[7]=v[6]; v[6]=v[5]; v[5]=v[4]; v[4]=v[3]+t1; v[3]=v[2]; v[2]=v[1]; v[1]=v[0]; v[0]=t1+t2; }
        for (int i = 0; i < 8; i++) H[i] += v[i];
    }
    for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) out[4*i+j] = (uint8_t)(H[i] >> (24 - 8*j));
}
// hash-to-prime; returns 0 when the candidates are exhausted (the counter returned to the seed at a candidate boundary)
inline Z hash_prime(std::vector<uint8_t> s, int length, const std::vector<int> &bits, uint64_t *ncand = nullptr, bool guard = true) {
    std::vector<uint8_t> seed0 = s; uint64_t nc = 0;
    for (;;) {
        std::vector<uint8_t> blob;
        while ((int)blob.size() * 8 < length) {
            for (size_t i = s.size(); i-- > 0;) if (++s[i]) break;
            uint8_t h[32]; sha256(s.data(), s.size(), h);
            for (int i = 0; i < 32 && (int)blob.size() * 8 < length; i++) blob.push_back(h[i]);
        }
        Z p; mpz_import(p.get_mpz_t(), blob.size(), 1, 1, 1, 0, blob.data());
        for (int b : bits) mpz_setbit(p.get_mpz_t(), b);
        mpz_setbit(p.get_mpz_t(), 0); nc++;
        if (is_prime(p)) { if (ncand) *ncand = nc; return p; }
        if (guard && s == seed0) { if (ncand) *ncand = nc; return 0; }
    }
}
inline Z create_discriminant(const std::vector<uint8_t> &seed, int length) {
    Z p = hash_prime(seed, length, {0, 1, 2, length - 1}); return -p;
}
} // namespace ref
