// C04: hash-to-prime, discriminant generation, SHA-256.   C05: primality.
#include "group_ops.h"
#include "ref_sha.h"
using namespace vh;
typedef std::vector<uint8_t> B;
static std::string hex(const B &b) { std::string r; for (auto c : b) r += fmt("%02x", c); return r; }
static void sha1(const B &m) {
    uint8_t w[32]; ref::sha256(m.data(), m.size(), w); B g(32);
    picosha2::hash256(m.begin(), m.end(), g.begin(), g.end()); C.states++; C.transitions++;
    if (memcmp(g.data(), w, 32)) viol("sha256", fmt("hash of %zu bytes ", m.size()) + hex(m).substr(0, 200) + " is " + hex(g) + " expected " + hex(B(w, w + 32)));
}
static void sha() {
    { uint8_t h[32]; ref::sha256((const uint8_t *)"abc", 3, h); if (hex(B(h, h + 32)) != "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad") { fprintf(stderr, "reference sha broken\n"); exit(3); } }
    for (int n = 0; n <= (C.thorough() ? 1200 : 400); n++) { if (!next()) continue; C.traces++; C.nontrivial++;
        for (int pat = 0; pat < 6; pat++) { B m(n); for (int i = 0; i < n; i++) m[i] = pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? i : pat == 3 ? 0x80 : pat == 4 ? (i * 37 + 11) : (i == n - 1); sha1(m); }
        if (n) for (int i = 0; i < n; i++) for (int v : {1, 0x80, 0xff}) { B m(n, 0); m[i] = v; sha1(m); } }
    for (int a = 0; a < 256; a++) { if (!next()) continue; C.traces++; sha1(B{(uint8_t)a}); for (int b = 0; b < 256; b++) sha1(B{(uint8_t)a, (uint8_t)b}); }
}
static void disc1(const B &seed, int len) {
    B s = seed; Z want = ref::create_discriminant(seed, len); C.states++; C.transitions++;
    std::string ctx = fmt("CreateDiscriminant(%s, %d)", hex(seed).c_str(), len);
    try {
        integer d = CreateDiscriminant(s, len);
        if (want == 0) viol("disc-exhausted", ctx + " returns " + d.to_string() + " although no candidate of the seed is prime");
        else if (toZ(d) != want) viol("disc-value", ctx + "=" + d.to_string() + " expected -" + Z(-want).get_str(16));
        else {
            if (d.num_bits() != len || ref::fmod(-toZ(d), 8) != 7) viol("disc-shape", ctx + " has wrong size or residue");
            B s2 = seed; if (!(CreateDiscriminant(s2, len) == d)) viol("disc-nondet", ctx + " differs on the second call");
        }
    } catch (std::exception &e) { if (want != 0) viol("disc-throw", ctx + " throws " + e.what()); }
    if (s != seed) viol("disc-seedmod", ctx + " modifies the caller's seed");
}
static std::vector<B> seedset() {
    std::vector<B> v;
    v.push_back(B(32, 0)); v.push_back(B(32, 0xff)); for (int i = 0; i < 12; i++) { B b(32); for (int k = 0; k < 32; k++) b[k] = i * 29 + k * 7; v.push_back(b); }
    for (int tail = 1; tail < 8; tail++) { B b(10, 0x33); for (int k = 10 - tail; k < 10; k++) b[k] = 0xff; v.push_back(b); B c = b; c[9] = 0xf8; v.push_back(c); }
    for (int n : {2, 3, 4, 5, 7, 8, 16, 31, 33, 55, 56, 57, 63, 64, 65, 100, 119, 120, 128, 200, 255, 256, 1000}) { B b(n); for (int k = 0; k < n; k++) b[k] = k + n; v.push_back(b); }
    return v;
}
static void disc() {
    auto seeds = seedset(); int st = C.thorough() ? 1 : 5; int k = 0;
    for (int len = 16; len <= 1024; len += 8) for (size_t i = 0; i < seeds.size(); i++) {
        // quick: every size with some seeds, every seed with some sizes
        if (!C.thorough() && (int)((i + len / 8) % (len < 300 ? 1 : len < 600 ? 2 : 5)) != 0 && !(len == 1024 && i % 4 == 0)) continue;
        if (!next()) continue; C.traces++; C.nontrivial++;
        disc1(seeds[i], len);
    }
    (void)st; (void)k;
}
static void disc2() { // all one- and two-byte seeds, every carry pattern
    for (int a = 0; a < 256; a++) { if (!next()) continue; C.traces++; C.nontrivial++;
        for (int len : {16, 24, 32, 64, 72, 128, 136, 256, 264}) disc1(B{(uint8_t)a}, len);
        if (a % 8 == 0) for (int len : {512, 768, 1000, 1024}) disc1(B{(uint8_t)a}, len);
        int st = C.thorough() ? 1 : 3;
        for (int b = 0; b < 256; b += st) { disc1(B{(uint8_t)a, (uint8_t)b}, 32); disc1(B{(uint8_t)b, (uint8_t)(255 - a)}, 64); if (b % 16 == a % 16) disc1(B{(uint8_t)a, (uint8_t)b}, 264); }
        for (int b = 250; b < 256; b++) for (int c = 250; c < 256; c++) disc1(B{(uint8_t)a, (uint8_t)b, (uint8_t)c}, 48);
    }
}
static void args() { // rejected arguments
    std::vector<int> bad; for (int l = -70; l <= 1100; l++) bad.push_back(l); for (int l : {-2147483647 - 1, 2147483647, 1 << 20, 2048, 4096, 16400, 65536, -8, -1024}) bad.push_back(l);
    for (int l : bad) { if (!next()) continue; C.states++; C.transitions++; C.traces++;
        bool ok = l > 0 && l <= 1024 && l % 8 == 0; if (ok && (l < 16 || l > 300)) continue;
        B s(32, 7), e; bool th = false; try { CreateDiscriminant(s, l); } catch (std::exception &) { th = true; }
        if (th == ok) viol("disc-args", fmt("CreateDiscriminant with size %d %s", l, th ? "throws" : "is accepted"));
        th = false; try { CreateDiscriminant(e, l); } catch (std::exception &) { th = true; }
        if (!th) viol("disc-emptyseed", fmt("empty seed accepted at size %d", l));
    }
}
static void hprime() { // HashPrime/GetB: 264-bit challenge primes and other masks
    auto seeds = seedset();
    for (size_t i = 0; i < seeds.size(); i++) for (int len : {40, 64, 120, 248, 256, 264, 272, 512, 520}) for (int mk = 0; mk < 4; mk++) {
        if (!next()) continue; C.traces++; C.nontrivial++; C.states++; C.transitions++;
        std::vector<int> m; if (mk == 0) m = {len - 1}; else if (mk == 1) m = {0, 1, 2, len - 1}; else if (mk == 2) m = {}; else m = {len - 1, 1, 17, 33};
        B s = seeds[i]; integer p = HashPrime(s, len, m); Z w = ref::hash_prime(seeds[i], len, m);
        if (toZ(p) != w) viol("hashprime", fmt("HashPrime(%s,%d,mask %d)=", hex(s).c_str(), len, mk) + p.to_string() + " expected 0x" + w.get_str(16));
    }
    for (int bits : {40, 64, 128, 256, 512, 1024}) for (int k = 0; k < (C.thorough() ? 10 : 3); k++) { // GetB over real pairs of forms
        Z D = -big_p(bits, k); F f = ref::mk(2, 1, D);
        for (int j = 0; j < 12; j++) {
            if (!next()) continue; C.traces++; C.nontrivial++; C.states++; C.transitions++;
            F x = ref::sqn(f, j, D), y = ref::sqn(x, 7 * j + 1, D); form xi = mkform(x), yi = mkform(y); integer Di = toI(D);
            integer b = GetB(Di, xi, yi);
            std::vector<unsigned char> a = SerializeForm(xi, Di.num_bits()), c = SerializeForm(yi, Di.num_bits()); a.insert(a.end(), c.begin(), c.end());
            Z w = ref::hash_prime(B(a.begin(), a.end()), 264, {263});
            if (toZ(b) != w || b.num_bits() != 264) viol("getb", fmt("GetB bits %d #%d j=%d wrong: ", bits, k, j) + b.to_string());
            // an unreduced representative of the same forms gives the same challenge
            form xu = mkform(F{x.a, x.b + 2 * x.a, x.a + x.b + x.c}); if (!(GetB(Di, xu, yi) == b)) viol("getb-repr", "GetB depends on the representative");
        }
    }
}
// ---------------- C05
static void prime1(const Z &n, bool isp, const char *how) {
    C.states++; C.transitions++; bool g = toI(n).prime();
    if (g && !isp) viol("composite-accepted", std::string(how) + ": composite " + n.get_str() + " declared prime");
    if (!g && isp) viol("prime-rejected", std::string(how) + ": prime " + n.get_str() + " declared composite");
}
static const uint64_t TB = 100000;   // primes below this may be rejected by trial division; never used as candidates
static void p_exh() {
    uint64_t N = C.thorough() ? 1ull << 31 : 1ull << 27, W = 1 << 19;
    std::vector<uint32_t> sp; for (uint32_t p = 3; p < 40000; p += 2) { bool pr = true; for (uint32_t d = 3; d * d <= p; d += 2) if (p % d == 0) { pr = false; break; } if (pr) sp.push_back(p); }
    for (uint64_t lo = 0; lo < N; lo += W) {
        if (!next()) continue; C.traces++; C.nontrivial++;
        std::vector<char> comp(W / 2, 0);   // odd numbers lo+1, lo+3...
        for (uint32_t p : sp) { if ((uint64_t)p * p >= lo + W) break; uint64_t s = std::max<uint64_t>((uint64_t)p * p, (lo + p) / p * p); if (s % 2 == 0) s += p; for (uint64_t x = s; x < lo + W; x += 2 * p) comp[(x - lo - 1) / 2] = 1; }
        integer n; 
        for (uint64_t i = 0; i < W / 2; i++) { uint64_t v = lo + 2 * i + 1; mpz_set_ui(n.impl, v); if (v < 3) continue; bool g = n.prime(); C.states++; C.transitions++;
            bool isp = v > 1 && !comp[i];
            if (g && !isp) viol("composite-accepted", fmt("composite %llu declared prime", (unsigned long long)v));
            if (!g && isp && v > TB) viol("prime-rejected", fmt("prime %llu declared composite", (unsigned long long)v));
            if (i % 64 == 0) { mpz_set_ui(n.impl, v + 1); if (n.prime() && v != 1) viol("composite-accepted", fmt("even %llu declared prime", (unsigned long long)v + 1)); } }
    }
}
static void p_two() { // products p*(k(p-1)+1), p*(k(p+1)-1), p^2, and Chernick triples: the shapes of Fermat/strong/Lucas pseudoprimes
    uint64_t hi = C.thorough() ? 400000 : 60000;
    for (uint64_t blk = 0; blk < hi; blk += 1000) {
        if (!next()) continue; C.traces++; C.nontrivial++;
        for (uint64_t p = std::max<uint64_t>(blk, 211); p < blk + 1000; p++) {
            Z P = (unsigned long)p; if (!ref::is_prime(P)) continue;
            prime1(P * P, false, "square"); prime1(P * P * P, false, "cube"); C.extra["pseudoprime_shapes"] += 2;
            for (long k2 = 1; k2 <= 60; k2++) for (int s = 0; s < 2; s++) {
                Z num = s == 0 ? Z(Z(k2) * (P - 1)) : Z(Z(k2) * (P + 1)); Z q = num / 2; // k in halves
                if (num % 2 != 0) continue; if (s == 0) q += 1; else q -= 1; if (q <= 1 || !mpz_odd_p(q.get_mpz_t()) || !ref::is_prime(q)) continue;
                prime1(P * q, false, "p*q"); C.extra["pseudoprime_shapes"]++;
            }
        }
    }
    for (uint64_t blk = 0; blk < 200; blk++) { if (!next()) continue; C.traces++;
        for (uint64_t m = blk * 500 + 40; m < blk * 500 + 540; m++) { Z M = (unsigned long)m; Z a = 6 * M + 1, b = 12 * M + 1, c = 18 * M + 1; if (ref::is_prime(a) && ref::is_prime(b)) { prime1(a * b, false, "p*q"); if (ref::is_prime(c)) prime1(a * b * c, false, "Carmichael"); } } }
    // wide semiprimes p*(2p-1) at large sizes: base-2 strong pseudoprimes have density 1/4 among these
    for (int bits : {33, 40, 64, 96, 128, 132, 256, 512}) for (int blk = 0; blk < 6; blk++) {
        if (!next()) continue; C.traces++; C.nontrivial++;
        Z p = (Z(1) << (bits - 1)) + Z(blk) * 100000 + 1; int found = 0;
        for (int i = 0; i < (bits > 200 ? 20000 : 40000) && found < (bits > 200 ? 2 : 6); i++, p += 2) { if (p % 4 != 3) continue; Z q = 2 * p - 1; if (p % 3 == 0 || q % 3 == 0 || p % 5 == 0 || q % 5 == 0 || p % 7 == 0 || q % 7 == 0) continue; if (!mpz_probab_prime_p(p.get_mpz_t(), 1) || !ref::is_prime(q)) continue; found++;
            Z n = p * q; prime1(n, false, "p(2p-1)"); prime1(p, true, "window"); prime1(q, true, "window");
            Z x = 2, e = n - 1; Z r; mpz_powm(r.get_mpz_t(), x.get_mpz_t(), e.get_mpz_t(), n.get_mpz_t()); if (r == 1) C.extra["base2_fermat_pseudoprimes_tried"]++; }
    }
}
static void p_win() { // windows of consecutive odd numbers at every size used
    std::vector<int> bs; for (int b = 17; b <= 1024; b += (C.thorough() ? 3 : 29)) bs.push_back(b); for (int b : {63, 64, 65, 127, 128, 129, 256, 264, 320, 512, 960, 1023, 1024}) bs.push_back(b);
    for (int b : bs) for (int side = 0; side < 2; side++) {
        if (!next()) continue; C.traces++; C.nontrivial++;
        int n = b > 512 ? 150 : b > 256 ? 400 : 1500; if (C.thorough()) n *= 3;
        for (int i = 0; i < n; i++) { Z v = side ? Z((Z(1) << b) - 1 - 2 * i) : Z((Z(1) << (b - 1)) + 1 + 2 * i); if (v < 100000) continue; prime1(v, ref::is_prime(v), "window"); }
    }
    // primes for which the first Lucas parameters all fail: n = 1 mod 8 * primorial
    std::vector<int> Ps{3, 5, 7, 11, 13, 17, 23, 31, 47, 61, 97, 127, 211, 307, 401, 499, 601, 691};
    for (int P : Ps) { 
        if (!next()) continue; C.traces++; C.nontrivial++;
        Z prim = 8; for (int q = 3; q <= P; q += 2) if (ref::is_prime(q)) prim *= q;
        int found = 0; for (long k = 1; found < (P > 400 ? 3 : 12) && k < 20000; k++) { Z n = prim * k + 1; if (n < 100000) continue; if (mpz_sizeinbase(n.get_mpz_t(), 2) > 1024) break; bool isp = ref::is_prime(n); if (isp) found++; if (isp || k < 60) prime1(n, isp, "late Lucas parameter"); }
        C.extra["late_lucas_primes"] += found;
    }
    // perfect powers of large primes
    for (int b = 20; b <= 512; b += 12) { if (!next()) continue; C.traces++; Z p = big_p(b, 2); prime1(p, true, "window"); prime1(p * p, false, "square"); if (b < 340) prime1(p * p * p, false, "cube"); Z q = big_p(b, 3); if (p != q) prime1(p * q, false, "p*q"); }
}
int main(int argc, char **argv) {
    init(argc, argv); const std::string &m = C.mode;
    if (m == "sha") sha(); else if (m == "disc") disc(); else if (m == "disc2") disc2(); else if (m == "args") args(); else if (m == "hprime") hprime();
    else if (m == "pexh") p_exh(); else if (m == "ptwo") p_two(); else if (m == "pwin") p_win(); else return 3;
    return finish();
}
