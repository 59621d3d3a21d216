// C01 / C02: exhaustive exploration of the real form arithmetic against the reference class group.
#include "group_ops.h"
using namespace vh;
static std::string S(const form &f) { return ref::str(toF(f)); }
// result r must be a valid form of D whose class is `want` (reduced); every reducer must agree on it
static void judge(Grp &g, const form &r, const F &want, const char *op, const std::string &ctx, bool expect_reduced) {
    C.transitions++;
    F f = toF(r);
    if (!ref::valid(f, g.D)) { viol(fmt("%s-invalid", op), ctx + fmt(" %s gives a form that is not of the discriminant: ", op) + ref::str(f) + " D=" + g.D.get_str()); return; }
    F w = f; ref::reduce(w, g.D);
    if (!(w == want)) { viol(fmt("%s-class", op), ctx + fmt(" %s gives class ", op) + ref::str(w) + " expected " + ref::str(want) + " D=" + g.D.get_str()); return; }
    if (expect_reduced && !(f == want)) viol(fmt("%s-notreduced", op), ctx + fmt(" %s gives ", op) + ref::str(f) + " instead of the reduced " + ref::str(want) + " D=" + g.D.get_str());
}
static void judge_reducers(Grp &g, const form &r, const F &want, const std::string &ctx) {
    judge(g, g.pul(r), want, "PulmarkReducer", ctx + " reducing " + S(r), true);
    judge(g, g.red(r), want, "form::reduce", ctx + " reducing " + S(r), true);
    judge(g, g.vored(r), want, "vdf_original::reduce", ctx + " reducing " + S(r), true);
}
static void pairs() {     // whole class groups: every pair, every operation
    for (uint64_t p : small_ps(7, C.thorough() ? 40000 : 9000)) {
        if (!next()) continue;
        Z D = -Z((unsigned long)p); Grp g(D);
        std::vector<F> cls = ref::all_reduced(D); C.states += cls.size(); C.traces += 1; C.nontrivial += cls.size() > 1;
        C.extra["max_class_number"] = std::max<uint64_t>(C.extra["max_class_number"], cls.size());
        bool id = false;
        for (auto &f : cls) if (toF(form::identity(g.Di)) == f) id = true;
        if (!id) viol("identity", "identity not a reduced class D=" + D.get_str());
        judge(g, form::generator(g.Di), [&]{ F x = ref::mk(2, 1, D); ref::reduce(x, D); return x; }(), "generator", "", true);
        for (auto &f : cls) {
            form fi = mkform(f); F sq = ref::square(f, D); std::string cx = "f=" + ref::str(f);
            form r = g.nudupl(fi); judge(g, r, sq, "nudupl", cx, false); judge_reducers(g, r, sq, cx + " after nudupl");
            judge(g, g.nudupl_alias(fi), sq, "nudupl-inplace", cx, false);
            judge(g, square(fi), sq, "square", cx, true);
            judge(g, g.vosq(fi), sq, "vdf_original::square", cx, true);
            judge(g, fi.inverse(), ref::inverse(f, D), "inverse", cx, true);
            if (!fi.is_reduced()) viol("is_reduced", "is_reduced false on reduced " + cx);
            // from_abd on a non-reduced representative
            judge(g, form::from_abd(fi.a, fi.b + fi.a * integer(2), g.Di), f, "from_abd", cx, true);
            for (auto &h : cls) {
                form hi = mkform(h); F pr = ref::compose(f, h, D); std::string cy = cx + " g=" + ref::str(h);
                form r = g.nucomp(fi, hi); judge(g, r, pr, "nucomp", cy, false); judge_reducers(g, r, pr, cy + " after nucomp");
                if (!(r == g.nucomp_alias1(fi, hi)) || !(r == g.nucomp_alias2(fi, hi))) viol("nucomp-alias", cy + " in-place nucomp differs");
                judge(g, fi * hi, pr, "multiply", cy, true);
                if ((fi == hi) != (f == h)) viol("eq", cy + " equality wrong");
                if ((toF(fi * hi) == toF(hi * fi)) == false) viol("commute", cy);
            }
        }
        sample(fmt("D=-%llu class number %zu: all pairs", (unsigned long long)p, cls.size()));
    }
}
// Every reduced form moved by every word over T^k, S up to a length: reducers must come back.
static void sl2() {
    std::vector<Z> ks; for (long k : {1L, -1L, 2L, -3L}) ks.push_back(k);
    for (int e : {31, 62, 63, 64, 100}) { ks.push_back(Z(1) << e); ks.push_back(-(Z(1) << e) + 1); }
    if (C.thorough()) for (int e : {32, 33, 61, 65, 127, 128, 200}) { ks.push_back((Z(1) << e) - 1); ks.push_back(-(Z(1) << e)); }
    std::vector<Z> Ds; for (uint64_t p : small_ps(7, C.thorough() ? 1500 : 300)) Ds.push_back(-Z((unsigned long)p));
    for (int b : {40, 63, 64, 65, 128, 256, 1024}) Ds.push_back(-big_p(b, 0));
    int depth = C.thorough() ? 3 : 2;
    for (auto &D : Ds) {
        std::vector<F> cls; if (D > -100000) cls = ref::all_reduced(D);
        else for (long q : {2, 3, 5, 1009}) { F f = prime_form(D, Z(q)); ref::reduce(f, D); cls.push_back(f); cls.push_back(ref::inverse(f, D)); F s = ref::sqn(f, 200, D); cls.push_back(s); }
        cls.push_back(ref::identity(D));
        for (auto &f0 : cls) {
            if (!next()) continue;
            Grp g(D);
            C.nontrivial++; C.traces++;
            std::vector<std::pair<F, std::string>> fr{{f0, ""}};
            for (int d = 0; d < depth; d++) {
                std::vector<std::pair<F, std::string>> nx;
                for (auto &pr : fr) for (auto &k : ks) for (int fl = 0; fl < 2; fl++) {
                    F f = pr.first; f.b += 2 * f.a * k; f.c = (f.b * f.b - D) / (4 * f.a);
                    if (fl) { std::swap(f.a, f.c); f.b = -f.b; }
                    // capacity of the library's reduction context
                    if (mpz_sizeinbase(f.c.get_mpz_t(), 2) > 3900 || mpz_sizeinbase(f.a.get_mpz_t(), 2) > 3900) continue;
                    C.states++;
                    std::string w = pr.second + (fl ? "S" : "") + "T^" + k.get_str() + " ";
                    judge_reducers(g, mkform(f), f0, "moved by " + w + " from " + ref::str(f0));
                    nx.push_back({f, w});
                }
                fr.swap(nx);
            }
        }
    }
}
// operation sequences with unreduced intermediates, exponent-tracked
static void seqs() {
    std::vector<std::pair<int,int>> ds;
    for (int b : {16, 33, 62, 63, 64, 65, 96, 127, 128, 129, 192, 256, 257, 320, 512, 768, 1023, 1024}) for (int k = 0; k < (C.thorough() ? 6 : 3); k++) ds.push_back({b, k});
    if (C.thorough()) for (int b = 20; b < 1024; b += 17) ds.push_back({b, 2});
    int depth = C.thorough() ? 9 : 6;
    for (auto [bits, k] : ds) {
        Z D = -big_p(bits, k); static std::map<std::string, F> memo;
        for (int st = 0; st < 4; st++) {
            if (!next()) continue;
            Grp g(D); C.traces++; C.nontrivial++;
            F base = st == 0 ? ref::identity(D) : st == 1 ? ref::mk(2, 1, D) : st == 2 ? prime_form(D, 3) : ref::sqn(ref::mk(2, 1, D), bits / 2 + 3, D);
            ref::reduce(base, D); F binv = ref::inverse(base, D);
            form bi = mkform(base), bv = mkform(binv);
            struct N { form f; F cl; std::string w; };
            std::vector<N> fr{{bi, base, "x"}}; std::set<std::string> seen;
            for (int d = 0; d < depth; d++) {
                std::vector<N> nx;
                for (auto &n : fr) for (int op = 0; op < 7; op++) {
                    form r; F want; const char *nm; bool er = false; std::string cx = fmt("%d-bit D#%d start#%d after %s:", bits, k, st, n.w.c_str());
                    // long unreduced chains double in size; the library bounds them by reducing when a exceeds half the discriminant
                    bool big = (int)mpz_sizeinbase(n.f.a.impl, 2) > bits / 2 + 70;
                    switch (op) {
                        case 0: if (big) continue; nm = "nudupl"; r = g.nudupl_alias(n.f); want = ref::square(n.cl, D); break;
                        case 1: if (big) continue; nm = "nucomp"; r = g.nucomp_alias1(n.f, bi); want = ref::compose(n.cl, base, D); break;
                        case 2: if (big) continue; nm = "nucomp"; r = g.nucomp(n.f, bv); want = ref::compose(n.cl, binv, D); break;
                        case 3: if (big) continue; nm = "nucomp-self"; r = g.nucomp(n.f, n.f); want = ref::square(n.cl, D); break;
                        case 4: nm = "PulmarkReducer"; r = g.pul(n.f); want = n.cl; er = true; break;
                        case 5: nm = "vdf_original::square"; if (d && n.w.back() != 'r') continue; r = g.vosq(n.f); want = ref::square(n.cl, D); er = true; break;
                        default: nm = "multiply"; if (d && n.w.back() != 'r') continue; r = n.f * bi; want = ref::compose(n.cl, base, D); er = true; break;
                    }
                    judge(g, r, want, nm, cx, er);
                    judge(g, g.red(r), want, "form::reduce", cx + nm, true);
                    if (!seen.insert(mpz_class(r.a.impl).get_str(62) + "," + mpz_class(r.b.impl).get_str(62) + "," + std::to_string(d)).second) continue;
                    C.states++;
                    if (C.nviol > 50) return;
                    nx.push_back({r, want, n.w + "dgvsrrr"[op]});
                }
                fr.swap(nx);
                C.extra["max_frontier"] = std::max<uint64_t>(C.extra["max_frontier"], fr.size());
            }
        }
    }
}
// long unreduced runs: the library's own schedule of (square, maybe multiply, reduce only when large)
static void runs() {
    for (int bits : {64, 128, 256, 512, 1024, 2048}) for (int k = 0; k < 3; k++) for (int lag = 0; lag < 4; lag++) {
        if (!next()) continue;
        Z D = -big_p(bits, k); Grp g(D); F c = ref::mk(2, 1, D); ref::reduce(c, D); form f = mkform(c); F base = c; form bi = f;
        int N = C.thorough() ? 6000 : 600; C.nontrivial++; C.traces++;
        for (int i = 0; i < N; i++) {
            f = g.nudupl_alias(f); c = ref::square(c, D);
            if (lag == 1 && i % 3 == 0) { f = g.nucomp_alias1(f, bi); c = ref::compose(c, base, D); }
            if (lag >= 2 && (i & lag) == 0) { f = g.nucomp(f, f); c = ref::square(c, D); }
            C.states++;
            judge(g, f, c, "nudupl-run", fmt("bits %d D#%d step %d", bits, k, i), false);
            if ((int)mpz_sizeinbase(f.a.impl, 2) > bits / 2 + (lag == 3 ? 0 : 40) || lag == 0) { f = g.pul(f); judge(g, f, c, "PulmarkReducer", fmt("bits %d step %d", bits, i), true); }
            if (C.nviol > 20) return;
        }
    }
}
static void pw() {   // C02 small groups: every form, every exponent past the order
    for (uint64_t p : small_ps(7, C.thorough() ? 9000 : 2500)) {
        if (!next()) continue;
        Z D = -Z((unsigned long)p); Grp g(D); auto cls = ref::all_reduced(D); C.traces++; C.nontrivial++;
        uint64_t M = 2 * cls.size() + 70;
        for (auto &f : cls) {
            F acc = ref::identity(D);
            for (uint64_t n = 0; n <= M; n++) {
                form r = FastPowFormNucomp(mkform(f), g.Di, integer((uint64_t)n), g.L, *g.pr); C.states++;
                judge(g, r, acc, "FastPowFormNucomp", "x=" + ref::str(f) + fmt(" n=%llu", (unsigned long long)n), true);
                acc = ref::compose(acc, f, D);
            }
        }
        sample(fmt("D=-%llu: %zu forms x exponents 0..%llu", (unsigned long long)p, cls.size(), (unsigned long long)M));
    }
}
static void pwbig() {  // larger discriminants: all exponents 0..255 and every exponent of shape 2^i, 2^i-1, 2^i+2^j up to 264 bits
    for (int bits : {63, 64, 65, 128, 256, 512, 1024}) for (int k = 0; k < 3; k++) for (int st = 0; st < 3; st++) {
        Z D = -big_p(bits, k); F x = st == 0 ? ref::mk(2, 1, D) : st == 1 ? ref::identity(D) : ref::sqn(ref::mk(2, 1, D), bits + 1, D); ref::reduce(x, D);
        std::vector<F> p2; 
        for (int blk = 0; blk < 6; blk++) {
            if (!next()) continue;
            Grp g(D); C.nontrivial++; C.traces++;
            int top = bits > 300 && !C.thorough() ? 140 : 264;
            if (p2.empty()) { p2.push_back(x); for (int i = 1; i <= top; i++) p2.push_back(ref::square(p2.back(), D)); }
            auto chk = [&](const Z &n, const F &w) { C.states++; judge(g, FastPowFormNucomp(mkform(x), g.Di, toI(n), g.L, *g.pr), w, "FastPowFormNucomp", fmt("bits %d D#%d start#%d n=", bits, k, st) + n.get_str(), true); };
            if (blk == 0) { F a = ref::identity(D); for (int n = 0; n < 256; n++) { chk(n, a); a = ref::compose(a, x, D); } }
            else if (blk == 1) for (int i = 0; i <= top; i += (bits > 300 ? 3 : 1)) chk(Z(1) << i, p2[i]);
            else if (blk == 2) { F a = ref::identity(D); for (int i = 0; i <= top; i++) { if (i % (bits > 300 ? 8 : 2) == 0) chk((Z(1) << i) - 1, a); a = ref::compose(a, p2[i], D); } }
            else { int st2 = C.thorough() ? 5 : (bits > 300 ? 37 : 13); for (int i = blk - 3; i <= top; i += st2) for (int j = 0; j < i; j += st2) chk((Z(1) << i) + (Z(1) << j), ref::compose(p2[i], p2[j], D)); }
        }
    }
}
static void powmod() {  // FastPow(2, t, B)
    std::vector<Z> Bs; for (long b = 1; b <= 64; b++) Bs.push_back(b);
    for (int e : {31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 255, 256, 263, 264}) for (long d : {-1L, 0L, 1L}) Bs.push_back((Z(1) << e) + d);
    for (int k = 2; k < 8; k++) { Z x = big_p(264, k); Bs.push_back(x); }
    std::vector<uint64_t> ts; for (uint64_t t = 0; t < 600; t++) ts.push_back(t);
    for (int i = 9; i < 64; i++) for (int d = -1; d <= 1; d++) ts.push_back((1ull << i) + d);
    for (int i = 0; i < 64; i++) for (int j = 0; j < i; j += 5) ts.push_back((1ull << i) | (1ull << j));
    ts.push_back(~0ull); ts.push_back(~0ull - 1);
    for (auto &B : Bs) {
        if (!next()) continue; C.traces++; C.nontrivial++;
        integer Bi = toI(B);
        for (uint64_t base : {2ull, 1ull, 3ull, 0ull}) for (uint64_t t : ts) {
            if (base != 2 && t > 700) continue;
            integer r = FastPow(base, t, Bi); C.states++; C.transitions++;
            Z want, e; mpz_import(e.get_mpz_t(), 1, 1, 8, 0, 0, &t); Z bz = (unsigned long)base; 
            // independent square-and-multiply
            want = ref::fmod(1, B); for (int i = 63; i >= 0; i--) { want = want * want % B; if (t >> i & 1) want = want * bz % B; }
            if (toZ(r) != want) viol("FastPow", fmt("FastPow(%llu,%llu,", (unsigned long long)base, (unsigned long long)t) + B.get_str() + ")=" + toZ(r).get_str() + " expected " + want.get_str());
        }
    }
    if (next()) {
        integer z((uint64_t)0); bool thrown = false; try { FastPow(2, 5, z); } catch (std::exception &) { thrown = true; }
        if (!thrown) viol("FastPow-zero", "zero modulus is not reported"); C.states++; C.transitions++; C.traces++;
    }
}
int main(int argc, char **argv) {
    init(argc, argv);
    const std::string &m = C.mode;
    if (m == "pairs") pairs(); else if (m == "sl2") sl2(); else if (m == "seqs") seqs(); else if (m == "runs") runs();
    else if (m == "pow") pw(); else if (m == "powbig") pwbig(); else if (m == "powmod") powmod(); else return 3;
    return finish();
}
