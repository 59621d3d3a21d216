// C31: the Python interface. CPython is embedded, the extension module of the tree is compiled into this program (with
// AddressSanitizer), and every call goes through the interpreter's argument conversion. The oracle is independent of the
// library: ref_codec.h / ref_verify.h decide what each function has to return.
#define PYBIND11_ASSERT_GIL_HELD_INCREF_DECREF 1
#include <pybind11/embed.h>
#include "group_ops.h"
#include "ref_verify.h"
#include "python_bindings/fastvdf.cpp"
#include <sys/resource.h>
#include <sanitizer/asan_interface.h>
using namespace vh;
typedef std::vector<uint8_t> B;
static bool nogil_expected = false; static uint64_t gil_seen = 0, gil_free_seen = 0, slow_with_gil = 0;
// GMP is not instrumented: what it reads and writes is checked here; these are also the places where the interpreter lock is looked at
extern "C" void __real___gmpz_import(mpz_ptr, size_t, int, size_t, int, size_t, const void *);
extern "C" void __wrap___gmpz_import(mpz_ptr r, size_t n, int o, size_t sz, int e, size_t nails, const void *p) {
    if (n && sz && __asan_region_is_poisoned((void *)p, n * sz)) { fprintf(stderr, "mpz_import reads %zu bytes outside an object\n", n * sz); abort(); }
    __real___gmpz_import(r, n, o, sz, e, nails, p); }
extern "C" void *__real___gmpz_export(void *, size_t *, int, size_t, int, size_t, mpz_srcptr);
extern "C" void *__wrap___gmpz_export(void *p, size_t *c, int o, size_t sz, int e, size_t nails, mpz_srcptr z) {
    size_t n = mpz_sgn(z) ? (mpz_sizeinbase(z, 2) + 8 * sz - 1) / (8 * sz) : 0; if (p && n && __asan_region_is_poisoned(p, n * sz)) { fprintf(stderr, "mpz_export writes %zu bytes outside an object\n", n * sz); abort(); }
    return __real___gmpz_export(p, c, o, sz, e, nails, z); }
extern "C" int __real___gmpz_probab_prime_p(mpz_srcptr, int);
extern "C" int __wrap___gmpz_probab_prime_p(mpz_srcptr z, int n) { if (nogil_expected) { if (PyGILState_Check()) slow_with_gil++; else gil_free_seen++; } return __real___gmpz_probab_prime_p(z, n); }
extern "C" void __real___gmpz_powm_ui(mpz_ptr, mpz_srcptr, unsigned long, mpz_srcptr);
extern "C" void __wrap___gmpz_powm_ui(mpz_ptr r, mpz_srcptr a, unsigned long e, mpz_srcptr m) { if (nogil_expected) { if (PyGILState_Check()) slow_with_gil++; else gil_free_seen++; } __real___gmpz_powm_ui(r, a, e, m); }

static py::object M; // the module
static std::string hx(const B &b, size_t n = 8) { std::string r; for (size_t i = 0; i < b.size() && i < n; i++) r += fmt("%02x", b[i]); return r; }
static B rep(uint8_t c, size_t n) { return B(n, c); }
static py::bytes pb(const B &b) { return py::bytes((const char *)b.data(), b.size()); }
static B ub(const py::object &o) { std::string s = py::cast<std::string>(py::reinterpret_borrow<py::bytes>(o)); return B(s.begin(), s.end()); }
static std::string ds(const Z &D) { return (D < 0 ? "-0x" : "0x") + Z(abs(D)).get_str(16); }
struct R { bool ok; py::object v; std::string exc; };
// run a call; an exception of the library must arrive as an ordinary Python exception
template <class Fn> static R call(const char *what, Fn f) {
    C.states++; C.transitions++; alarm(120); R r; nogil_expected = strcmp(what, "bqfc_deserialize") != 0;
    try { r.v = f(); r.ok = true; } catch (py::error_already_set &e) { r.ok = false; try { r.exc = py::cast<std::string>(e.type().attr("__name__")); } catch (...) { r.exc = "?"; } if (!e.matches(PyExc_Exception)) viol("py-not-an-exception", std::string(what) + " raised " + r.exc); }
    catch (std::exception &e) { r.ok = false; r.exc = "c++"; viol("py-cpp-exception", std::string(what) + ": " + e.what()); }
    nogil_expected = false; alarm(0); if (slow_with_gil) { viol("py-holds-interpreter-lock", std::string(what) + " computes while holding the interpreter lock"); slow_with_gil = 0; }
    if (!PyGILState_Check()) { viol("py-lost-interpreter-lock", what); } if (PyErr_Occurred()) { viol("py-error-left-set", what); PyErr_Clear(); }
    C.extra[r.ok ? "returned" : "raised_" + r.exc]++; return r; }
static B enc(const F &f, const Z &D) { return ref::encode(f, mpz_sizeinbase(D.get_mpz_t(), 2)); }
static const B seedv{0xde, 0xad, 0xbe, 0xef};
struct Proofs { Z D; F x, y; B xs, ys, p0, p1, p2; Z Bz; uint64_t t; int bits; };
static Proofs mk(int bits, uint64_t t) {
    Proofs p; p.t = t; p.bits = bits; p.D = ref::create_discriminant(seedv, bits); p.x = ref::mk(2, 1, p.D); ref::reduce(p.x, p.D); p.xs = enc(p.x, p.D); p.y = ref::sqn(p.x, t, p.D); p.ys = enc(p.y, p.D);
    auto cat = [&](const F &y, const F &pi) { B o = enc(y, p.D), q = enc(pi, p.D); o.insert(o.end(), q.begin(), q.end()); return o; };
    p.p0 = cat(p.y, ref::prove(p.D, p.x, p.y, t)); p.Bz = ref::challenge(p.x, p.y, p.D);
    F m = ref::sqn(p.x, 4, p.D), m2 = ref::sqn(m, 3, p.D); auto seg = [&](B &o, const F &a, const F &b, uint64_t n) { ref::put_be64(o, n); ref::put_be(o, ref::challenge(a, b, p.D), 33); B e = enc(ref::prove(p.D, a, b, n), p.D); o.insert(o.end(), e.begin(), e.end()); };
    p.p1 = cat(p.y, ref::prove(p.D, m, p.y, t - 4)); seg(p.p1, p.x, m, 4);
    p.p2 = cat(p.y, ref::prove(p.D, m2, p.y, t - 7)); seg(p.p2, m, m2, 3); seg(p.p2, p.x, m, 4);
    return p; }
static bool okD(const Z &D) { return D < 0 && mpz_sizeinbase(D.get_mpz_t(), 2) <= 1024; }
// expectation of the full verifier: 1 accepted, 0 must not be accepted
static bool want_n(const Z &D, const B &x, const B &b, uint64_t t, uint64_t depth) { return okD(D) && x.size() == 100 && ref::verify(D, x.data(), b.data(), b.size(), t, depth); }
static bool want_1(const Z &D, const B &x, const B &y, const B &pi, uint64_t t) { if (y.size() != 100 || pi.size() != 100) return false; B b = y; b.insert(b.end(), pi.begin(), pi.end()); return want_n(D, x, b, t, 0); }
static int truth(const R &r, const char *what, const std::string &ctx) { if (!r.ok) return 0; if (!PyBool_Check(r.v.ptr())) { viol("py-result-type", std::string(what) + " " + ctx + " does not return a bool"); return -1; } return r.v.ptr() == Py_True; }

// all verification functions on one instance
static void verify_all(const Z &D, const B &x, const B &b, uint64_t t, uint64_t depth, int bits, const std::string &ctx, bool seed_ok) {
    bool w = want_n(D, x, b, t, depth); C.extra[w ? "instances_valid" : "instances_invalid"]++; py::bytes px = pb(x), pbl = pb(b); py::str pd(ds(D));
    std::string all = ctx + fmt(" D=%s x=%zu bytes blob=%zu bytes t=%llu depth=%llu", D < 0 ? "negative" : "positive", x.size(), b.size(), (unsigned long long)t, (unsigned long long)depth);
    R r = call("verify_n_wesolowski", [&] { return M.attr("verify_n_wesolowski")(pd, px, pbl, t, bits, depth); }); int g = truth(r, "verify_n_wesolowski", ctx);
    if (g != (int)w) viol("py-verify-n", all + fmt(": verify_n_wesolowski says %d, must be %d", g, w));
    if (seed_ok) { r = call("create_discriminant_and_verify_n_wesolowski", [&] { return M.attr("create_discriminant_and_verify_n_wesolowski")(pb(seedv), bits, px, pbl, t, depth); }); g = truth(r, "create_discriminant_and_verify_n_wesolowski", ctx); if (g != (int)w) viol("py-create-verify", all + fmt(": create_discriminant_and_verify_n_wesolowski says %d, must be %d", g, w)); }
    // the challenge of the proof; then the proof without its output under that challenge
    r = call("get_b_from_n_wesolowski", [&] { return M.attr("get_b_from_n_wesolowski")(pd, px, pbl, t, depth); });
    bool structural = okD(D) && x.size() == 100 && depth < 100 && b.size() == 200 + 141 * depth; if (r.ok && !structural) viol("py-getb-accepts", all + ": get_b_from_n_wesolowski returns a value");
    if (w && !r.ok) viol("py-getb-refuses", all + ": " + r.exc);
    std::vector<std::string> bs; if (r.ok) { std::string s = py::cast<std::string>(r.v); bs.push_back(s); if (w) { Z v; Z need; F xx, yy; ref::decode_consensus(x.data(), D, xx); uint64_t it = t; ref::segs(D, xx, b.data(), 200, b.size(), it); ref::decode_consensus(b.data(), D, yy); need = ref::challenge(xx, yy, D); if (s != "0x" + need.get_str(16)) viol("py-getb-value", all + ": " + s + " instead of 0x" + need.get_str(16)); } }
    bs.push_back("0"); bs.push_back("-1"); bs.push_back("1"); bs.push_back("0x1" + std::string(70, '0'));
    B wb; if (b.size() >= 200) wb.assign(b.begin() + 100, b.end()); else wb = b;
    for (auto &s : bs) { Z Bz; if (mpz_set_str(Bz.get_mpz_t(), s.c_str(), 0)) Bz = 0; F y; bool w2 = false; if (okD(D) && x.size() == 100 && Bz > 0 && mpz_sizeinbase(Bz.get_mpz_t(), 2) <= 264) w2 = ref::verify_with_b(D, Bz, x.data(), wb.data(), wb.size(), t, depth, y);
        R q = call("verify_n_wesolowski_with_b", [&] { return M.attr("verify_n_wesolowski_with_b")(pd, py::str(s), px, pb(wb), t, depth); }); bool g2 = false; B yb; if (q.ok) { if (!PyTuple_Check(q.v.ptr()) || PyTuple_Size(q.v.ptr()) != 2 || !PyBool_Check(PyTuple_GetItem(q.v.ptr(), 0)) || !PyBytes_Check(PyTuple_GetItem(q.v.ptr(), 1))) { viol("py-result-type", "verify_n_wesolowski_with_b " + ctx); continue; } g2 = PyTuple_GetItem(q.v.ptr(), 0) == Py_True; yb = ub(py::reinterpret_borrow<py::object>(PyTuple_GetItem(q.v.ptr(), 1))); }
        if (g2 != w2) viol("py-with-b", all + " B=" + s + fmt(": verdict %d, must be %d", g2, w2)); if (g2 && w2 && yb != enc(y, D)) viol("py-with-b-output", all + ": output " + hx(yb, 100)); if (!g2 && q.ok && !yb.empty()) viol("py-with-b-output", all + ": output with a negative verdict"); }
    if (b.size() == 200 && depth == 0) { B y(b.begin(), b.begin() + 100), pi(b.begin() + 100, b.end()); R q = call("verify_wesolowski", [&] { return M.attr("verify_wesolowski")(pd, px, pb(y), pb(pi), t); }); int g3 = truth(q, "verify_wesolowski", ctx); if (g3 != (int)w) viol("py-verify-1", all + fmt(": verify_wesolowski says %d, must be %d", g3, w)); }
    if (ub(px) != x || ub(pbl) != b) viol("py-argument-modified", all);
}
static void m_verify() {
    const std::string big = "x";
    for (int bits : {64, 256, 512, 1024}) { Proofs P = mk(bits, 11); std::vector<std::pair<B *, uint64_t>> bl{{&P.p0, 0}, {&P.p1, 1}, {&P.p2, 2}};
        // sizes of the start form (the library must never look beyond what it was given) and of the blob
        for (auto &b : bl) { for (size_t xl = 0; xl <= 130; xl++) { if (!next()) continue; C.traces++; C.nontrivial++; B x = P.xs; x.resize(xl, 0); verify_all(P.D, x, *b.first, 11, b.second, bits, fmt("%d bits x length", bits), true); if (xl == 0 || xl == 99 || xl == 101) { B f = rep(0xff, xl); verify_all(P.D, f, *b.first, 11, b.second, bits, "ff", true); } }
            for (size_t n = 0; n <= b.first->size() + 145; n += n + 3 < b.first->size() || n > b.first->size() + 3 ? (C.thorough() ? 1 : 7) : 1) { if (!next()) continue; C.traces++; B c = *b.first; c.resize(n, 0); for (uint64_t dep : std::initializer_list<uint64_t>{b.second, b.second + 1, 0, ~0ull, ~0ull / 141}) verify_all(P.D, P.xs, c, 11, dep, bits, fmt("%d bits blob length", bits), true); }
            // counts and depths
            if (next()) { C.traces++; for (uint64_t t : {0ull, 1ull, 3ull, 4ull, 7ull, 10ull, 11ull, 12ull, 1ull << 31, (1ull << 32) + 11, (1ull << 63) + 11, ~0ull}) for (uint64_t dep : {0ull, 1ull, 2ull, 3ull, (1ull << 32) + b.second, (1ull << 63), ~0ull}) verify_all(P.D, P.xs, *b.first, t, dep, bits, fmt("%d bits counts", bits), true); }
            // single byte changes
            for (size_t pos = 0; pos < b.first->size(); pos += C.thorough() ? 1 : bits == 256 ? 1 : 9) { if (!next()) continue; C.traces++; for (int m : {1, 0x80}) { B c = *b.first; c[pos] ^= m; verify_all(P.D, P.xs, c, 11, b.second, bits, fmt("%d bits byte %zu", bits, pos), true); } }
            for (size_t pos = 0; pos < 100; pos += C.thorough() ? 1 : bits == 256 ? 1 : 9) { if (!next()) continue; C.traces++; for (int m : {1, 0x80}) { B c = P.xs; c[pos] ^= m; verify_all(P.D, c, *b.first, 11, b.second, bits, fmt("%d bits x byte %zu", bits, pos), true); } }
            // discriminants
            std::vector<Z> dv{-P.D, P.D - 8, P.D + 8, P.D * 4, P.D - 1, 0, 1, -1, -3, -4, -7, -8, -(Z(1) << 1024) + 1, -(Z(1) << 1024), -(Z(1) << 1025) - 7, -(Z(1) << 4096) - 7};
            for (auto &D : dv) { if (!next()) continue; C.traces++; verify_all(D, P.xs, *b.first, 11, b.second, bits, "discriminant " + ds(D).substr(0, 24), false); }
            // the discriminant size argument
            for (long ib : {0l, 1l, (long)bits, (long)bits + 1, 1024l, 1025l, 1l << 32, 1l << 62}) { if (!next()) continue; C.traces++; R r = call("verify_n_wesolowski", [&] { return M.attr("verify_n_wesolowski")(py::str(ds(P.D)), pb(P.xs), pb(*b.first), 11, ib, b.second); }); bool acc = truth(r, "verify_n_wesolowski", "") == 1; if (acc && (ib <= 0 || ib > 1024)) viol("py-verify-n", fmt("size %ld accepted", ib)); if (!acc && ib == bits) viol("py-verify-n", "refused"); } }
        // verify_wesolowski with each of its strings at every length
        for (int w = 0; w < 3; w++) for (size_t n = 0; n <= 120; n++) { if (!next()) continue; C.traces++; B y(P.p0.begin(), P.p0.begin() + 100), pi(P.p0.begin() + 100, P.p0.end()), x = P.xs; (w == 0 ? x : w == 1 ? y : pi).resize(n, 0); R q = call("verify_wesolowski", [&] { return M.attr("verify_wesolowski")(py::str(ds(P.D)), pb(x), pb(y), pb(pi), 11); }); bool g = truth(q, "verify_wesolowski", "") == 1; if (g != want_1(P.D, x, y, pi, 11)) viol("py-verify-1", fmt("%d bits string %d of length %zu: %d", bits, w, n, g)); if (n != 100 && q.ok) viol("py-verify-1-length", fmt("string %d of %zu bytes does not raise", w, n)); }
    }
}
static void m_disc() {
    std::vector<B> seeds{B(), B{0}, B{0xff}, rep(0, 32), rep(0xff, 32), rep(0xff, 300), seedv, B{'a', 0, 'b'}}; for (int i = 0; i < (C.thorough() ? 64 : 12); i++) seeds.push_back(B{(uint8_t)(i * 37), (uint8_t)i, 0});
    auto go = [&](const B &s, long n) { std::string ctx = "seed=" + hx(s, 16) + fmt(" (%zu bytes) size=%ld", s.size(), n); R r = call("create_discriminant", [&] { return M.attr("create_discriminant")(pb(s), n); }); bool good = !s.empty() && n > 0 && n <= 1024 && n % 8 == 0;
            if (!good && r.ok) viol("py-disc-accepts", ctx); if (good && !r.ok && n >= 64 && s.size() > 2) viol("py-disc-refuses", ctx + ": " + r.exc); if (good && r.ok && n >= 16) { Z D = ref::create_discriminant(s, n); std::string g = py::cast<std::string>(r.v); if (!PyUnicode_Check(r.v.ptr()) || g != ds(D)) viol("py-disc-value", ctx + ": " + g.substr(0, 40)); else C.nontrivial++; } };
    for (auto &s : seeds) for (long n = -8; n <= 1040; n += n < 40 ? 1 : n % 8 == 0 ? (s.size() == 3 && n > 128 ? 40 : 7) : 1) { if (!next()) continue; C.traces++; go(s, n); }
    for (auto &s : seeds) for (long n : {-2147483648l, -1024l, 2147483647l, 65536l, 2147483648l, 4294967296l + 256, 1l << 62}) { if (!next()) continue; C.traces++; go(s, n); }
    // a library discriminant goes back in as text in every form the interface can be given it
    for (int bits : {64, 256, 1024}) { Proofs P = mk(bits, 11); std::vector<std::string> ok{ds(P.D), P.D.get_str(10), "-0X" + Z(-P.D).get_str(16), " " + ds(P.D)}, bad{"", "abc", "-", "0x", "-0x", "--7", "0b2", Z(-P.D).get_str(10), ds(P.D) + "z", "-" + Z(-P.D).get_str(16) + "g", ds(P.D).substr(0, ds(P.D).size() - 1)};
        for (auto &s : ok) if (next()) { C.traces++; R r = call("verify_n_wesolowski", [&] { return M.attr("verify_n_wesolowski")(py::str(s), pb(P.xs), pb(P.p0), 11, bits, 0); }); if (truth(r, "", "") != 1 && s[0] != ' ') viol("py-disc-text", "'" + s.substr(0, 30) + "' not accepted"); }
        for (auto &s : bad) if (next()) { C.traces++; R r = call("verify_n_wesolowski", [&] { return M.attr("verify_n_wesolowski")(py::str(s), pb(P.xs), pb(P.p0), 11, bits, 0); }); if (truth(r, "", "") == 1) viol("py-disc-text", "'" + s.substr(0, 30) + "' accepted");
            for (const char *f : {"verify_wesolowski", "bqfc_deserialize", "get_b_from_n_wesolowski"}) { R q = call(f, [&] { return std::string(f) == "verify_wesolowski" ? py::object(M.attr(f)(py::str(s), pb(P.xs), pb(P.ys), pb(B(P.p0.begin() + 100, P.p0.end())), 11)) : std::string(f) == "bqfc_deserialize" ? py::object(M.attr(f)(py::str(s), pb(P.xs))) : py::object(M.attr(f)(py::str(s), pb(P.xs), pb(P.p0), 11, 0)); }); if (q.ok && std::string(f) == "verify_wesolowski" && truth(q, "", "") == 1) viol("py-disc-text", std::string(f) + " '" + s.substr(0, 30) + "' accepted"); } } }
}
// what the interpreter must refuse or convert: every argument of every function x values of the wrong kind
static void m_types() {
    Proofs P = mk(256, 11); B y(P.p0.begin(), P.p0.begin() + 100), pi(P.p0.begin() + 100, P.p0.end()); py::str D(ds(P.D)), Bs(ds(P.Bz));
    struct Fn { const char *n; py::list a; std::string kinds; }; auto L = [](std::initializer_list<py::object> v) { py::list l; for (auto &o : v) l.append(o); return l; };
    std::vector<Fn> fs{{"create_discriminant", L({pb(seedv), py::int_(256)}), "bi"}, {"verify_wesolowski", L({D, pb(P.xs), pb(y), pb(pi), py::int_(11)}), "ssssu"}, {"verify_n_wesolowski", L({D, pb(P.xs), pb(P.p0), py::int_(11), py::int_(256), py::int_(0)}), "sssuuu"}, {"create_discriminant_and_verify_n_wesolowski", L({pb(seedv), py::int_(256), pb(P.xs), pb(P.p0), py::int_(11), py::int_(0)}), "bissuu"},
        {"prove", L({pb(seedv), pb(P.xs), py::int_(256), py::int_(11), py::str("")}), "bsius"}, {"verify_n_wesolowski_with_b", L({D, Bs, pb(P.xs), pb(pi), py::int_(11), py::int_(0)}), "ssssuu"}, {"bqfc_deserialize", L({D, pb(P.xs), py::bool_(true)}), "ssB"}, {"get_b_from_n_wesolowski", L({D, pb(P.xs), pb(P.p0), py::int_(11), py::int_(0)}), "sssuu"}};
    py::module_ bi = py::module_::import("builtins"); py::object big = bi.attr("pow")(2, 64), nbig = bi.attr("pow")(2, 200), half = bi.attr("pow")(2, 31), neg = py::int_(-1);
    auto wrong = [&](char k, std::vector<std::pair<std::string, py::object>> &o) { o.push_back({"None", py::none()}); o.push_back({"object", bi.attr("object")()}); o.push_back({"list", py::list()}); o.push_back({"dict", py::dict()});
        if (k == 'u' || k == 'i') { o.push_back({"2^64", big}); o.push_back({"2^200", nbig}); o.push_back({"-2^200", bi.attr("int")("-" + py::cast<std::string>(py::str(nbig)))}); o.push_back({"float", py::float_(11.0)}); o.push_back({"nan", py::float_(NAN)}); o.push_back({"str", py::str("11")}); o.push_back({"bytes", py::bytes("\x0b")}); if (k == 'u') o.push_back({"-1", neg}); else o.push_back({"2^31", half}); }
        if (k == 's' || k == 'b') { o.push_back({"int", py::int_(5)}); o.push_back({"float", py::float_(1.5)}); } if (k == 'b') { o.push_back({"str", py::str("abcd")}); o.push_back({"bytearray", bi.attr("bytearray")(pb(seedv))}); } };
    for (auto &f : fs) { for (int ai = 0; ai < (int)f.kinds.size(); ai++) { if (!next()) continue; C.traces++; C.nontrivial++; std::vector<std::pair<std::string, py::object>> vs; wrong(f.kinds[ai], vs); if (f.kinds[ai] == 'B') vs.clear();
            for (auto &v : vs) { py::list a; for (int i = 0; i < (int)f.kinds.size(); i++) a.append(i == ai ? v.second : py::object(f.a[i])); R r = call(f.n, [&] { return M.attr(f.n)(*py::tuple(a)); }); if (r.ok) viol("py-type-accepted", fmt("%s argument %d given %s is accepted", f.n, ai, v.first.c_str())); else if (r.exc != "TypeError") viol("py-type-error", fmt("%s argument %d given %s raises %s", f.n, ai, v.first.c_str(), r.exc.c_str())); } }
        if (!next()) continue; C.traces++; // arity, and the call that must work
        R r = call(f.n, [&] { return M.attr(f.n)(*py::tuple(f.a)); }); if (!r.ok) viol("py-refuses", std::string(f.n) + " raises " + r.exc + " on valid arguments");
        for (int n = 0; n <= (int)f.kinds.size() + 1; n++) { if (n == (int)f.kinds.size() || (f.kinds.back() == 'B' && n == 2)) continue; py::list a; for (int i = 0; i < n; i++) a.append(i < (int)f.kinds.size() ? py::object(f.a[i]) : py::object(py::int_(0))); R q = call(f.n, [&] { return M.attr(f.n)(*py::tuple(a)); }); if (q.ok) viol("py-arity", fmt("%s accepts %d arguments", f.n, n)); }
        // strings that are not valid text for the field but legal objects
        for (int ai = 0; ai < (int)f.kinds.size(); ai++) if (f.kinds[ai] == 's' && !(std::string(f.n) == "prove" && ai == 4)) for (int sv = 0; sv < 4; sv++) { py::list a; py::object s = sv == 0 ? py::object(py::str("")) : sv == 1 ? bi.attr("chr")(0xd800) : sv == 2 ? py::object(bi.attr("str")("\u00e9\u20ac")) : bi.attr("chr")(0); for (int i = 0; i < (int)f.kinds.size(); i++) a.append(i == ai ? s : py::object(f.a[i])); R q = call(f.n, [&] { return M.attr(f.n)(*py::tuple(a)); });
            if (q.ok) { py::object v = q.v; if (PyTuple_Check(v.ptr()) && std::string(f.n) != "bqfc_deserialize") v = py::reinterpret_borrow<py::object>(PyTuple_GetItem(v.ptr(), 0)); if (v.ptr() != Py_False) viol("py-text-accepted", fmt("%s argument %d odd text %d accepted", f.n, ai, sv)); } } }
    if (next()) { C.traces++; // the package exports the module's functions under the same names
        py::module_ sys = py::module_::import("sys"); const char *rp = getenv("VERIF_REPO"); sys.attr("path").attr("insert")(0, rp && *rp ? rp : "/repo"); sys.attr("modules")["chiavdf._chiavdf"] = M; try { py::module_ p = py::module_::import("chiavdf"); py::list all = p.attr("__all__"); for (auto &f : fs) { if (!py::hasattr(p, f.n) || !p.attr(f.n).is(M.attr(f.n))) viol("py-package", std::string("chiavdf.") + f.n + " is not the module's function"); if (!all.contains(f.n)) viol("py-package", std::string(f.n) + " missing from __all__"); C.transitions++; } } catch (py::error_already_set &e) { viol("py-package", e.what()); } }
}
static void m_prove() {
    std::string dir = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp"; std::string here = fmt("%s/py_alive.%d", dir.c_str(), (int)getpid()); close(open(here.c_str(), O_CREAT | O_RDWR, 0600));
    for (int bits : {64, 256, 512, 1024}) for (int si = 0; si < 2; si++) for (int xk = 0; xk < 6; xk++) { if (bits == 1024 && si && xk) continue; B seed{(uint8_t)si, 1, 2, (uint8_t)bits}; 
        for (uint64_t blk = 0; blk < (C.thorough() ? 30u : 8u); blk++) { if (!next()) continue; C.traces++; Z D = ref::create_discriminant(seed, bits); F x = ref::mk(2, 1, D); ref::reduce(x, D); if (xk == 1) x = ref::identity(D); if (xk == 2) x = ref::sqn(x, 20, D); B xs = enc(x, D); if (xk == 3) xs.pop_back(); if (xk == 4) xs.push_back(0); if (xk == 5) xs = rep(0xff, 100); F fx; bool good = xs.size() == 100 && ref::decode_consensus(xs.data(), D, fx); if (xk == 5 && good) x = fx;
            F y = ref::sqn(x, blk * 12, D); for (uint64_t t = blk * 12; t < blk * 12 + 12; t += bits >= 512 ? 5 : 1) { std::string ctx = fmt("prove %d bits seed#%d x#%d t=%llu", bits, si, xk, (unsigned long long)t); if (t == 0) { continue; }
                R r = call("prove", [&] { return M.attr("prove")(pb(seed), pb(xs), bits, t, ""); }); if (!good) { if (r.ok) viol("py-prove-accepts", ctx); continue; } if (!r.ok) { viol("py-prove-refuses", ctx + ": " + r.exc); continue; }
                if (!PyBytes_Check(r.v.ptr())) { viol("py-result-type", ctx); continue; } B b = ub(r.v); F yt = ref::sqn(x, t, D); B e = enc(yt, D), p = enc(ref::prove(D, x, yt, t), D); e.insert(e.end(), p.begin(), p.end()); if (b != e) viol("py-prove-value", ctx + ": " + hx(b, 16) + fmt(" (%zu bytes)", b.size()));
                C.nontrivial++; R v = call("verify_n_wesolowski", [&] { return M.attr("verify_n_wesolowski")(py::str(ds(D)), pb(xs), r.v, t, bits, 0); }); if (truth(v, "", "") != 1) viol("py-prove-unverifiable", ctx);
                if (t % 4 == 1) { R a = call("prove", [&] { return M.attr("prove")(pb(seed), pb(xs), bits, t, here); }); if (!a.ok || ub(a.v) != b) viol("py-prove-shutdown", ctx + ": with an existing shutdown file the result differs"); R m = call("prove", [&] { return M.attr("prove")(pb(seed), pb(xs), bits, t, here + ".gone"); }); if (!m.ok || !PyBytes_Check(m.v.ptr()) || !ub(m.v).empty()) viol("py-prove-shutdown", ctx + ": without the shutdown file the result is not empty"); } } } }
    unlink(here.c_str());
}
static std::string sbe(const Z &v) { std::string o(1, v < 0 ? '\1' : '\0'); Z m = abs(v); if (m != 0) { std::string h = m.get_str(16); if (h.size() % 2) h = "0" + h; for (size_t i = 0; i < h.size(); i += 2) o.push_back((char)std::stoi(h.substr(i, 2), 0, 16)); } return o; }
static void m_form() {
    for (int bits : {64, 256, 512, 1024}) { Proofs P = mk(bits, 11); F f = P.x; std::vector<B> base; std::vector<F> fs; for (int i = 0; i < (C.thorough() ? 24 : 6); i++) { fs.push_back(f); base.push_back(enc(f, P.D)); f = ref::square(f, P.D); } base.push_back(enc(ref::identity(P.D), P.D)); base.push_back(rep(0, 100)); base.push_back(rep(0xff, 100));
        auto one = [&](const Z &D, const B &s, const std::string &ctx) { for (int st = 0; st < 3; st++) { bool strict = st != 0; F g; bool w = s.size() == 100 && okD(D) && (strict ? ref::decode_strict(s.data(), D, mpz_sizeinbase(D.get_mpz_t(), 2), g) : ref::decode_consensus(s.data(), D, g));
                R r = call("bqfc_deserialize", [&] { return st == 2 ? M.attr("bqfc_deserialize")(py::str(ds(D)), pb(s)) : M.attr("bqfc_deserialize")(py::str(ds(D)), pb(s), strict); }); std::string c = ctx + fmt(" strict=%d", st);
                if (r.ok != w) { viol("py-form-verdict", c + fmt(": decoded=%d, must be %d", r.ok, w)); continue; } if (!w) continue; C.nontrivial++; if (!PyTuple_Check(r.v.ptr()) || PyTuple_Size(r.v.ptr()) != 2) { viol("py-result-type", c); continue; } auto tu = py::reinterpret_borrow<py::tuple>(r.v); std::string a = py::cast<std::string>(py::bytes(tu[0])), b = py::cast<std::string>(py::bytes(tu[1])); if (a != sbe(g.a) || b != sbe(g.b)) viol("py-form-value", c + ": wrong (a, b) bytes"); } };
        for (size_t k = 0; k < base.size(); k++) { for (size_t pos = 0; pos < 100; pos++) { if (!next()) continue; C.traces++; if (pos == 0) one(P.D, base[k], "as is"); for (int v = 0; v < 256; v += pos < 3 ? 1 : C.thorough() ? 5 : 51) { B s = base[k]; s[pos] ^= v; one(P.D, s, fmt("%d bits form %zu byte %zu ^ %d", bits, k, pos, v)); } }
            for (size_t n = 0; n <= 220; n++) { if (!next()) continue; C.traces++; B s = base[k]; s.resize(n, 0); one(P.D, s, fmt("%d bits form %zu length %zu", bits, k, n)); }
            for (const Z &D : {Z(0), Z(-P.D), Z(7), Z(-7), Z(-3), Z(P.D - 8), Z(P.D * 4), Z(-(Z(1) << 1025) - 7)}) if (next()) { C.traces++; one(D, base[k], "D=" + ds(D).substr(0, 20)); } } }
}
int main(int argc, char **argv) {
    setenv("PYTHONMALLOC", "malloc", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1); setenv("PYTHONNOUSERSITE", "1", 1); unsetenv("PYTHONPATH"); unsetenv("PYTHONHOME"); unsetenv("PYTHONSTARTUP");
    init(argc, argv); struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    PyImport_AppendInittab("_chiavdf", &PyInit__chiavdf); py::initialize_interpreter(false); M = py::module_::import("_chiavdf");
    if (C.mode == "verify") m_verify(); else if (C.mode == "disc") m_disc(); else if (C.mode == "types") m_types(); else if (C.mode == "prove") m_prove(); else if (C.mode == "form") m_form(); else return 3;
    C.extra["calls_seen_without_lock"] = gil_free_seen; return finish();
}
