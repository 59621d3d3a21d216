// C19 cancellation, C20 casts and parameters, C21 integer wrapper.
#include "group_ops.h"
#include "ref_verify.h"
#include "prover_slow.h"
#include "util.h"
#include "checked_cast.h"
#include <sys/stat.h>
#include <sys/syscall.h>
#include <dlfcn.h>
#include <filesystem>
#include <cerrno>
using namespace vh;
typedef std::vector<uint8_t> B;
typedef __int128 W;
// ---------------------------------------------------------------- C19: every way to ask about the shutdown file
static const char *PATHN = nullptr; static uint64_t polls = 0, fail_at = ~0ull, fail_upto = ~0ull; static int fail_errno = 0;
static bool ours(const char *p) { return PATHN && p && !strcmp(p, PATHN); }
static bool inject() { uint64_t n = polls++; if (fail_errno && n >= fail_at && n <= fail_upto) { errno = fail_errno; return true; } return false; }
extern "C" {
int stat(const char *p, struct stat *b) noexcept { if (ours(p)) { if (inject()) return -1; memset(b, 0, sizeof *b); b->st_mode = S_IFREG | 0644; b->st_nlink = 1; return 0; } return syscall(SYS_newfstatat, AT_FDCWD, p, b, 0); }
int stat64(const char *p, struct stat64 *b) noexcept { return stat(p, (struct stat *)b); }
int lstat(const char *p, struct stat *b) noexcept { if (ours(p)) return stat(p, b); return syscall(SYS_newfstatat, AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *p, struct stat *b, int f) noexcept { if (ours(p)) return stat(p, b); return syscall(SYS_newfstatat, d, p, b, f); }
int access(const char *p, int m) noexcept { if (ours(p)) return inject() ? -1 : 0; return syscall(SYS_faccessat, AT_FDCWD, p, m); }
int faccessat(int d, const char *p, int m, int f) noexcept { if (ours(p)) return inject() ? -1 : 0; return syscall(SYS_faccessat, d, p, m); }
FILE *fopen(const char *p, const char *m) { static auto real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen"); if (ours(p)) { if (inject()) return nullptr; return real("/dev/null", m); } return real(p, m); }
int open(const char *p, int f, ...) { if (ours(p)) { if (inject()) return -1; return syscall(SYS_openat, AT_FDCWD, "/dev/null", f, 0); } va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return syscall(SYS_openat, AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return open(p, f, m); }
}
static B prove(const Z &D, const F &x, uint64_t t, const std::string &path, uint64_t fa, uint64_t fu, int e) {
    polls = 0; fail_at = fa; fail_upto = fu; fail_errno = e; PATHN = path.c_str(); integer Di = toI(D); form xi = mkform(x); B r = ProveSlow(Di, xi, t, path); PATHN = nullptr; return r;
}
static void cancel() {
    std::vector<uint64_t> ts{1, 2, 100, 65535, 65536, 65537, 65538, 131071, 131072, 131073, 196609}; if (C.thorough()) for (uint64_t k = 4; k <= 12; k++) for (int d = 0; d < 3; d++) ts.push_back(k * 65536 - 1 + d);
    Z D = -big_p(40, 3), D2 = ref::create_discriminant(B{9, 9}, 256); const std::string path = "/nonexistent/verif-shutdown";
    for (int di = 0; di < 2; di++) { Z Dz = di ? D2 : D; F x = ref::mk(2, 1, Dz); ref::reduce(x, Dz);
        for (uint64_t t : ts) { if (di && (t > 70000 || t == 2)) continue; if (!next()) continue; C.traces++; std::string ctx = fmt("t=%llu", (unsigned long long)t);
            B base = prove(Dz, x, t, "", 0, 0, 0); C.states++; C.transitions++; if (base.size() != 200) { viol("base", ctx + " no proof without a path"); continue; }
            if (polls) viol("polls-without-path", ctx);
            B r = prove(Dz, x, t, path, 0, 0, 0); uint64_t n = polls; C.states++; C.transitions++; if (r != base) viol("present-differs", ctx + " file present: bytes differ from the proof without cancellation");
            C.extra["max_polls"] = std::max<uint64_t>(C.extra["max_polls"], n);
            if (n < (t + 65535) / 65536 - 1 + (t < 65536 ? 0 : 0) || (t >= 65536 && n < t / 65536)) viol("poll-rate", ctx + fmt(" polled %llu times", (unsigned long long)n));
            if (n > 64 + 3 * (t / 65536)) { n = 8; }   // an implementation may poll more often; explore the first ones
            if (n > 40) n = 40;
            for (int e : {ENOENT, ENOTDIR, EACCES, ELOOP, ENAMETOOLONG, EINTR}) for (uint64_t f = 0; f < n; f++) { if (e != ENOENT && e != EINTR && f && f + 1 != n) continue;
                for (int forever = 0; forever < 2; forever++) { if (forever && e != EINTR && f) continue; B q = prove(Dz, x, t, path, f, forever ? ~0ull : f, e); C.states++; C.transitions++; C.nontrivial++; std::string c2 = ctx + fmt(" status query %llu%s fails with errno %d", (unsigned long long)f, forever ? " and all later" : "", e);
                    if (e == EINTR) { if (q != base) viol("interrupted-query", c2 + ": result differs"); }
                    else { if (!q.empty()) viol("not-cancelled", c2 + fmt(": %zu bytes returned", q.size())); if (polls > f + 1) C.extra["polls_after_missing"]++; } } }
            sample(ctx + fmt(": %llu polls, each made to fail", (unsigned long long)n));
        } }
    // a real file, appearing and vanishing on disk
    if (next()) { C.traces++; std::string p = (getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : std::string("/tmp")) + fmt("/shutdown.%d", getpid()); FILE *fp = fopen(p.c_str(), "w"); if (fp) fclose(fp); F x = ref::mk(2, 1, D); ref::reduce(x, D); integer Di = toI(D); form xi = mkform(x); B base = ProveSlow(Di, xi, 70000, ""); B a = ProveSlow(Di, xi, 70000, p); unlink(p.c_str()); B b = ProveSlow(Di, xi, 70000, p), c = ProveSlow(Di, xi, 1, p); C.states += 3; C.transitions += 3; if (a != base) viol("present-differs", "real file present"); if (!b.empty() || !c.empty()) viol("not-cancelled", "real file missing"); }
}
// ---------------------------------------------------------------- C20
template <class T> static std::vector<W> vals() {
    std::set<W> s; W lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    if (sizeof(T) <= 2) { for (W v = lo; v <= hi; v++) s.insert(v); }
    else for (int e = 0; e <= 64; e++) for (int d = -3; d <= 3; d++) for (int sg = -1; sg <= 1; sg += 2) { W v = sg * (((W)1 << e) + d); if (v >= lo && v <= hi) s.insert(v); }
    return std::vector<W>(s.begin(), s.end());
}
static std::string ws(W v) { Z r = 0; bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : v; r = (unsigned long)(u >> 64); r <<= 64; r += (unsigned long)u; if (n) r = -r; return r.get_str(); }
template <class To, class From> static void castpair(const char *tn, const char *fn) {
    if (!next()) return; C.traces++; C.nontrivial++;
    for (W v : vals<From>()) { C.states++; C.transitions++; From f = (From)v; bool rep = v >= (W)std::numeric_limits<To>::min() && v <= (W)std::numeric_limits<To>::max(); bool thrown = false; To r{};
        try { r = checked_cast<To>(f); } catch (std::exception &) { thrown = true; }
        if (rep && thrown) viol("refuses", fmt("checked_cast<%s>(%s ", tn, fn) + ws(v) + ") throws"); if (!rep && !thrown) viol("accepts", fmt("checked_cast<%s>(%s ", tn, fn) + ws(v) + ") = " + ws((W)r)); if (rep && !thrown && (W)r != v) viol("value", fmt("checked_cast<%s>(%s ", tn, fn) + ws(v) + ") = " + ws((W)r)); C.extra[thrown ? "thrown" : "converted"]++; }
}
#define TYPES(X) X(int8_t) X(uint8_t) X(char) X(int16_t) X(uint16_t) X(int32_t) X(uint32_t) X(int64_t) X(uint64_t) X(long long) X(unsigned long long) X(wchar_t) X(char16_t) X(char32_t) X(size_t) X(ssize_t)
template <class From> static void froms(const char *fn) {
#define X(T) castpair<T, From>(#T, fn);
    TYPES(X)
#undef X
}
static void cast() {
#define X(T) froms<T>(#T);
    TYPES(X)
#undef X
}
static void param1(uint64_t T) {
    C.states++; C.transitions++; int l = -7, k = -7; uint32_t L = 77, K = 77; bool t1 = false, t2 = false; try { ApproximateParameters(T, l, k); } catch (std::exception &) { t1 = true; } try { ApproximateParameters(T, L, K); } catch (std::exception &) { t2 = true; }
    std::string ctx = fmt("T=%llu: prover_slow.h %s l=%d k=%d, util.h %s l=%u k=%u", (unsigned long long)T, t1 ? "throws" : "", l, k, t2 ? "throws" : "", L, K);
    if (t1 != t2) { viol("one-throws", ctx); return; } if (t1) { C.extra["thrown"]++; if (T < (1ull << 40)) viol("throws", ctx); return; }
    if (l < 1 || k < 1 || L < 1 || K < 1) viol("unusable", ctx); if ((uint32_t)l != L || (uint32_t)k != K) viol("variants-differ", ctx);
    if (k > 62 || (T < (1ull << 40) && (k > 30 || l > 64))) viol("unusable", ctx + " (table of 2^k entries)"); // 1 << k must not overflow
    if (k > 4 + (int)log2((double)T)) viol("unusable", ctx + " (window wider than the count)");
    C.extra["max_k"] = std::max<uint64_t>(C.extra["max_k"], k); C.extra["max_l"] = std::max<uint64_t>(C.extra["max_l"], l);
}
static void params() {
    uint64_t top = C.thorough() ? 1ull << 29 : 1ull << 26, blk = 1 << 18;
    for (uint64_t lo = 1; lo < top; lo += blk) { if (!next()) continue; C.traces++; C.nontrivial++; for (uint64_t t = lo; t < lo + blk; t++) param1(t); }
    for (int e = 0; e < 64; e++) { if (!next()) continue; C.traces++; for (int d = -2000; d <= 2000; d++) { uint64_t t = (1ull << e) + d; if (t >= 1 && (int64_t)(t - (1ull << e)) == d && !(e < 12 && t > 1ull << 20)) param1(t); } for (uint64_t m = 3; m < 64; m += 2) if (e < 58) param1(m << e); }
    if (next()) { C.traces++; for (uint64_t t = ~0ull - 3000; t; t++) param1(t); for (int64_t d = -200000; d < 200000; d++) param1(10000000 + d); }
}
// ---------------------------------------------------------------- C21
static std::vector<Z> ivals() { std::vector<Z> v; int r = C.thorough() ? 130 : 40; for (int i = -r; i <= r; i++) v.push_back(i); for (int e : {15, 16, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 191, 192, 256}) for (int d = -2; d <= 2; d++) { Z z = 1; z <<= e; z += d; v.push_back(z); v.push_back(-z); } return v; }
#define CHK(key, got, want, ctx) do { C.transitions++; Z g_ = (got), w_ = (want); if (g_ != w_) viol(key, std::string(ctx) + " = " + g_.get_str() + " expected " + w_.get_str()); } while (0)
static Z tmod(const Z &a, const Z &b) { Z r; mpz_mod(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static void ipairs() {
    auto v = ivals();
    for (auto &a : v) { if (!next()) continue; C.traces++; C.nontrivial++;
        for (auto &b : v) { C.states++; integer x = toI(a), y = toI(b); std::string c = "(" + a.get_str() + "," + b.get_str() + ")";
            CHK("add", toZ(x + y), a + b, "+" + c); CHK("sub", toZ(x - y), a - b, "-" + c); CHK("mul", toZ(x * y), a * b, "*" + c);
            { integer t = x; t += y; CHK("add=", toZ(t), a + b, "+=" + c); t = x; t -= y; CHK("sub=", toZ(t), a - b, "-=" + c); t = x; t *= y; CHK("mul=", toZ(t), a * b, "*=" + c); }
            { integer t = y; t = x + t; CHK("alias", toZ(t), a + b, "b=a+b" + c); t = y; t = x - t; CHK("alias", toZ(t), a - b, "b=a-b" + c); t = y; t = x * t; CHK("alias", toZ(t), a * b, "b=a*b" + c); }
            if (b != 0) { Z q = ref::fdiv(a, b), r = a - q * b, m = tmod(a, b); CHK("div", toZ(x / y), q, "/" + c); CHK("mod", toZ(x % y), m, "%" + c); CHK("fdiv_r", toZ(x.fdiv_r(y)), r, "fdiv_r" + c);
                integer t = x; t /= y; CHK("div=", toZ(t), q, "/=" + c); t = x; t %= y; CHK("mod=", toZ(t), m, "%=" + c); t = y; t = x / t; CHK("alias", toZ(t), q, "b=a/b" + c); t = y; t = x % t; CHK("alias", toZ(t), m, "b=a%b" + c); t = y; t = x.fdiv_r(t); CHK("alias", toZ(t), r, "b=fdiv_r" + c); }
            int s = cmp(a, b); C.transitions++; if ((x < y) != (s < 0) || (x <= y) != (s <= 0) || (x == y) != (s == 0) || (x != y) != (s != 0) || (x > y) != (s > 0) || (x >= y) != (s >= 0)) viol("compare", c);
            if (b.fits_sint_p()) { int i = b.get_si(); if ((x < i) != (s < 0) || (x <= i) != (s <= 0) || (x == i) != (s == 0) || (x != i) != (s != 0) || (x > i) != (s > 0) || (x >= i) != (s >= 0)) viol("compare-int", c); }
            { auto g = gcd(x, y); Z gg = toZ(g.gcd), ss = toZ(g.s), tt = toZ(g.t), want; mpz_gcd(want.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); C.transitions++; if (gg != want || a * ss + b * tt != gg) viol("gcd", c + " gcd=" + gg.get_str() + " s=" + ss.get_str() + " t=" + tt.get_str()); }
            if (toZ(x) != a || toZ(y) != b) viol("operand-modified", c);
        }
        { integer x = toI(a); integer t = x; t += t; CHK("self", toZ(t), 2 * a, "a+=a " + a.get_str()); t = x; t -= t; CHK("self", toZ(t), 0, "a-=a"); t = x; t *= t; CHK("self", toZ(t), a * a, "a*=a " + a.get_str()); if (a != 0) { t = x; t /= t; CHK("self", toZ(t), 1, "a/=a " + a.get_str()); t = x; t %= t; CHK("self", toZ(t), 0, "a%=a"); } t = x; t = *&t; CHK("self", toZ(t), a, "a=a"); }
    }
}
static std::string hexs(const Z &a) { Z m = abs(a); return (a < 0 ? std::string("-0x") : std::string("0x")) + m.get_str(16); }
static uint8_t *gpage() { static uint8_t *e = nullptr; if (!e) { uint8_t *p = (uint8_t *)mmap(0, 12288, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + 8192, 4096, PROT_NONE); e = p + 8192; } return e; }
static void iunary() {
    auto v = ivals(); for (int bits = 1; bits <= 320; bits++) { Z z = 1; z <<= bits; v.push_back(z - 1); v.push_back(z); v.push_back(-z); v.push_back(z / 3); v.push_back(-(z / 7)); } { Z t = 1; for (int i = 1; i <= 60; i++) { t *= 10; for (int d = -1; d <= 1; d++) { v.push_back(t + d); v.push_back(-(t + d)); } } }
    for (auto &a : v) { if (!next()) continue; C.traces++; C.states++; C.nontrivial++; const integer x = toI(a); std::string s = a.get_str();
        CHK("neg", toZ(-x), -a, "-" + s); CHK("abs", toZ(abs(x)), abs(a), "abs " + s); CHK("copy", toZ(integer(x)), a, "copy"); { integer t(x), u(std::move(t)); CHK("move", toZ(u), a, "move"); integer w; w = std::move(u); CHK("move", toZ(w), a, "move="); }
        for (int i : {0, 1, 2, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 200}) { Z l = a << i, r; mpz_fdiv_q_2exp(r.get_mpz_t(), a.get_mpz_t(), i); CHK("shl", toZ(x << i), l, s + fmt("<<%d", i)); CHK("shr", toZ(x >> i), r, s + fmt(">>%d", i)); integer t = x; t <<= i; CHK("shl=", toZ(t), l, s + fmt("<<=%d", i)); t = x; t >>= i; CHK("shr=", toZ(t), r, s + fmt(">>=%d", i)); }
        int nb = a == 0 ? 1 : (int)mpz_sizeinbase(a.get_mpz_t(), 2); CHK("num_bits", Z(x.num_bits()), Z(nb), "num_bits " + s); { int m = 0; Z t = abs(a); while (t > 0) { m++; t >>= 1; } if (a != 0 && m != x.num_bits()) viol("num_bits", s); }
        for (int i = 0; i < nb + 70; i++) { integer t = x; Z f = ref::fdiv(a, Z(1) << i); bool w = tmod(f, 2) == 1; C.transitions++; if (t.get_bit(i) != w) viol("get_bit", s + fmt(" bit %d", i)); if (i % 5 == 0 || i < 4) { Z m = Z(1) << i; t.set_bit(i, true); CHK("set_bit", toZ(t), w ? a : a + m, s + fmt(" set %d", i)); t = x; t.set_bit(i, false); CHK("set_bit", toZ(t), w ? a - m : a, s + fmt(" clear %d", i)); } }
        for (int n = 1; n <= 9; n++) { if (a < 0 && n % 2 == 0) continue; Z r = toZ(root(x, n)), m = abs(r), A = abs(a), p, q; mpz_pow_ui(p.get_mpz_t(), m.get_mpz_t(), n); Z m1 = m + 1; mpz_pow_ui(q.get_mpz_t(), m1.get_mpz_t(), n); C.transitions++; if (p > A || q <= A || (r != 0 && sgn(r) != sgn(a))) viol("root", s + fmt(" root %d = ", n) + r.get_str()); }
        C.transitions++; if (x.to_string() != hexs(a)) viol("to_string", s + " -> " + x.to_string()); if (x.to_string_dec() != s) viol("to_string_dec", s + " -> " + x.to_string_dec());
        for (auto &str : {hexs(a), s}) { CHK("from_string", toZ(integer(str)), a, "integer(\"" + str + "\")"); integer t(99); t = str; CHK("from_string", toZ(t), a, "= \"" + str + "\""); }
        Z m = abs(a); B by; { Z t = m; while (t > 0) { Z r = t & 255; by.insert(by.begin(), (uint8_t)r.get_ui()); t >>= 8; } } B got = x.to_bytes(); { B g2 = got; while (!g2.empty() && !g2[0]) g2.erase(g2.begin()); C.transitions++; if (g2 != by || got.size() != (size_t)(nb + 7) / 8) viol("to_bytes", s + fmt(" gives %zu bytes", got.size())); }
        CHK("from_bytes", toZ(integer(got)), m, "integer(bytes)"); for (int pad = 0; pad < 3; pad++) { B p(pad, 0); p.insert(p.end(), by.begin(), by.end()); if (p.empty()) continue; CHK("from_bytes", toZ(integer(p)), m, "integer(padded bytes)"); memcpy(gpage() - p.size(), p.data(), p.size()); CHK("from_bytes", toZ(integer((const uint8_t *)gpage() - p.size(), p.size())), m, "integer(ptr)"); }
        { auto w = x.to_vector(); Z t = 0; for (size_t i = w.size(); i-- > 0;) { t <<= 64; t += Z((unsigned long)w[i]); } CHK("to_vector", t, m, "to_vector " + s); if (!w.empty() && w.back() == 0) viol("to_vector", s + " has a leading zero word"); if (!w.empty()) CHK("from_vector", toZ(integer(w)), m, "integer(words)"); if (!w.empty()) { w.push_back(0); CHK("from_vector", toZ(integer(w)), m, "integer(words,0)"); } }
        if (a.fits_sint_p()) CHK("ctor", toZ(integer((int)a.get_si())), a, "int"); if (a.fits_uint_p()) CHK("ctor", toZ(integer((uint32_t)a.get_ui())), a, "uint32"); if (a.fits_slong_p()) { CHK("ctor", toZ(integer((int64)a.get_si())), a, "int64"); integer t(5); t = (int64)a.get_si(); CHK("assign", toZ(t), a, "=int64"); } if (a.fits_ulong_p()) CHK("ctor", toZ(integer((uint64_t)a.get_ui())), a, "uint64");
        if (toZ(x) != a) viol("operand-modified", s);
        { integer t = x; std::string u = to_string(t.impl); C.transitions++; if (u != hexs(a)) viol("to_string", s + " -> " + u); }
    }
}
int main(int argc, char **argv) {
    init(argc, argv);
    if (C.mode == "cancel") cancel(); else if (C.mode == "cast") cast(); else if (C.mode == "params") params(); else if (C.mode == "ipairs") ipairs(); else if (C.mode == "iunary") iunary(); else return 3;
    return finish();
}
