// C17 wire parsing, C27 proof frames, on the real client source with scripted socket calls.
#define main vdf_client_main
#include "vdf_client.cpp"
#undef main
#include "vh.h"
#include "ref.h"
#include <sys/socket.h>
#include <sys/uio.h>
#include <dlfcn.h>
using namespace vh;
typedef std::vector<uint8_t> B;
// ------------------------------------------------------------- scripted socket
static int FD = -1;
struct Script { B in; std::vector<size_t> cuts; /* positions where a read stops short */ size_t at = 0; int end_errno = 0; int eintr = 0; B out; std::vector<size_t> wcuts; size_t wlimit = ~0ull; int werr_at = -1; uint64_t reads = 0, writes = 0; } S;
static ssize_t feed(const struct iovec *v, size_t n) {
    S.reads++; if (S.eintr > 0) { S.eintr--; errno = EINTR; return -1; }
    size_t want = 0; for (size_t i = 0; i < n; i++) want += v[i].iov_len; if (want == 0) return 0;
    if (S.at == S.in.size()) { if (S.end_errno) { errno = S.end_errno; return -1; } return 0; }
    size_t lim = S.in.size() - S.at; for (size_t c : S.cuts) if (c > S.at && c - S.at < lim) lim = c - S.at; if (want > lim) want = lim;
    size_t done = 0; for (size_t i = 0; i < n && done < want; i++) { size_t k = std::min(v[i].iov_len, want - done); memcpy(v[i].iov_base, S.in.data() + S.at, k); S.at += k; done += k; } return done;
}
static ssize_t sink(const struct iovec *v, size_t n) {
    S.writes++; if (S.eintr > 0) { S.eintr--; errno = EINTR; return -1; } size_t want = 0; for (size_t i = 0; i < n; i++) want += v[i].iov_len; size_t lim = S.wlimit; for (size_t c : S.wcuts) if (c > S.out.size() && c - S.out.size() < lim) lim = c - S.out.size(); if (want > lim) want = lim;
    size_t done = 0; for (size_t i = 0; i < n && done < want; i++) { size_t k = std::min(v[i].iov_len, want - done); S.out.insert(S.out.end(), (uint8_t *)v[i].iov_base, (uint8_t *)v[i].iov_base + k); done += k; } return done;
}
template <class T> static T real(const char *n) { return (T)dlsym(RTLD_NEXT, n); }
extern "C" {
ssize_t recv(int fd, void *b, size_t n, int f) { struct iovec v{b, n}; if (fd == FD) return feed(&v, 1); return real<ssize_t (*)(int, void *, size_t, int)>("recv")(fd, b, n, f); }
ssize_t read(int fd, void *b, size_t n) { struct iovec v{b, n}; if (fd == FD) return feed(&v, 1); static auto r = real<ssize_t (*)(int, void *, size_t)>("read"); return r(fd, b, n); }
ssize_t readv(int fd, const struct iovec *v, int n) { if (fd == FD) return feed(v, n); return real<ssize_t (*)(int, const struct iovec *, int)>("readv")(fd, v, n); }
ssize_t recvmsg(int fd, struct msghdr *m, int f) { if (fd == FD) return feed(m->msg_iov, m->msg_iovlen); return real<ssize_t (*)(int, struct msghdr *, int)>("recvmsg")(fd, m, f); }
ssize_t send(int fd, const void *b, size_t n, int f) { struct iovec v{(void *)b, n}; if (fd == FD) return sink(&v, 1); return real<ssize_t (*)(int, const void *, size_t, int)>("send")(fd, b, n, f); }
ssize_t write(int fd, const void *b, size_t n) { struct iovec v{(void *)b, n}; if (fd == FD) return sink(&v, 1); static auto r = real<ssize_t (*)(int, const void *, size_t)>("write"); return r(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int n) { if (fd == FD) return sink(v, n); static auto r = real<ssize_t (*)(int, const struct iovec *, int)>("writev"); return r(fd, v, n); }
ssize_t sendmsg(int fd, const struct msghdr *m, int f) { if (fd == FD) return sink(m->msg_iov, m->msg_iovlen); return real<ssize_t (*)(int, const struct msghdr *, int)>("sendmsg")(fd, m, f); }
}
static tcp::socket *sk;
static std::string hx(const B &b, size_t n = 40) { std::string r; for (size_t i = 0; i < b.size() && i < n; i++) r += fmt("%02x", b[i]); return r + (b.size() > n ? ".." : ""); }
// ------------------------------------------------------------- C17
struct Exp { bool ok = false; B disc, f; size_t used = 0; };   // used: bytes of the fields up to and including the offending one
static bool dig(uint8_t c) { return c >= '0' && c <= '9'; }
static Exp model_init(const B &in) {
    Exp e; if (in.size() < 3) { e.used = in.size(); return e; } e.used = 3; if (!dig(in[0]) || !dig(in[1]) || !dig(in[2])) return e; int n = (in[0] - '0') * 100 + (in[1] - '0') * 10 + in[2] - '0'; if (n == 0 || n >= 350) return e;
    e.used = std::min(in.size(), (size_t)3 + n); if (in.size() < 3 + (size_t)n) return e; e.disc.assign(in.begin() + 3, in.begin() + 3 + n); if (in.size() < 4 + (size_t)n) return e; e.used = 4 + n; int fs = in[3 + n]; if (fs == 0 || fs > 100) return e;
    e.used = std::min(in.size(), (size_t)4 + n + fs); if (in.size() < 4 + (size_t)n + fs) return e; e.f.assign(in.begin() + 4 + n, in.begin() + 4 + n + fs); e.ok = true; return e;
}
static void reset(const B &in) { S = Script(); S.in = in; }
static void check_init(const char *what) {
    C.states++; C.transitions++; Exp e = model_init(S.in); memset(disc, 0x77, sizeof disc); memset(initial_form_s, 0, sizeof initial_form_s); S.at = 0; bool ok = true; std::string why; try { InitSession(*sk); } catch (std::exception &x) { ok = false; why = x.what(); } catch (...) { ok = false; viol("foreign-exception", "InitSession"); }
    std::string ctx = std::string(what) + " stream " + hx(S.in) + fmt(" (%zu bytes)", S.in.size()); C.extra[ok ? "accepted" : "refused"]++;
    if (ok != e.ok) { viol(ok ? "init-accepts" : "init-refuses", ctx + (ok ? " is accepted" : " is refused: " + why)); return; }
    if (ok) { if (memcmp(disc, e.disc.data(), e.disc.size()) || disc[e.disc.size()] != 0) viol("init-disc", ctx + ": discriminant text differs"); if (memcmp(initial_form_s, e.f.data(), e.f.size())) viol("init-form", ctx + ": form differs"); for (size_t i = e.f.size(); i < 100; i++) if (initial_form_s[i]) { viol("init-form-overrun", ctx); break; } if (S.at != e.used) viol("init-consumed", ctx + fmt(": consumed %zu bytes, message has %zu", S.at, e.used)); }
    else if (S.at > e.used) viol("init-consumed", ctx + fmt(": consumed %zu bytes although byte %zu is already wrong", S.at, e.used));
}
static B msg(const std::string &d, const B &f) { B m; std::string s = fmt("%03zu", d.size()); m.insert(m.end(), s.begin(), s.end()); m.insert(m.end(), d.begin(), d.end()); m.push_back(f.size()); m.insert(m.end(), f.begin(), f.end()); return m; }
static std::string dtext(size_t n) { std::string s = n > 1 ? "-" : ""; while (s.size() < n) s += '1' + s.size() % 9; return s; }
static B ftext(size_t n) { B f; for (size_t i = 0; i < n; i++) f.push_back(i * 37 + 8); return f; }
static void init_headers() {
    std::vector<int> al; if (C.thorough()) for (int i = 0; i < 256; i++) al.push_back(i); else { for (int i = '0'; i <= '9'; i++) al.push_back(i); for (int c : std::initializer_list<int>{0, 1, 9, 10, 13, 32, '+', '-', '.', '/', ':', 'a', 'e', 'x', 'A', 'F', 127, 128, 200, 255, '\'', ',', 48 + 128, 57 + 128}) al.push_back(c); }
    for (int a : al) { if (!next()) continue; C.traces++; C.nontrivial++; for (int b : al) for (int c : al) { B in{(uint8_t)a, (uint8_t)b, (uint8_t)c}; int n = dig(a) && dig(b) && dig(c) ? (a - 48) * 100 + (b - 48) * 10 + c - 48 : 7; std::string d = dtext(n ? n : 1); in.insert(in.end(), d.begin(), d.end()); in.push_back(3); in.insert(in.end(), {8, 1, 2, 'x', 'y', 'z'}); for (int i = 0; i < 400; i++) in.push_back('5'); reset(in); check_init("size header"); } }
    // every form size byte, every discriminant length
    for (int fs = 0; fs < 256; fs++) { if (!next()) continue; C.traces++; for (size_t n : {1, 2, 155, 309, 349}) { std::string d = dtext(n); B in = msg(d, B{1}); in[3 + n] = fs; in.resize(4 + n); B f = ftext(300); in.insert(in.end(), f.begin(), f.end()); reset(in); check_init("form size"); } }
    for (int n = 1; n < 350; n++) { if (!next()) continue; C.traces++; for (size_t fs : {1, 50, 100}) { B in = msg(dtext(n), ftext(fs)); reset(in); check_init("length"); in.push_back('9'); reset(in); check_init("length+1"); } }
}
static void init_frag() {
    std::vector<std::pair<size_t, size_t>> sz{{1, 1}, {2, 100}, {9, 3}, {155, 100}, {310, 100}, {349, 100}, {349, 1}};
    for (auto &z : sz) { B m = msg(dtext(z.first), ftext(z.second)); m.push_back('1'); m.push_back('2');
        for (size_t cut = 0; cut <= m.size(); cut++) { if (!next()) continue; C.traces++; C.nontrivial++;
            reset(m); S.cuts = {cut}; check_init("two fragments"); for (size_t c2 = cut + 1; c2 < m.size(); c2 += C.thorough() ? 1 : 17) { reset(m); S.cuts = {cut, c2}; check_init("three fragments"); }
            for (int e : std::initializer_list<int>{0, ECONNRESET, ETIMEDOUT, EPIPE}) { B t(m.begin(), m.begin() + cut); reset(t); S.end_errno = e; check_init(fmt("truncated, then errno %d", e).c_str()); }
            reset(m); S.cuts = {cut}; check_init("two fragments again");
            if (cut < m.size() && (cut < 4 || cut == z.first + 3)) for (int v = 0; v < 256; v++) { B t = m; t[cut] = v; B pad = ftext(200); t.insert(t.end(), pad.begin(), pad.end()); reset(t); check_init("one byte changed"); }
            else if (cut < m.size()) for (int v : std::initializer_list<int>{0, 0xff, '-', ' '}) { B t = m; t[cut] = v; reset(t); check_init("content byte changed"); } }
        if (next()) { C.traces++; reset(m); for (size_t i = 1; i <= m.size(); i++) S.cuts.push_back(i); check_init("one byte at a time"); } }
}
struct It { bool ok = false; uint64_t v = 0; size_t used = 0; };
static It model_iter(const B &in) {
    It e; e.used = std::min<size_t>(2, in.size()); if (in.size() < 2 || !dig(in[0]) || !dig(in[1])) return e; int n = (in[0] - 48) * 10 + in[1] - 48; if (n == 0) { e.ok = true; return e; } if (n > 20) return e; e.used = std::min(in.size(), (size_t)2 + n); if (in.size() < 2 + (size_t)n) return e;
    ref::Z z = 0; for (int i = 0; i < n; i++) { if (!dig(in[2 + i])) return e; z = z * 10 + (in[2 + i] - 48); } ref::Z top = (ref::Z(1) << 64) - 1; if (z > top) return e; mpz_export(&e.v, nullptr, 1, 8, 0, 0, z.get_mpz_t()); e.ok = true; return e;
}
static void check_iter(const char *what) {
    C.states++; C.transitions++; It e = model_iter(S.in); S.at = 0; bool ok = true; uint64_t v = 0; std::string why; try { v = ReadIteration(*sk); } catch (std::exception &x) { ok = false; why = x.what(); } catch (...) { ok = false; viol("foreign-exception", "ReadIteration"); }
    C.extra[ok ? "accepted" : "refused"]++; if (ok == e.ok && (!ok || v == e.v) && (ok ? S.at == e.used : S.at <= e.used)) return;
    std::string ctx = std::string(what) + " request \"" + esc(std::string(S.in.begin(), S.in.end())) + "\"";
    if (ok != e.ok) viol(ok ? "iter-accepts" : "iter-refuses", ctx + (ok ? fmt(" is accepted as %llu", (unsigned long long)v) : " is refused: " + why)); else if (ok && v != e.v) viol("iter-value", ctx + fmt(" is read as %llu", (unsigned long long)v)); else viol("iter-consumed", ctx + fmt(" consumed %zu bytes of %zu", S.at, e.used));
}
static void rq(const std::string &s, const char *what) { reset(B(s.begin(), s.end())); check_iter(what); }
static void iters() {
    for (int a = 0; a < 256; a++) { if (!next()) continue; C.traces++; C.nontrivial++; for (int b = 0; b < 256; b++) for (int n : std::initializer_list<int>{0, 1, 19, 40}) { std::string s{(char)a, (char)b}; for (int i = 0; i < n; i++) s += '0' + (i * 7 + 1) % 10; rq(s, "header"); if (n == 40) { s[3] = 'x'; rq(s, "header"); } } }
    int top = C.thorough() ? 7 : 5; // every digit string
    for (int n = 1; n <= top; n++) { uint64_t p = 1; for (int i = 0; i < n; i++) p *= 10; for (uint64_t blk = 0; blk < p; blk += 5000) { if (!next()) continue; C.traces++; for (uint64_t v = blk; v < blk + 5000 && v < p; v++) rq(fmt("%02d%0*llu!", n, n, (unsigned long long)v), "digits"); } }
    std::set<std::string> vs; for (int e = 0; e <= 66; e++) for (int d = -3; d <= 3; d++) { ref::Z z = (ref::Z(1) << e) + d; if (z >= 0) vs.insert(z.get_str()); } for (int e = 0; e <= 20; e++) { ref::Z p; mpz_ui_pow_ui(p.get_mpz_t(), 10, e); for (int m = 1; m <= 9; m++) for (int d = -2; d <= 2; d++) { ref::Z z = p * m + d; if (z >= 0) vs.insert(z.get_str()); } } { ref::Z t = (ref::Z(1) << 64); for (int d = -60; d <= 60; d++) vs.insert(ref::Z(t + d).get_str()); for (int k = 1; k < 20; k++) { ref::Z p; mpz_ui_pow_ui(p.get_mpz_t(), 10, k); vs.insert(ref::Z(t + p).get_str()); vs.insert(ref::Z(t - p).get_str()); } }
    for (auto &v : vs) { if (!next()) continue; C.traces++; for (size_t n = v.size(); n <= 22; n++) { std::string s = fmt("%02zu", n) + std::string(n - v.size(), '0') + v; rq(s + "77", "value"); for (size_t c = 1; c < s.size(); c++) { reset(B(s.begin(), s.end())); S.cuts = {c}; check_iter("fragmented"); if (n != v.size()) break; } if (n == v.size()) { for (size_t c = 0; c < s.size(); c++) for (int e : std::initializer_list<int>{0, ECONNRESET}) { reset(B(s.begin(), s.begin() + c)); S.end_errno = e; check_iter("truncated"); } reset(B(s.begin(), s.end())); for (size_t i = 1; i < s.size(); i++) S.cuts.push_back(i); check_iter("one byte at a time"); } } }
    for (auto *base : {"071234567", "2018446744073709551615", "010", "1990000000000000000000"}) for (size_t i = 0; i < strlen(base); i++) { if (!next()) continue; C.traces++; for (int v = 0; v < 256; v++) { std::string s = base; s[i] = v; rq(s + "000000000000000000000000", "one byte changed"); for (size_t j = i + 1; j < s.size(); j += 3) for (int w : std::initializer_list<int>{' ', '-', '+', '/', ':', 'a', 0, 255}) { std::string t = s; t[j] = w; rq(t, "two bytes changed"); } } }
}
// ------------------------------------------------------------- C27
static int hexv(uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static uint64_t be(const B &b, size_t at, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | b[at + i]; return v; }
static bool decode(const B &o, uint64_t &it, B &y, int &wt, B &pf, std::string &why) {
    if (o.size() < 4) { why = "short"; return false; } uint64_t n = be(o, 0, 4); if (o.size() != 4 + n) { why = fmt("length field %llu but %zu characters follow", (unsigned long long)n, o.size() - 4); return false; } if (n % 2) { why = "odd"; return false; }
    B d; for (size_t i = 4; i < o.size(); i += 2) { int a = hexv(o[i]), b = hexv(o[i + 1]); if (a < 0 || b < 0) { why = fmt("not a hexadecimal character at %zu", i); return false; } d.push_back(a * 16 + b); }
    if (d.size() < 17) { why = "body short"; return false; } it = be(d, 0, 8); uint64_t yl = be(d, 8, 8); if (yl > d.size() - 17) { why = fmt("output length %llu", (unsigned long long)yl); return false; } y.assign(d.begin() + 16, d.begin() + 16 + yl); wt = d[16 + yl]; pf.assign(d.begin() + 17 + yl, d.end()); return true;
}
static void frame1(uint64_t it, const B &y, int wt, const B &pf, const char *what) {
    C.states++; C.transitions++; Proof p(y, pf); p.witness_type = wt; S.out.clear(); std::string ctx = std::string(what) + fmt(" iteration %llu, %zu-byte output, witness %d, %zu-byte proof", (unsigned long long)it, y.size(), wt, pf.size());
    try { WriteProof(it, p, *sk); } catch (std::exception &e) { viol("frame-throws", ctx + ": " + e.what()); return; }
    uint64_t i2; B y2, p2; int w2; std::string why; if (!decode(S.out, i2, y2, w2, p2, why)) { viol("frame-malformed", ctx + ": " + why); return; } if (i2 != it || y2 != y || w2 != wt || p2 != pf) viol("frame-content", ctx + " decodes to something else"); if (p.y != y || p.proof != pf || p.witness_type != wt) viol("frame-modifies", ctx);
}
static B pat(size_t n, int k) { B b; for (size_t i = 0; i < n; i++) b.push_back(k == 0 ? i * 31 + n : k == 1 ? 0 : k == 2 ? 255 : (i == n / 2 ? 0x0a : 0xa0)); return b; }
static void frames() {
    reset(B()); std::vector<uint64_t> its; for (int i = 0; i < 8; i++) for (int v : std::initializer_list<int>{1, 0x0f, 0x10, 0x7f, 0x80, 0xff}) its.push_back((uint64_t)v << (8 * i)); its.push_back(0); its.push_back(~0ull); its.push_back(0x0102030405060708ull);
    for (uint64_t it : its) { if (!next()) continue; C.traces++; C.nontrivial++; for (int w : std::initializer_list<int>{0, 1, 2, 63, 64, 127, 128, 255}) frame1(it, pat(100, 0), w, pat(100, 3), "iteration"); }
    for (int v = 0; v < 256; v++) { if (!next()) continue; C.traces++; for (size_t pos = 0; pos < 6; pos++) { B y = pat(6, 0), p = pat(6, 1); y[pos] = v; p[5 - pos] = v ^ 0x5a; frame1(12345, y, v, p, "byte value"); } }
    for (size_t yl = 0; yl <= (C.thorough() ? 300 : 130); yl++) { if (!next()) continue; C.traces++; for (size_t pl : {0, 1, 2, 15, 16, 99, 100, 101, 127, 128, 241, 382, 523}) for (int k = 0; k < 4; k++) frame1(yl * 1000003 + pl, pat(yl, k), (int)(yl & 255), pat(pl, 3 - k), "lengths"); }
    for (int d = 0; d <= 66; d++) { if (!next()) continue; C.traces++; frame1(1ull << 33, pat(100, 0), d & 255, pat(100 + 141 * d, 0), "segments"); }
    for (size_t big : {32750, 32767, 32768, 65535, 65536, 100000}) { if (!next()) continue; C.traces++; frame1(77, pat(100, 0), 1, pat(big, 0), "large"); frame1(77, pat(big, 0), 1, pat(100, 0), "large"); }
    size_t total = 4 + 2 * (17 + 100 + 100); for (size_t c = 0; c <= total; c++) { if (!next()) continue; C.traces++; S.wcuts = {c}; S.wlimit = ~0ull; frame1(99, pat(100, 0), 2, pat(100, 0), "write cut"); S.wcuts.clear(); S.wlimit = c + 1; frame1(100, pat(100, 2), 2, pat(100, 0), "short writes"); S.wlimit = ~0ull; }
}
static void bytes() {
    std::vector<uint64_t> vs; for (int i = 0; i < 64; i++) for (int j = 0; j <= i; j++) { vs.push_back((1ull << i) | (1ull << j)); vs.push_back(~((1ull << i) | (1ull << j))); } for (int p = 0; p < 8; p++) for (int v = 0; v < 256; v++) vs.push_back((uint64_t)v << (8 * p) | 0x0101010101010101ull * (v & 1));
    if (next()) { C.traces++; for (uint64_t v : vs) { C.states++; C.transitions += 3; uint8_t b[10]; memset(b, 0xee, 10); Int64ToBytes(b + 1, v); bool ok = b[0] == 0xee && b[9] == 0xee; for (int i = 0; i < 8; i++) ok = ok && b[1 + i] == (uint8_t)(v >> (56 - 8 * i)); if (!ok) viol("int64-bytes", fmt("Int64ToBytes(%llx)", (unsigned long long)v)); uint8_t c[9]; for (int i = 0; i < 8; i++) c[1 + i] = (uint8_t)(v >> (56 - 8 * i)); if (BytesToInt64(c + 1) != v) viol("bytes-int64", fmt("BytesToInt64 of %llx", (unsigned long long)v)); uint32_t w = (uint32_t)v; memset(b, 0xee, 10); Int32ToBytes(b + 1, w); ok = b[0] == 0xee && b[5] == 0xee; for (int i = 0; i < 4; i++) ok = ok && b[1 + i] == (uint8_t)(w >> (24 - 8 * i)); if (!ok) viol("int32-bytes", fmt("Int32ToBytes(%x)", w)); } }
    for (int a = 0; a < 256; a++) { if (!next()) continue; C.traces++; for (int b = 0; b < 256; b++) { C.states++; C.transitions++; std::string s = BytesToStr(B{(uint8_t)a, (uint8_t)b}); if (s != fmt("%02x%02x", a, b)) viol("bytes-to-str", fmt("%02x%02x -> ", a, b) + s); } }
    if (next()) { C.traces++; for (size_t n = 0; n < 300; n++) { C.states++; C.transitions += 3; B x = pat(n, 0), y = pat(300 - n, 3), z = x; VectorAppend(z, y); B w = x; w.insert(w.end(), y.begin(), y.end()); if (z != w) viol("append", fmt("%zu", n)); B q = x; VectorAppendArray(q, y.data(), y.size()); if (q != w) viol("append", fmt("array %zu", n)); std::string h; for (auto c : w) h += fmt("%02x", c); Proof p(x, y); if (p.hex() != h || BytesToStr(w) != h) viol("proof-hex", fmt("%zu", n)); } }
}
int main(int argc, char **argv) {
    init(argc, argv); int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return 3; FD = sv[0]; boost::asio::io_context io; sk = new tcp::socket(io); sk->assign(tcp::v4(), sv[0]); std::cout.setstate(std::ios::failbit);
    if (C.mode == "headers") init_headers(); else if (C.mode == "frag") init_frag(); else if (C.mode == "iters") iters(); else if (C.mode == "frames") frames(); else if (C.mode == "bytes") bytes(); else return 3;
    return finish();
}
