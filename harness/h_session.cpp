// C18: whole timelord sessions of the real client against a scripted peer, under every (bounded) interleaving.
#include "sim_vdf.h"
#include "vh.h"
using namespace vh;
// ---------------------------------------------------------------- the peer and the socket
struct Item { int kind; double at; int frames; std::string bytes; };   // kind 0 bytes, 1 end of stream, 2 reset; due at a time and after that many frames were received
struct Peer {
    std::vector<Item> items; size_t pos = 0; std::string pend, out; int end = 0; size_t rchunk = 1 << 20, wchunk = 1 << 20; int wfail = 0; /* after the end of stream: 0 writes fail, 1 writes still succeed */ long wlimit = -1;
    std::mutex m; std::condition_variable cv;
    int frames() { sched::Quiet q; if (out.compare(0, 2, "OK")) return 0; size_t p = 2; int n = 0; while (p + 4 <= out.size() && out.compare(p, 4, "STOP")) { size_t l = (uint8_t)out[p] << 24 | (uint8_t)out[p + 1] << 16 | (uint8_t)out[p + 2] << 8 | (uint8_t)out[p + 3]; if (l > 100000 || p + 4 + l > out.size()) break; p += 4 + l; n++; } return n; }
};
static Peer *P; static int rtok, wtok;
namespace simboost { namespace system = ::boost::system; namespace asio { using namespace ::boost::asio;
struct io_context { template <class... A> io_context(A...) {} };
namespace ip { using namespace ::boost::asio::ip;
struct simtcp { struct proto {}; static proto v6() { return {}; } static proto v4() { return {}; }
    struct socket {
        typedef socket lowest_layer_type; template <class... A> socket(A &&...) {} socket(const socket &) = delete;
        template <class... A> void set_option(A &&...) {} template <class... A> void close(A &&...) {} template <class... A> void shutdown(A &&...) {} bool is_open() const { return true; } socket &lowest_layer() { return *this; } enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both };
        template <class B> size_t read_some(const B &bufs, ::boost::system::error_code &ec) {
            rtok++; ec = {}; size_t want = ::boost::asio::buffer_size(bufs); if (!want) return 0; std::unique_lock<std::mutex> lk(P->m);
            for (;;) {
                if (P->pend.size()) { sched::Quiet q; size_t n = std::min({want, P->pend.size(), P->rchunk}); n = ::boost::asio::buffer_copy(bufs, ::boost::asio::buffer(P->pend.data(), n)); P->pend.erase(0, n); return n; }
                if (P->end == 1) { ec = ::boost::asio::error::eof; return 0; } if (P->end == 2) { ec = ::boost::asio::error::connection_reset; return 0; }
                if (P->pos >= P->items.size()) { P->cv.wait(lk); continue; }
                Item &it = P->items[P->pos]; if (sched::now() < it.at) { double d = it.at - sched::now(); lk.unlock(); std::this_thread::sleep_for(std::chrono::duration<double>(d)); lk.lock(); continue; }
                if (P->frames() < it.frames) { P->cv.wait(lk); continue; }
                { sched::Quiet q; if (it.kind == 0) P->pend += it.bytes; else P->end = it.kind; P->pos++; }
            }
        }
        template <class B> size_t read_some(const B &b) { ::boost::system::error_code ec; size_t n = read_some(b, ec); if (ec) throw ::boost::system::system_error(ec); return n; }
        template <class B> size_t write_some(const B &bufs, ::boost::system::error_code &ec) {
            wtok++; ec = {}; sched::yield_point(); size_t n = std::min(::boost::asio::buffer_size(bufs), P->wchunk);
            { std::lock_guard<std::mutex> lk(P->m); sched::Quiet q; if ((P->end == 2) || (P->end == 1 && !P->wfail) || (P->wlimit >= 0 && (long)P->out.size() >= P->wlimit)) { ec = ::boost::asio::error::broken_pipe; return 0; }
                std::string t(n, 0); ::boost::asio::buffer_copy(::boost::asio::buffer(&t[0], n), bufs); P->out += t; }
            P->cv.notify_all(); return n;
        }
        template <class B> size_t write_some(const B &b) { ::boost::system::error_code ec; size_t n = write_some(b, ec); if (ec) throw ::boost::system::system_error(ec); return n; }
        template <class B, class... F> size_t receive(const B &b, F...) { return read_some(b); } template <class B, class... F> size_t send(const B &b, F...) { return write_some(b); }
    };
    struct resolver { typedef int results_type; template <class... A> resolver(A &&...) {} template <class... A> results_type resolve(A &&...) { return 0; } };
}; }
inline void connect(ip::simtcp::socket &, int) {}
} }
#define boost simboost
#define tcp simtcp
#define main client_main
#define gcd_base_bits gcd_base_bits_unused
#define gcd_128_max_iter gcd_128_max_iter_unused
#include "vdf_client.cpp"
#undef main
#undef boost
#undef tcp
// ---------------------------------------------------------------- scenarios
static const char *DD = "-799999999991";   // any negative number = 1 mod 8: arithmetic is modelled
static std::string num(const std::string &s) { return fmt("%02zu", s.size()) + s; } static std::string num(uint64_t v) { return num(fmt("%llu", (unsigned long long)v)); }
static std::string hello(char m, const std::string &d = DD, int fs = 100, char f0 = 1) { return std::string(1, m) + fmt("%03zu", d.size()) + d + std::string(1, (char)fs) + std::string(1, f0) + std::string(fs - 1, 0); }
struct Sc { std::string name; char mode; std::vector<Item> items; std::vector<uint64_t> must, may; bool stop; /* the peer stopped in order: STOP is expected */ int bound; unsigned hw = 4; size_t wchunk = 1 << 20, rchunk = 1 << 20; int wfail = 0; long wlimit = -1; };
static std::string judge_out(const Sc &s, const std::string &o, bool sess) {
    size_t p = 0; if (!o.empty() && o.compare(0, std::min<size_t>(2, o.size()), "OK", std::min<size_t>(2, o.size())) && o.compare(0, 4, "STOP")) return "output starts with " + o.substr(0, 8); if (!o.compare(0, 2, "OK")) p = 2;
    std::multiset<uint64_t> got; bool stop = false;
    while (p < o.size()) {
        if (!o.compare(p, 4, "STOP")) { stop = true; p += 4; if (p != o.size()) return fmt("%zu bytes follow the stop announcement", o.size() - p); break; }
        bool cut = !s.stop; if (p + 4 > o.size()) { if (cut) break; return "truncated length"; } size_t l = (uint8_t)o[p] << 24 | (uint8_t)o[p + 1] << 16 | (uint8_t)o[p + 2] << 8 | (uint8_t)o[p + 3]; if (p + 4 + l > o.size()) { if (cut && l < 100000) break; return fmt("frame of %zu bytes, %zu left", l, o.size() - p - 4); }
        std::string raw; if (l % 2) return "odd hexadecimal length"; for (size_t i = 0; i < l; i++) if (!isxdigit((unsigned char)o[p + 4 + i])) return "not hexadecimal"; for (size_t i = 0; i < l; i += 2) raw += (char)strtoul(o.substr(p + 4 + i, 2).c_str(), nullptr, 16); p += 4 + l; l /= 2; const uint8_t *q = (const uint8_t *)raw.data(); if (l < 17) return "frame too short"; auto be = [&](const uint8_t *x) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | x[i]; return v; }; uint64_t it = be(q), yl = be(q + 8); if (yl > l - 17) return "output longer than the frame"; std::vector<uint8_t> y(q + 16, q + 16 + yl), pr(q + 17 + yl, q + l);
        std::string j = sim::judge(it, y, pr, q[16 + yl]); if (!j.empty()) return fmt("frame of %llu: %s", (unsigned long long)it, j.c_str()); got.insert(it);
    }
    std::multiset<uint64_t> allow(s.must.begin(), s.must.end()); allow.insert(s.may.begin(), s.may.end()); for (uint64_t g : got) { auto f = allow.find(g); if (f == allow.end()) return fmt("unexpected answer for iteration %llu", (unsigned long long)g); allow.erase(f); }
    for (uint64_t m : s.must) { auto f = got.find(m); if (f == got.end()) return fmt("no answer for iteration %llu", (unsigned long long)m); got.erase(f); }
    if (s.stop && !stop) return "the stop is not announced"; return "";
}
int main(int argc, char **argv) {
    init_gmp(); init(argc, argv); int q = C.thorough() ? 1 : 0; std::vector<Sc> sc; auto I = [](std::string b, double at = 0, int fr = 0) { return Item{0, at, fr, b}; }; auto END = [](int k, double at, int fr = 0) { return Item{k, at, fr, ""}; };
    const std::string STOP = "00", ACK = "ACK"; typedef std::vector<uint64_t> V;
    // requests the three kinds can serve
    if (C.mode == "simple" || C.mode == "all") {
        for (uint64_t n : std::initializer_list<uint64_t>{1, 1000, 70000}) sc.push_back({fmt("S: %llu", (unsigned long long)n), 'S', {I(hello('S')), I(num(n)), I(STOP, 0, 1), I(ACK)}, {n}, {}, true, 3 + q});
        sc.push_back({"S: stop at once", 'S', {I(hello('S')), I(STOP), I(ACK)}, {}, {}, true, 2 + q});
        for (double t : std::initializer_list<double>{0, 0.5, 1, 1.05, 3}) sc.push_back({fmt("S: stop at %.2f", t), 'S', {I(hello('S')), I(num(70000)), I(STOP, t), I(ACK)}, {}, {70000}, true, 3 + q});
        sc.push_back({"S: further numbers before the stop", 'S', {I(hello('S')), I(num(1000)), I(num(5)), I(num(7)), I(STOP, 0, 1), I(ACK)}, {1000}, {}, true, 1 + q});
    }
    if (C.mode == "nweso" || C.mode == "all") {
        sc.push_back({"N: one", 'N', {I(hello('N')), I(num(65536 + 10)), I(STOP, 0, 1), I(ACK)}, {65546}, {}, true, 2 + q});
        sc.push_back({"N: two, one of them twice", 'N', {I(hello('N')), I(num(5)), I(num(131072)), I(num(5)), I(STOP, 0, 3), I(ACK)}, {5, 5, 131072}, {}, true, 2});
        sc.push_back({"N: pieces", 'N', {I(hello('N')), I(num(5)), I(num(6)), I(STOP, 0, 2), I(ACK)}, {5, 6}, {}, true, 2 + q, 4, 40, 1});
        for (double t : std::initializer_list<double>{0, 1, 2.5}) sc.push_back({fmt("N: unreachable, stop at %.1f", t), 'N', {I(hello('N')), I(num(65536 + 10)), I(num(1000000007)), I(num("18446744073709551615")), I(STOP, t), I(ACK)}, {}, {65546}, true, 1 + q});
        sc.push_back({"N: stop at once", 'N', {I(hello('N')), I(STOP), I(ACK)}, {}, {}, true, 1 + q});
        sc.push_back({"N: many cores", 'N', {I(hello('N')), I(num(65536 + 10)), I(STOP, 0, 1), I(ACK)}, {65546}, {}, true, q, 16});
    }
    if (C.mode == "two" || C.mode == "all") {
        sc.push_back({"T: one", 'T', {I(hello('T')), I(num(1000)), I(STOP, 0, 1), I(ACK)}, {1000}, {}, true, 2});
        sc.push_back({"T: two, one of them twice", 'T', {I(hello('T')), I(num(1000)), I(num(65536)), I(num(1000)), I(STOP, 0, 2), I(ACK)}, {1000, 65536}, {}, true, 1 + q});
        sc.push_back({"T: pieces", 'T', {I(hello('T')), I(num(1000)), I(num(1100)), I(STOP, 0, 2), I(ACK)}, {1000, 1100}, {}, true, 1 + q, 4, 40, 1});
        for (double t : std::initializer_list<double>{0, 0.15, 1, 1.25}) sc.push_back({fmt("T: unreachable, stop at %.2f", t), 'T', {I(hello('T')), I(num(1000)), I(num(1000000007)), I(num("18446744073709551615")), I(num(499999)), I(STOP, t), I(ACK)}, {}, {1000, 499999}, true, 1 + q});
        sc.push_back({"T: stop at once", 'T', {I(hello('T')), I(STOP), I(ACK)}, {}, {}, true, 1 + q});
        sc.push_back({"T: beyond the allowed range", 'T', {I(hello('T')), I(num(500000)), I(num(1000)), I(STOP, 30, 1), I(ACK)}, {1000}, {}, true, 1});
    }
    if (C.mode == "hundred" || C.mode == "all") {
        for (int n : std::initializer_list<int>{100, 101, 103}) { Sc s{fmt("T: %d requests, descending", n), 'T', {I(hello('T'))}, {}, {}, true, 0}; for (int i = 0; i < n; i++) { uint64_t it = 40000 - 100 * i; s.items.push_back(I(num(it), 0.001)); if (i >= n - 100) s.must.push_back(it); else s.may.push_back(it); } s.items.push_back(I(STOP, 60, 100)); s.items.push_back(I(ACK)); sc.push_back(s); s.name += ", stopped early"; s.may.insert(s.may.end(), s.must.begin(), s.must.end()); s.must.clear(); s.items[s.items.size() - 2] = I(STOP, 0.5); sc.push_back(s); }
        for (int n : std::initializer_list<int>{100, 101, 120}) { Sc s{fmt("T: %d requests, ascending", n), 'T', {I(hello('T'))}, {}, {}, true, 0}; for (int i = 0; i < n; i++) { uint64_t it = 20000 + 100 * i; s.items.push_back(I(num(it), 0.001)); if (i < 100) s.must.push_back(it); } s.items.push_back(I(STOP, 60, 100)); s.items.push_back(I(ACK)); sc.push_back(s); }
        { Sc s{"T: 100 requests answered, then a smaller one", 'T', {I(hello('T'))}, {}, {}, true, 0}; for (int i = 0; i < 100; i++) { uint64_t it = 20000 + 100 * i; s.items.push_back(I(num(it), 0.001)); s.must.push_back(it); } s.items.push_back(I(num(1000), 0, 100)); s.must.push_back(1000); s.items.push_back(I(num(900), 0, 101)); s.must.push_back(900); s.items.push_back(I(STOP, 0, 102)); s.items.push_back(I(ACK)); sc.push_back(s); }
        { Sc s{"N: 105 requests", 'N', {I(hello('N'))}, {}, {}, true, 0}; for (int i = 0; i < 105; i++) { uint64_t it = 5 + i; s.items.push_back(I(num(it), 0.001)); s.must.push_back(it); } s.items.push_back(I(STOP, 0, 105)); s.items.push_back(I(ACK)); sc.push_back(s); }
    }
    if (C.mode == "broken" || C.mode == "all") {
        // end of stream or reset at every stage, malformed data at every stage, bad or missing acknowledgement
        for (char m : std::string("SNT")) {
            uint64_t rq = m == 'N' ? 5 : 1000; std::string h = hello(m); std::vector<std::pair<std::string, std::vector<Item>>> st;
            for (size_t cut : {(size_t)0, (size_t)1, (size_t)2, (size_t)4, (size_t)6, h.size() - 101, h.size() - 100, h.size() - 1}) st.push_back({fmt("after %zu bytes of the greeting", cut), {I(h.substr(0, cut))}});
            st.push_back({"after the greeting", {I(h)}}); st.push_back({"inside a number's length", {I(h), I("0")}}); st.push_back({"inside a number", {I(h), I("0410")}}); st.push_back({"after a request", {I(h), I(num(rq))}}); st.push_back({"after a request, later", {I(h), I(num(rq)), I("", 0.4)}}); st.push_back({"after a request, much later", {I(h), I(num(rq)), I("", 5)}}); st.push_back({"after an answer", {I(h), I(num(rq)), I("", 0, 1)}}); st.push_back({"inside a second request", {I(h), I(num(rq)), I("06", 0.3)}}); st.push_back({"during two requests", {I(h), I(num(rq)), I(num(rq + 1))}}); st.push_back({"before the acknowledgement", {I(h), I(num(rq)), I(STOP, 0, 1)}}); st.push_back({"inside the acknowledgement", {I(h), I(num(rq)), I(STOP), I("AC")}});
            for (auto &x : st) for (int k = 1; k <= 2; k++) for (int wf = 0; wf <= (k == 1); wf++) { Sc s{fmt("%c: %s %s%s", m, k == 1 ? "closed" : "reset", x.first.c_str(), wf ? ", writes go on" : ""), m, x.second, {}, {rq, rq + 1}, false, x.first.find("answer") != std::string::npos || x.first.find("request") != std::string::npos ? (m == 'N' && x.first.find("later") == std::string::npos ? 2 : 1 + q) : 1}; s.items.push_back(END(k, 0)); s.wfail = wf; if (x.first.find("after an answer") == 0) { s.must = {rq}; s.may.clear(); } sc.push_back(s); }
            // malformed data followed by more input and the acknowledgement; the connection stays open
            std::vector<std::string> bad{"0a", "xx", "-1", "21111111111111111111111", "2099999999999999999999", "021a", "02-5", "99"};
            for (auto &b : bad) for (int when = 0; when < 3; when++) { Sc s{fmt("%c: malformed %s %s", m, b.c_str(), when == 0 ? "at first" : when == 1 ? "after a request" : "after an answer"), m, {I(h)}, {}, {}, false, when == 1 ? 1 + q : q}; if (when) { s.items.push_back(I(num(rq))); (when == 2 ? s.must : s.may).push_back(rq); } s.items.push_back(I(b, 0, when == 2)); s.items.push_back(I(b.substr(0, 0), 20)); s.items.push_back(I(ACK)); s.items.push_back(END(1, 100)); s.stop = true; sc.push_back(s); }
            for (auto &b : std::initializer_list<std::string>{"NAK", "ack", "00A"}) { Sc s{fmt("%c: acknowledgement %s", m, b.c_str()), m, {I(h), I(num(rq)), I(STOP, 0, 1), I(b), END(1, 50)}, {rq}, {}, true, q}; sc.push_back(s); }
            // unusable discriminants and forms
            for (auto &d : std::initializer_list<std::string>{"7", "799999999991", "0", "abc", "-", "-0x", "--7", "12345678901234567890123456789012345678901234567890"}) { Sc s{fmt("%c: discriminant %s", m, d.c_str()), m, {I(hello(m, d)), I(num(rq)), I(STOP, 1), I(ACK), END(1, 50)}, {}, {}, false, 0}; sc.push_back(s); }
            { Sc s{fmt("%c: invalid form", m), m, {I(hello(m, DD, 100, (char)0xff)), I(STOP, 1), I(ACK), END(1, 50)}, {}, {}, false, 0}; sc.push_back(s); }
            // the peer stops reading in the middle of a frame
            for (long w : std::initializer_list<long>{0, 1, 2, 3, 6, 7, 100, 130}) { Sc s{fmt("%c: writes fail after %ld bytes", m, w), m, {I(h), I(num(rq)), I(num(rq + 1)), I(STOP, 5), I(ACK, 6), END(1, 50)}, {}, {rq, rq + 1}, false, q}; s.wlimit = w; s.wchunk = 50; sc.push_back(s); }
        }
        { Sc s{"unknown mode", 'X', {I("X"), END(1, 5)}, {}, {}, false, 0}; sc.push_back(s); }
    }
    segments = 1; size_t total = sc.size(); (void)total;
    for (auto &s : sc) {
        sched::Opt o; o.bound = s.bound; o.hot = 2; o.max_steps = 400000; o.vlimit = 3000; sim::pace = 1 << 15; sim::freerun = 0; if (s.mode == 'N') { sim::endless = 6 * 65536; sim::nseg_relevant(7 * 65536, 1); } else if (s.mode == 'T') { sim::endless = s.name.find("beyond") != std::string::npos ? ~0ull : 3 * 65536; sim::rel.clear(); std::set<uint64_t> r; V v = s.must; v.insert(v.end(), s.may.begin(), s.may.end()); for (uint64_t it : v) { uint64_t st = 0, n = it; for (int d = 0; d < 3; d++) { uint64_t len = d < 2 ? n * 2 / 3 / 100 * 100 : n; r.insert(st + len); r.insert((st + len) / 100 * 100); for (uint64_t i : sim::read_at(len, 10, 1)) r.insert(st + i * 10); st += len; n -= len; } } r.insert(1 << 20); sim::rel.assign(r.begin(), r.end()); } else { sim::endless = ~0ull; std::set<uint64_t> r; V v = s.must; v.insert(v.end(), s.may.begin(), s.may.end()); for (uint64_t it : v) { uint32_t k = 10, l = 1; if (it >= 1 << 16) ApproximateParameters(it, l, k); r.insert(it); for (uint64_t x : sim::read_at(it, k, l)) { r.insert(x * k * l); } } r.insert(1 << 20); sim::rel.assign(r.begin(), r.end()); }
        if (s.hw >= 16) { sim::rel.clear(); for (int i = 1; i < 48; i++) sim::rel.push_back(i << 15); }
        auto body = [&] {
            { sched::Quiet qq; g_hw = s.hw; new_event = false; fast_algorithm = two_weso = false; P = new Peer; P->items = s.items; P->rchunk = s.rchunk; P->wchunk = s.wchunk; P->wfail = s.wfail; P->wlimit = s.wlimit; rtok = wtok = 0; if (s.mode == 'N' && segments != 1) segments = 1; }
            static char a0[] = "vdf_client", a1[] = "localhost", a2[] = "1", a3[] = "0"; char *av[] = {a0, a1, a2, a3, nullptr}; int rc = client_main(4, av);
            sched::Quiet qq; std::string j = judge_out(s, P->out, false); if (!j.empty()) sched::fail("session", j); sched::outcome(fmt("%c rc %d, %s%s", s.mode, rc, P->frames() > 0 ? "answers" : "no answers", P->out.find("STOP") != std::string::npos ? ", stop" : "")); delete P;
        };
        sched::explore(s.name, o, body);
        if (C.elapsed() > C.budget) { C.capped = true; break; }
    }
    return finish();
}
