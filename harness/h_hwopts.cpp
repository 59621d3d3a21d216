// C33: the hardware client's command line. Every sequence of options and positionals up to a depth goes through the real
// parser and the real program entry; the oracle is a separate statement of the documented grammar and ranges.
#include "vh.h"
#include <cmath>
#include <signal.h>
#define main hw_client_program_main
#include "hw/hw_vdf_client.cpp"
#undef main
using namespace vh;
static int n_init, n_list, list_ret; static double g_freq, g_volt;
ChiaDriver *init_hw(double f, double v) { n_init++; g_freq = f; g_volt = v; return nullptr; }
int list_hw(void) { n_list++; return list_ret; }
void init_vdf_value(struct vdf_value *) {}
// ---------------------------------------------------------------- the documented command line
enum V { GOOD, BAD, EITHER };
struct Num { V v; double d; uint64_t u; };
static Num real(const std::string &s) { // decimal notation, nothing else decided here
    Num r{BAD, 0, 0}; size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; if (s[i] == '+') r.v = EITHER; i++; } size_t dig = 0; double v = 0, sc = 1; bool dot = false; for (; i < s.size(); i++) { if (s[i] == '.' && !dot) { dot = true; continue; } if (s[i] < '0' || s[i] > '9') break; dig++; v = v * 10 + (s[i] - '0'); if (dot) sc *= 10; }
    if (!dig) return r; double d = v / sc; if (i < s.size() && (s[i] == 'e') && i + 1 < s.size() && isdigit(s[i + 1])) { int e = 0; for (i++; i < s.size() && isdigit(s[i]); i++) e = e * 10 + s[i] - '0'; d *= pow(10, e); } if (i != s.size()) return r; r.v = GOOD; r.d = neg ? -d : d; return r; }
static Num whole(const std::string &s) { // decimal, 0x hexadecimal, 0 octal
    Num r{BAD, 0, 0}; if (s.empty()) return r; size_t i = 0; unsigned base = 10; if (s[0] == '0' && s.size() > 1) { if (s[1] == 'x') { base = 16; i = 2; } else { base = 8; i = 1; } } if (i == s.size()) return r; unsigned __int128 v = 0; for (; i < s.size(); i++) { int c = s[i], k = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : 99; if (k >= (int)base) return r; v = v * base + k; if (v >> 80) return r; } if (v > ~0ull) { return r; } r.v = GOOD; r.u = v; return r; }
static bool ipok(const std::string &s, uint32_t &ip) { int part = 0; uint64_t v = 0; ip = 0; int nd = 0; for (size_t i = 0; i <= s.size(); i++) { if (i < s.size() && isdigit(s[i])) { v = v * 10 + s[i] - '0'; if (++nd > 3 || v > 255 || (nd > 1 && v < (nd == 2 ? 10 : 100))) return false; } else { if (!nd || (i < s.size() && s[i] != '.')) return false; ip = ip << 8 | v; v = 0; nd = 0; part++; } } return part == 4 && ip != 0xffffffff; }
struct Want { V v = GOOD; bool list = false, version = false; double freq = 1100, volt = 0.88, maxf = -1; uint32_t ip = 0x7f000001; uint64_t mask = 0, thr = 4, prf = 0, per = 0; bool autof = false; long port = 0, n = 3; };
static Want spec(const std::vector<std::string> &a) {
    Want w; std::vector<std::string> pos; bool syntax = true, range = true, either = false, overridden = false; std::map<std::string, V> last;
    // a value that is replaced by a later one may or may not be looked at
    auto put = [&](const std::string &n, V v) { auto i = last.find(n); if (i != last.end() && i->second != GOOD) overridden = true; last[n] = v; };
    for (size_t i = 0; i < a.size() && syntax; i++) { const std::string &t = a[i]; if (t.compare(0, 2, "--")) { if (t[0] == '-') { syntax = false; break; } pos.push_back(t); continue; }
        std::string name = t.substr(2), val; bool has = false; size_t e = name.find('='); if (e != std::string::npos) { val = name.substr(e + 1); name = name.substr(0, e); has = true; }
        if (name == "list" || name == "version") { if (has) syntax = false; (name == "list" ? w.list : w.version) = true; continue; }
        if (!has) { if (i + 1 >= a.size()) { syntax = false; break; } val = a[++i]; }
        if (name == "freq" || name == "voltage" || name == "max-freq") { Num n = real(val); double lo = name == "freq" ? 200 : name == "voltage" ? 0.7 : -1e300, hi = name == "freq" ? 2200 : name == "voltage" ? 1.0 : 1e300; if (n.v != BAD && (n.d < lo || n.d > hi)) n.v = BAD; put(name, n.v); (name == "freq" ? w.freq : name == "voltage" ? w.volt : w.maxf) = n.d; }
        else if (name == "ip") put(name, ipok(val, w.ip) ? GOOD : BAD);
        else if (name == "vdfs-mask" || name == "vdf-threads" || name == "proof-threads" || name == "auto-freq-period") { Num n = whole(val); bool ok = n.v == GOOD; if (name == "vdfs-mask") { ok = ok && n.u <= 7; w.mask = n.u; } else if (name == "vdf-threads") { ok = ok && n.u >= 2 && n.u <= 64; w.thr = n.u; } else if (name == "proof-threads") { ok = ok && n.u < 64; w.prf = n.u; } else { w.autof = true; ok = ok && n.u >= 10 && n.u <= 0xffffffffull; w.per = n.u; } put(name, ok ? GOOD : BAD); }
        else syntax = false; }
    if (!syntax) { w.v = BAD; return w; }
    for (auto &l : last) { if (l.second == BAD) range = false; if (l.second == EITHER) either = true; } either |= overridden;
    if (w.list || w.version) { w.v = range && !either ? GOOD : EITHER; return w; }
    if (range && w.prf >= w.thr) range = false;
    if (pos.empty()) range = false; else { auto num = [&](const std::string &s, long lo, long hi, long &out) { if (s.empty()) return BAD; size_t i = s[0] == '+' || s[0] == ' ' ? 1 : 0; long v = 0; if (i == s.size()) return BAD; for (size_t k = i; k < s.size(); k++) { if (!isdigit(s[k])) return BAD; v = v * 10 + s[k] - '0'; if (v > 1000000) return BAD; } out = v; return v < lo || v > hi ? BAD : i ? EITHER : GOOD; };
        V p = num(pos[0], 1, 65535, w.port); if (p == BAD) range = false; if (p == EITHER) either = true; if (pos.size() > 1) { V q = num(pos[1], 1, 3, w.n); if (q == BAD) range = false; if (q == EITHER) either = true; } if (pos.size() > 2) either = true; }
    w.v = !range ? BAD : either ? EITHER : GOOD; return w; }
static std::string show(const std::vector<std::string> &a) { std::string r; for (auto &s : a) r += " '" + s + "'"; return r.substr(0, 300); }
static void one(const std::vector<std::string> &a) {
    Want w = spec(a); C.states++; C.transitions += 2; std::vector<std::string> st{"hw_vdf_client"}; st.insert(st.end(), a.begin(), a.end()); std::vector<char *> av; for (auto &s : st) av.push_back(&s[0]); av.push_back(nullptr); std::string ctx = "hw_vdf_client" + show(a);
    static vdf_client cl; vdf_client_opts &o = cl.opts; memset((void *)&o, 0xa5, sizeof o); int r = parse_opts(st.size(), av.data(), &o); C.extra[w.v == GOOD ? "valid" : w.v == BAD ? "invalid" : "undecided"]++;
    if (w.v == BAD && r >= 0) viol("option-accepted", ctx + fmt(" is accepted (freq %g, voltage %g, mask %u, threads %u/%u, period %u, port %d)", o.freq, o.voltage, o.vdfs_mask, o.vpo.max_aux_threads, o.vpo.max_proof_threads, o.auto_freq_period, o.port));
    if (w.v == GOOD && r < 0) viol("option-refused", ctx + " is refused");
    if (r >= 0 && w.v != BAD) { if (o.do_list != w.list || o.show_version != w.version) viol("option-value", ctx + ": list/version"); if (!w.list && !w.version) { C.nontrivial++;
            double emax = w.maxf < 0 ? pll_entries[VALID_PLL_FREQS - 1].freq : w.maxf;
            if (std::abs(o.freq - w.freq) > 1e-9 * w.freq || std::abs(o.voltage - w.volt) > 1e-9 || o.ip != w.ip || o.port != w.port || o.n_vdfs != w.n || o.vdfs_mask != w.mask || o.vpo.max_aux_threads != w.thr || o.vpo.max_proof_threads != w.prf || o.auto_freq != w.autof || (w.autof && o.auto_freq_period != w.per) || (w.maxf >= 0 && std::abs(o.max_freq - w.maxf) > 1e-9 * emax) || (w.maxf < 0 && o.max_freq != emax && w.maxf == -1)) viol("option-value", ctx + fmt(" means freq %g voltage %g ip %x port %d n %d mask %u threads %u/%u auto %d period %u max %g", o.freq, o.voltage, o.ip, o.port, o.n_vdfs, o.vdfs_mask, o.vpo.max_aux_threads, o.vpo.max_proof_threads, o.auto_freq, o.auto_freq_period, o.max_freq));
            init_vdf_client(&cl); unsigned em = w.mask ? w.mask : (1u << w.n) - 1; if (o.vdfs_mask != em) viol("option-engines", ctx + fmt(": engines %u, must be %u", o.vdfs_mask, em)); for (int i = 0; i < N_HW_VDFS; i++) if (cl.conns[i].state != CLOSED) viol("option-engines", ctx + ": connection not closed at the start"); } }
    // the program: a refused command line ends with status 1 before the device is touched
    n_init = n_list = 0; list_ret = C.states & 1; int rc = hw_vdf_client_main(st.size(), av.data());
    bool acc = r >= 0; if (!acc && (rc != 1 || n_init || n_list)) viol("program", ctx + fmt(": refused, but exit status %d, device opened %d times", rc, n_init));
    if (acc && o.show_version && (rc != 0 || n_init || n_list)) viol("program", ctx + fmt(": --version ends with %d, device opened %d times", rc, n_init)); else if (acc && !o.show_version && o.do_list && (rc != list_ret || n_init || n_list != 1)) viol("program", ctx + fmt(": --list ends with %d", rc)); else if (acc && !o.show_version && !o.do_list && (rc != 1 || n_init != 1 || std::abs(g_freq - o.freq) > 1e-9 * g_freq || g_volt != o.voltage)) viol("program", ctx + fmt(": device opened %d times with %g %g, exit status %d", n_init, g_freq, g_volt, rc)); }
int main(int argc, char **argv) {
    init(argc, argv); int dn = open("/dev/null", O_WRONLY); if (!C.out.empty()) dup2(dn, 1); if (!getenv("VH_STDERR")) dup2(dn, 2);
    std::vector<std::pair<std::string, std::vector<std::string>>> ov{
        {"freq", {"199", "200", "200.5", "199.99", "1100", "2200", "2200.01", "2201", "0", "-1100", "nan", "-nan", "inf", "1e3", "1e4", "0x", "x", "", "1100x", "1100 2", "1,100", "--list"}},
        {"voltage", {"0.7", "0.69", "0.88", "1", "1.0", "1.01", "0", "-0.8", "nan", "inf", "", "0.8V", "0..8", ".8"}},
        {"max-freq", {"1200", "0", "nan", "inf", "1200MHz", "", "300.5"}},
        {"ip", {"127.0.0.1", "1.2.3.4", "10.0.0.255", "255.255.255.255", "0.0.0.0", "localhost", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.4 ", "", "::1", "1.2.3.-4"}},
        {"vdfs-mask", {"0", "1", "2", "3", "4", "5", "6", "7", "8", "0x7", "0x10", "255", "256", "257", "263", "0x107", "65537", "4294967297", "18446744073709551617", "-1", "-255", "x", "7x", "", "07", "1.5"}},
        {"vdf-threads", {"0", "1", "2", "3", "4", "63", "64", "65", "128", "255", "256", "258", "260", "0x40", "4294967300", "18446744073709551620", "-4", "-252", "x", "4x", "", "2.5", "010"}},
        {"proof-threads", {"0", "1", "2", "3", "4", "63", "64", "256", "257", "4294967297", "-1", "-255", "x", "1x", ""}},
        {"auto-freq-period", {"0", "9", "10", "11", "3600", "4294967295", "4294967296", "4294967306", "18446744073709551626", "-1", "-10", "x", "10s", "", "1e2"}},
        {"list", {""}}, {"version", {""}}, {"", {"1"}}, {"bogus", {"1"}}, {"fre", {"1100"}}, {"freqq", {"1100"}}, {"vdf_threads", {"4"}}, {std::string(31, 'a'), {"1"}}, {std::string(32, 'a'), {"1"}}, {std::string(300, 'f'), {"1"}}};
    std::vector<std::vector<std::string>> units; // one option, in both spellings
    for (auto &o : ov) for (auto &v : o.second) { units.push_back({"--" + o.first + "=" + v}); units.push_back({"--" + o.first, v}); }
    units.push_back({"--list"}); units.push_back({"--version"}); units.push_back({"--freq"}); units.push_back({"-"}); units.push_back({"--"}); units.push_back({"-h"}); units.push_back({"-5"}); units.push_back({"---freq=1100"});
    std::vector<std::string> ports{"8000", "1", "65535", "0", "65536", "-1", "8000x", "", " 80", "+80", "0x50", "080", "99999999999999999999", "4294975296", "port"}, ns{"1", "2", "3", "0", "4", "-1", "3x", "", "4294967297", "x", "1.0"};
    auto app = [](std::vector<std::string> a, const std::vector<std::string> &b) { a.insert(a.end(), b.begin(), b.end()); return a; };
    if (C.mode == "one") { // every option x every positional tail, in every position
        std::vector<std::vector<std::string>> tails{{}}; for (auto &p : ports) { tails.push_back({p}); for (auto &n : ns) { tails.push_back({p, n}); if (p == "8000" && (n == "3" || n == "0")) tails.push_back({p, n, "7"}); } }
        units.push_back({}); for (auto &u : units) { if (!next()) continue; C.traces++; for (auto &t : tails) for (size_t at = 0; at <= t.size(); at++) { std::vector<std::string> a(t.begin(), t.begin() + at); a = app(a, u); a.insert(a.end(), t.begin() + at, t.end()); one(a); } }
    } else if (C.mode == "two") { // every pair of options in both orders around a port
        for (auto &u : units) { if (!next()) continue; C.traces++; for (auto &v : units) { one(app(app(u, v), {"8000"})); one(app(app(u, {"8000", "2"}), v)); one(app(u, v)); } }
    } else if (C.mode == "three") { // triples of the options with related ranges
        std::vector<std::vector<std::string>> sel; for (auto &u : units) if (u.size() == 1 && (C.thorough() || u[0].find("threads") != std::string::npos || u[0].find("period") != std::string::npos || u[0].find("mask") != std::string::npos || u[0].find("list") != std::string::npos)) sel.push_back(u);
        for (auto &u : sel) for (auto &v : sel) { if (!next()) continue; C.traces++; for (auto &x : sel) one(app(app(app(u, v), x), {"8000"})); }
    } else return 3;
    return finish();
}
