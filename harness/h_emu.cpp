// C35: the software accelerator behind the real drivers. The whole stack of emu_hw_vdf_client below the event loop --
// hw_interface, register codec, USB driver, vendor-library emulation, emulator -- is driven with sequences of what the
// client does (start, stop, restart, read, change the frequency, end the program) under every interleaving with the
// emulator's job threads up to a bound, and every reading is compared with the true powers of the job.
#include "../sched/vsched.h"
#include "vh.h"
#include <memory>
#include <stdexcept>
#include <algorithm>
#include "vdf_base.hpp"
using namespace vh;
struct QReducer { void reduce(form &f) { form t = f; { sched::Quiet q; static thread_local PulmarkReducer r; r.reduce(t); } f = t; } };
static void Qnudupl(form &a, form &b, integer &D, integer &L) { form t = b, r; integer d = D, l = L; { sched::Quiet q; sched::progress(); nudupl_form(r, t, d, l); } a = r; }
#define PulmarkReducer QReducer
#define nudupl_form Qnudupl
#include "hw/emu_runner.cpp"
#undef nudupl_form
#undef PulmarkReducer
#include "hw_interface.hpp"
#include "pll_freqs.hpp"
void vdf_do_log(const char *, ...) {}
struct Job { integer D; std::vector<form> pw; uint64_t n; };
static std::vector<Job *> jobs;
// the squarings of small jobs are chosen so that each leaves something to reduce
static Job *prep(int bits, long k, int skip, int n) {
    Job *j = new Job; mpz_t &D = *(mpz_t *)&j->D.impl; mpz_set_ui(D, 1); mpz_mul_2exp(D, D, bits - 1); mpz_add_ui(D, D, k); do mpz_nextprime(D, D); while (mpz_fdiv_ui(D, 8) != 7); mpz_neg(D, D);
    integer L; mpz_neg(L.impl, D); mpz_root(L.impl, L.impl, 4); PulmarkReducer r; form f = form::generator(j->D);
    bool all = true; for (int i = 0; i <= n + skip; i++) { if (i >= skip) j->pw.push_back(f); form g, h; nudupl_form(g, f, j->D, L); h = g; r.reduce(g); if (i >= skip && i < n + skip && !mpz_cmp(h.a.impl, g.a.impl) && !mpz_cmp(h.b.impl, g.b.impl)) all = false; f = g; } j->n = n;
    if (bits < 100 && !all && skip < 500) { delete j; return prep(bits, k, skip + 1, n); } return j;
}
struct Op { char k; int e, j; };     // S start, X stop, R read what runs, W wait, F change the frequency of what runs, E end without stopping
static std::string show(const std::vector<Op> &v) { std::string s; for (auto &o : v) s += (s.empty() ? "" : " ") + (o.k == 'S' ? fmt("start(%d,job%d)", o.e, o.j) : o.k == 'X' ? fmt("stop(%d)", o.e) : o.k == 'R' ? "read" : o.k == 'W' ? fmt("wait(%d)", o.e) : o.k == 'F' ? fmt("freq(%+d)", o.e) : "end"); return s; }
struct Run {
    ChiaDriver *drv; int job[3]; bool run[3]; uint64_t last[3]; struct vdf_value v[3]; std::string trace;
    Run() { sched::Quiet q; drv = new ChiaDriver(); drv->freq_idx = 100; for (int i = 0; i < 3; i++) { job[i] = -1; run[i] = false; last[i] = 0; init_vdf_value(&v[i]); } }
    [[noreturn]] void bad(const std::string &k, const std::string &s) { sched::fail(k, s); }
    int mask() { int m = 0; for (int i = 0; i < 3; i++) if (run[i]) m |= 1 << i; return m; }
    void read(bool final) {
        int m = 0; for (int i = 0; i < 3; i++) if (job[i] >= 0) m |= 1 << i; if (!m) return; read_hw_status(drv, m, v); sched::Quiet q;
        for (int i = 0; i < 3; i++) if (m >> i & 1) {
            if (!run[i]) { if (v[i].iters || mpz_sgn(v[i].a) || mpz_sgn(v[i].b)) bad("stopped", fmt("engine %d: stopped, and reads as iteration %llu", i, (unsigned long long)v[i].iters)); continue; }
            Job &j = *jobs[job[i]]; uint64_t t = v[i].iters; trace += fmt("%llu", (unsigned long long)t);
            if (t > j.n) bad("value", fmt("engine %d: iteration %llu of a job of %llu", i, (unsigned long long)t, (unsigned long long)j.n));
            if (t < last[i]) bad("value", fmt("engine %d: iteration %llu after %llu", i, (unsigned long long)t, (unsigned long long)last[i])); last[i] = t;
            if (mpz_cmp(v[i].a, j.pw[t].a.impl) || mpz_cmp(v[i].b, j.pw[t].b.impl)) { std::string w = "no value of any job"; for (size_t k = 0; k < jobs.size(); k++) for (size_t u = 0; u < jobs[k]->pw.size(); u++) if (!mpz_cmp(v[i].a, jobs[k]->pw[u].a.impl) && !mpz_cmp(v[i].b, jobs[k]->pw[u].b.impl)) w = fmt("that of iteration %zu of job %zu", u, k); bad("value", fmt("engine %d: the value read with iteration %llu of job %d is ", i, (unsigned long long)t, job[i]) + w); }
            if (final && t != j.n) bad("stalled", fmt("engine %d stays at iteration %llu of %llu", i, (unsigned long long)t, (unsigned long long)j.n));
        }
    }
    void op(const Op &o) {
        switch (o.k) {
        case 'S': { Job &j = *jobs[o.j]; int r = start_hw_vdf(drv, j.D.impl, j.pw[0].a.impl, j.pw[0].b.impl, j.n, o.e); if (r) bad("start", fmt("start failed with %d", r)); job[o.e] = o.j; run[o.e] = true; last[o.e] = 0; break; }
        case 'X': stop_hw_vdf(drv, o.e); run[o.e] = false; break;
        case 'R': read(false); break;
        case 'W': usleep(o.e); break;
        case 'F': { uint32_t f = drv->freq_idx + o.e; adjust_hw_freq(drv, mask(), o.e); if (drv->freq_idx != f) bad("freq", "the frequency did not change"); double g = drv->GetPLLFrequency(); if (g < pll_entries[f].freq * 0.999999 || g > pll_entries[f].freq * 1.000001) bad("freq", fmt("frequency %g read back for %g", g, pll_entries[f].freq)); break; }
        }
    }
};
static void body(const std::vector<Op> &seq) {
    Run r; if (r.drv->ftdi.Open()) r.bad("open", "the emulated device does not open");
    for (auto &o : seq) { if (o.k == 'E') { { sched::Quiet q; sched::outcome("ended"); } stop_hw(r.drv); emu_shutdown(); return; } r.op(o); }
    r.read(false); for (int i = 0; i < 40; i++) usleep(500000); r.read(true);
    for (int i = 0; i < 3; i++) if (r.run[i]) r.op({'X', i, 0});
    r.read(false);
    stop_hw(r.drv); emu_shutdown(); sched::Quiet q; sched::outcome(r.trace);
}
static void enumerate(const std::vector<Op> &alpha, int depth, const std::function<void(const std::vector<Op> &)> &f) {
    std::vector<Op> s; std::function<void()> rec = [&] {
        if ((int)s.size() == depth) { f(s); return; }
        bool run[3] = {}, started = false; for (auto &o : s) { if (o.k == 'S') run[o.e] = started = true; if (o.k == 'X') run[o.e] = false; } bool any = run[0] || run[1] || run[2];
        for (auto &o : alpha) {
            if (o.k == 'X' && !run[o.e]) continue; if ((o.k == 'R' && !started) || (o.k == 'F' && !any)) continue; if (o.k == 'W' && (!started || s.back().k == 'W')) continue; if (o.k == 'E' && (int)s.size() + 1 != depth) continue; if (o.k == 'E' && !started) continue;
            s.push_back(o); rec(); s.pop_back();
        }
    };
    rec();
}
// ---------------------------------------------------------------- registers: windows of every place and size
static void regs() {
    for (int state = 0; state < 3; state++) {
        ChiaDriver *d = new ChiaDriver(); if (d->ftdi.Open()) { printf("open\n"); exit(3); }
        if (state) for (int i = 0; i < 3; i++) { Job &j = *jobs[i == 1 ? 1 : 2 + (i == 2)]; if (start_hw_vdf(d, j.D.impl, j.pw[0].a.impl, j.pw[0].b.impl, j.n, i)) exit(3); }
        if (state) for (int e = 0; e < 3; e++) for (int w = 0; w < 60000; w++) { struct vdf_value v[3]; for (auto &x : v) init_vdf_value(&x); read_hw_status(d, 1 << e, v); uint64_t it = v[e].iters; for (auto &x : v) clear_vdf_value(&x); if (it == jobs[e == 1 ? 1 : 2 + (e == 2)]->n) break; usleep(1000); }
        if (state == 2) { stop_hw_vdf(d, 0); stop_hw_vdf(d, 2); }
        struct Area { uint32_t lo, hi; }; std::vector<Area> as{{CHIA_VDF_STATUS_JOB_ID_REG_OFFSET - 64, CHIA_VDF_STATUS_JOB_ID_REG_OFFSET + 260}, {CHIA_VDF_STATUS_JOB_ID_REG_OFFSET + 0x10000 - 64, CHIA_VDF_STATUS_JOB_ID_REG_OFFSET + 0x10000 + 260}, {CHIA_VDF_STATUS_JOB_ID_REG_OFFSET + 0x20000 - 64, CHIA_VDF_STATUS_JOB_ID_REG_OFFSET + 0x20000 + 260}, {0x300000, 0x300014 + 3 * 0xb4 + 64}};
        for (auto &a : as) {
            uint8_t img[1024], buf[1100]; memset(img, 0xee, sizeof img); uint32_t len = a.hi - a.lo;
            // the job's status registers as a whole, refreshed by reading the job id; then every register alone
            uint32_t id = a.lo == 0x300000 ? 0x300014 : a.lo + 64; d->ftdi.Read(id, buf, 4); if (a.lo == 0x300000) { d->ftdi.Read(id + 0xb4, buf, 4); d->ftdi.Read(id + 2 * 0xb4, buf, 4); }
            for (uint32_t o = 0; o < len; o += 4) if (d->ftdi.Read(a.lo + o, img + o, 4)) exit(3);
            if (state == 1) for (int e = 0; e < (a.lo == 0x300000 ? 3 : 1); e++) { int eng = a.lo == 0x300000 ? e : (a.lo - (CHIA_VDF_STATUS_JOB_ID_REG_OFFSET - 64)) / 0x10000; Job &j = *jobs[eng == 1 ? 1 : 2 + (eng == 2)]; uint32_t jid; uint64_t it; mpz_t x, y; mpz_inits(x, y, NULL); d->DeserializeJob(img + (id - a.lo) + e * 0xb4, jid, it, x, y); if (it != j.n || mpz_cmp(x, j.pw[it].a.impl) || mpz_cmp(y, j.pw[it].b.impl)) viol("regs-value", fmt("engine %d: registers read one by one do not hold the final value of the job", eng)); mpz_clears(x, y, NULL); }
            if (state == 1) for (int e = 0; e < (a.lo == 0x300000 ? 3 : 1); e++) for (uint32_t o = 0; o < len; o += 4) { bool in = false; for (int k = 0; k < (a.lo == 0x300000 ? 3 : 1); k++) in |= o >= id - a.lo + k * 0xb4 && o < id - a.lo + (k + 1) * 0xb4; uint32_t w; memcpy(&w, img + o, 4); if (!in && w) viol("regs-outside", fmt("state %d: register %x, which does not exist, reads as %08x", state, a.lo + o, w)); }
            for (uint32_t lo = 0; lo < len; lo += 4) for (uint32_t sz = 4; lo + sz <= len; sz += 4) {
                if (!next()) continue; C.states++; C.transitions++; C.traces++; C.nontrivial++; memset(buf, 0x77, sizeof buf);
                if (d->ftdi.Read(a.lo + lo, buf, sz)) { viol("regs-read", fmt("state %d: reading %u bytes at %x fails", state, sz, a.lo + lo)); continue; }
                if (memcmp(buf, img + lo, sz)) { uint32_t k = 0; while (buf[k] == img[lo + k]) k++; viol("regs", fmt("state %d: reading %u bytes at %x gives %02x at byte %u, where the register read alone has %02x", state, sz, a.lo + lo, buf[k], k, img[lo + k])); }
                for (size_t k = sz; k < sizeof buf; k++) if (buf[k] != 0x77) { viol("regs-past", fmt("reading %u bytes at %x writes behind the buffer", sz, a.lo + lo)); break; }
            }
            outcome(fmt("state %d area %x", state, a.lo));
        }
        stop_hw(d); emu_shutdown();
    }
    // a job written in pieces (transfers of the sizes the bus has) starts when the last register arrives, and not before
    uint8_t job[2048]; Job &A = *jobs[2], &B = *jobs[1]; const uint32_t base = CHIA_VDF_CMD_JOB_ID_REG_OFFSET; ChiaDriver *d = new ChiaDriver(); if (d->ftdi.Open()) exit(3);
    size_t sz = d->CmdSize(); auto ser = [&](Job &j, int id) { integer L; mpz_neg(L.impl, j.D.impl); mpz_root(L.impl, L.impl, 4); d->SerializeJob(job, id, j.n, j.pw[0].a.impl, j.pw[0].b.impl, j.D.impl, L.impl); };
    struct vdf_value v[3]; for (int i = 0; i < 3; i++) init_vdf_value(&v[i]);
    for (int e = 0; e < 3; e++) for (size_t unit : {4, 16, 32, 64, 128, 256}) for (size_t c = unit; c < sz; c += unit) {
        if (!next()) continue; C.states++; C.traces++; C.nontrivial++; uint32_t o = 0x10000 * e; d->EnableEngine(CHIA_VDF_CONTROL_REG_OFFSET + o); ser(B, 7); d->ftdi.Write(base + o, job, sz); C.transitions += 4;
        uint64_t it = 0; for (int w = 0; w < 60000 && it != B.n; w++) { usleep(500); read_hw_status(d, 1 << e, v); it = v[e].iters; } if (it != B.n) { viol("piece", fmt("engine %d: a job does not end", e)); continue; }
        ser(A, 9); for (size_t k = 0; k < c; k += unit) d->ftdi.Write(base + o + k, job + k, unit);
        read_hw_status(d, 1 << e, v); if (v[e].iters != B.n || mpz_cmp(v[e].a, B.pw[B.n].a.impl)) viol("piece-early", fmt("engine %d: %zu of %zu bytes of a job were written and the engine left its old job", e, c, sz));
        d->ftdi.Write(base + o + c, job + c, sz - c); it = 0; for (int w = 0; w < 60000 && it != A.n; w++) { usleep(500); read_hw_status(d, 1 << e, v); it = v[e].iters; }
        if (it != A.n || mpz_cmp(v[e].a, A.pw[A.n].a.impl) || mpz_cmp(v[e].b, A.pw[A.n].b.impl)) viol("piece", fmt("engine %d: a job written as %zu bytes in transfers of %zu and the rest does not give its value", e, c, unit));
    }
    stop_hw(d); emu_shutdown(); outcome("pieces");
    // opening, programming the clock and the board through the emulated library
    for (double f : std::initializer_list<double>{100, 500, 1100, 1300}) { if (!next()) continue; C.states++; C.traces++; ChiaDriver *h = init_hw(f, 0.88); if (!h) { viol("init", "the emulated device cannot be initialised"); continue; } double g = h->GetPLLFrequency(); if (g < f * 0.9999 || g > f * 1.01) viol("init", fmt("frequency %g set, %g read back", f, g)); stop_hw(h); }
}
int main(int argc, char **argv) {
    VdfBaseInit(); unsetenv("EMU_ERROR_PROB"); init(argc, argv); int q = C.thorough() ? 1 : 0;
    jobs.push_back(prep(64, 12345, 0, 3)); jobs.push_back(prep(50, 999, 4, 2)); jobs.push_back(prep(1024, 77, 0, 40)); jobs.push_back(prep(1023, 5, 9, 25)); jobs.push_back(prep(64, 99999, 2, 0));
    if (C.mode == "regs") { regs(); return finish(); }
    struct U { std::vector<Op> s; int bound; }; std::vector<U> us; Op S00{'S', 0, 0}, S01{'S', 0, 1}, S0Z{'S', 0, 4}, S10{'S', 1, 0}, S20{'S', 2, 1}, X0{'X', 0, 0}, X1{'X', 1, 0}, R{'R', 0, 0}, W{'W', 15, 0}, WL{'W', 200000, 0}, F{'F', 1, 0}, E{'E', 0, 0};
    auto add = [&](std::vector<Op> al, int depth, int bound) { enumerate(al, depth, [&](const std::vector<Op> &s) { us.push_back({s, bound}); }); };
    if (C.mode == "one") { for (int d = 1; d <= 3; d++) add({S00, S01, X0, R, W, F, E}, d, 2 + q); add({S00, S01, S0Z, X0, R, W, E}, 4, 1 + q); add({S00, X0, R, S01, F}, 5, 1 + q); }
    if (C.mode == "many") { for (int d = 2; d <= 3; d++) add({S00, S10, S20, X0, X1, R, F, E}, d, 1 + q); add({S00, S10, X0, R, WL, F}, 4, 1 + q); }
    for (auto &u : us) {
        sched::Opt o; o.bound = u.bound; o.hot = 3; o.max_steps = 200000; o.vlimit = 3000; auto s = u.s;
        sched::explore(show(s), o, [&] { body(s); }); if (C.elapsed() > C.budget) { C.capped = true; break; }
    }
    if (!C.shard) { C.extra["op_sequences"] = us.size(); for (size_t i = 0; i < us.size(); i += us.size() / 5 + 1) C.samples.push_back(show(us[i].s)); }
    return finish();
}
