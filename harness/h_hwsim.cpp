// C25 / C26: the real hardware client (event loop, reading intake, proof scheduling) closed with a nondeterministic
// accelerator. Worker threads the client starts are captured and run to completion at points the explorer chooses.
#include "vh.h"
#include <gmp.h>
#include <dlfcn.h>
#include <sys/socket.h>
#include "ft_model.h"
#define main hw_client_main_entry
#include "hw/hw_vdf_client.cpp"
#undef main
#include "ref_verify.h"
using namespace vh;
int chia_vdf_is_emu = 1;
void hw_proof_process_work(struct vdf_state *);
form *hw_proof_value_at(struct vdf_state *vdf, size_t pos);

// ---- captured threads
struct Task { void *(*fn)(void *); void *arg; int proof; };   // proof: index of the proof it computes, -1 value work
static std::vector<Task> tasks; static bool capture = false; static int in_task = 0; static vdf_state *cur_vdf = nullptr; static std::set<int> captured_proofs;
static long naps = 0; struct Hang {};
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    if (!capture || in_task) return real(t, a, fn, arg);
    int pi = -1;
    if (cur_vdf) for (size_t i = 0; i < cur_vdf->proofs.size(); i++) if (cur_vdf->proofs[i].flags != 0xff && (cur_vdf->proofs[i].flags & HW_VDF_PROOF_FLAG_STARTED) && !captured_proofs.count(i)) { pi = i; captured_proofs.insert(i); break; }
    tasks.push_back({fn, arg, pi}); *t = (pthread_t)0xfa7e0000; return 0;
}
extern "C" int pthread_detach(pthread_t t) {
    static auto real = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
    return t == (pthread_t)0xfa7e0000 ? 0 : real(t);
}
static void run_task(size_t i) { Task t = tasks[i]; tasks.erase(tasks.begin() + i); in_task++; naps = 0; t.fn(t.arg); in_task--; naps = 0; }

// ---- the computation
static integer D, L; static std::vector<form> pw;      // pw[i] = x^(2^i)
static void prep(int bits, int k0, size_t n) {
    // prime discriminant = 1 mod 8 in absolute value 7 mod 8
    Z_: mpz_set_ui(D.impl, 1); mpz_mul_2exp(D.impl, D.impl, bits - 1); mpz_add_ui(D.impl, D.impl, 12345 + 1000 * k0);
    do { mpz_nextprime(D.impl, D.impl); } while (mpz_fdiv_ui(D.impl, 8) != 7);
    mpz_neg(D.impl, D.impl); mpz_neg(L.impl, D.impl); mpz_root(L.impl, L.impl, 4);
    PulmarkReducer red; form f = form::generator(D);
    for (int i = 0; i < k0; i++) { form g; nudupl_form(g, f, D, L); red.reduce(g); f = g; }
    pw.clear(); pw.push_back(f); for (size_t i = 0; i < n; i++) { form g; nudupl_form(g, f, D, L); red.reduce(g); f = g; pw.push_back(f); }
}
static bool feq(const form &a, const form &b) { return !mpz_cmp(a.a.impl, b.a.impl) && !mpz_cmp(a.b.impl, b.b.impl) && !mpz_cmp(a.c.impl, b.c.impl); }
static std::string H(const mpz_t z) { char *s = mpz_get_str(0, 16, z); std::string r = s; free(s); return r; }
static void pack(uint8_t *p, const mpz_t v, int nreg, int nco) {
    std::vector<uint32_t> w(nreg + 1); mpz_t t; mpz_init(t); mpz_abs(t, v); int sg = mpz_sgn(v);
    for (int k = 0; k < nco; k++) { long c = sg * (long)(mpz_get_ui(t) & 0xffff); mpz_tdiv_q_2exp(t, t, 16); uint64_t x = (uint64_t)(c & 0x7ffff); size_t b = k * 19; uint64_t s = x << (b % 32); w[b / 32] |= (uint32_t)s; if (b / 32 + 1 < (size_t)nreg) w[b / 32 + 1] |= (uint32_t)(s >> 32); }
    for (int k = 0; k < nreg; k++) { p[4 * k] = w[k] >> 24; p[4 * k + 1] = w[k] >> 16; p[4 * k + 2] = w[k] >> 8; p[4 * k + 3] = w[k]; }
    mpz_clear(t);
}
static void unpack(const uint8_t *buf, int nco, mpz_t out) {
    mpz_set_ui(out, 0);
    for (int i = nco - 1; i >= 0; i--) {
        long v = 0; for (int b = 18; b >= 0; b--) { size_t bit = (size_t)i * 19 + b, w = bit / 32, o = bit % 32; int x = (buf[w * 4 + 3 - o / 8] >> (o % 8)) & 1; v = b == 18 ? -x : v * 2 + x; }
        mpz_mul_2exp(out, out, 16); if (v >= 0) mpz_add_ui(out, out, v); else mpz_sub_ui(out, out, -v);
    }
}
static std::string dstr() { return "-0x" + H(D.impl).substr(1); }
static void init_form_bytes(uint8_t *o) { memset(o, 0, BQFC_FORM_SIZE); bqfc_serialize(o, pw[0].a.impl, pw[0].b.impl, BQFC_MAX_D_BITS); }

// =============================================================== C25
static const int INTERVAL = 8, GRIDS = 12, TARGET = INTERVAL * GRIDS;
enum { R_ADV1, R_GRID, R_GRID3, R_FAR, R_TARGET, R_REPEAT, R_ZERO, R_A0, R_ABAD, R_BBAD, R_BPLUS, R_BMINUS, R_NEGA, R_BEYOND, R_IDLE, R_GRIDBAD, R_FAIL, R_FAILOTHER, R_WFALL, R_WFENABLE, R_WFJOB, R_WFSTART, NREAD };
static const char *RN[] = {"advance 1", "next grid value", "past the next grid value", "skip three grid values", "reach the target", "repeat", "all zero", "a=0", "a corrupted", "b corrupted", "b+6a", "b-10a", "a negated", "count beyond the target", "not started", "grid value with a corrupted", "transfer fails (earlier status in memory)", "transfer fails (status of a run further ahead in memory)", "a corrupted, writes of the restart fail", "a corrupted, enabling for the restart fails", "a corrupted, first job transfer fails", "a corrupted, last job transfer fails"};
struct Step { int r, s; };
struct Stop {};
struct Sim {
    vdf_client cl; ChiaDriver *drv; int idx; std::vector<Step> seq; size_t pos = 0;
    uint64_t t = 0, off = 0; bool enabled = true; int restarts = 0, restarts_prev = 0; std::string hist;
    uint64_t exp_last = 0, base_last = 0; int expect = 0;     // expectation for the reading just given: 0 none 1 must be recorded 2 must not be recorded
    int wfail = 0, wcount = 0; bool job_lost = false; uint8_t good_status[180] = {0};
    int nskip = 0, idle_loops = 0; int sv[2]; bool final_phase = false; int finals = 0;
    void bad(const std::string &k, const std::string &d) { viol(k, d + fmt(" [engine %d, %ld-bit discriminant, readings: %s]", idx, (long)mpz_sizeinbase(D.impl, 2), hist.c_str())); }
    vdf_state &v() { return cl.conns[idx].vdf; }
    void start() {
        cl.opts = {}; cl.opts.vdfs_mask = 1 << idx; cl.opts.n_vdfs = 3; cl.drv = drv; cl.opts.auto_freq = false;
        init_vdf_client(&cl);
        if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv)) abort();
        auto &c = cl.conns[idx]; c.sock = sv[0]; c.state = RUNNING; c.buf_pos = 0;
        uint8_t f[BQFC_FORM_SIZE]; init_form_bytes(f);
        init_vdf_state(&v(), nullptr, dstr().c_str(), f, (uint64_t)GRIDS * HW_VDF_VALUE_INTERVAL, idx);
        v().interval = INTERVAL; v().target_iters = TARGET;
        if (!feq(v().values[0][0], pw[0]) || !(v().valid_values[0] & 1)) bad("init", "initial form not recorded");
        cur_vdf = &v(); tasks.clear(); captured_proofs.clear(); capture = true; in_task = 0; naps = 0;
        off = 0; t = 0; base_last = 0;
        ftm::reset(); ftm::logging = false;
        ftm::on_read = [this](uint32_t a, uint32_t) -> int { return on_read(a); };
        ftm::on_write = [this](uint32_t a, const uint8_t *p, uint32_t n) { on_write(a, p, n); };
        ftm::fail_write = [this](uint32_t a, uint32_t n) -> int { return fail_write(a, n); };
    }
    void finish_() {
        while (!tasks.empty()) { v().stopping = true; run_task(0); }
        capture = false; ftm::on_read = nullptr; ftm::on_write = nullptr; ftm::fail_write = nullptr;
        for (auto *w : v().wq) { clear_vdf_value(&w->start_val); delete w; } v().wq.clear();
        clear_vdf_state(&v()); clear_vdf_client(&cl); close(sv[0]); close(sv[1]); cur_vdf = nullptr;
    }
    int fail_write(uint32_t a, uint32_t n) {
        uint32_t base = 0x100000 + 0x10000 * idx, st = base + 0x1184; bool job = a >= base + 0x1000 && a < base + 0x2000, f = false;
        if (wfail == R_WFALL) f = true;
        else if (wfail == R_WFENABLE) f = a == base;
        else if (wfail == R_WFJOB) f = job && !(a <= st && a + n > st);
        else if (wfail == R_WFSTART) f = job && a <= st && a + n > st;
        if (f) job_lost = true;
        return f ? FT4222_IO_ERROR : 0;
    }
    void on_write(uint32_t a, const uint8_t *p, uint32_t) {
        uint32_t base = 0x100000 + 0x10000 * idx;
        if (a == base) { bool on = p[3] & 1; if (!on) enabled = false; else enabled = true; }
        uint32_t st = base + 0x1184;
        if (a <= st && a + 256 > st && ftm::get32(st) == 1) {      // job started
            if (job_lost && wfail) { ftm::put32(st, 0); return; }           // incomplete: the engine does not start it
            job_lost = false;
            if (!enabled) bad("restart-disabled", "job written to a disabled engine");
            uint8_t ra[84], rf[84]; for (int i = 0; i < 84; i++) { ra[i] = ftm::get(base + 0x100c + i); rf[i] = ftm::get(base + 0x1060 + i); }
            integer ja, jb; unpack(ra, 34, ja.impl); unpack(rf, 34, jb.impl);
            uint64_t n = (uint64_t)ftm::get32(base + 0x1008) << 32 | ftm::get32(base + 0x1004);
            uint64_t o = v().iters_offset;
            if (o > TARGET || o % INTERVAL) bad("restart-offset", fmt("restart at offset %llu, not a grid value", (unsigned long long)o));
            else {
                if (mpz_cmp(ja.impl, pw[o].a.impl) || mpz_cmp(jb.impl, pw[o].b.impl)) bad("restart-form", fmt("restarted with a form that is not the value at offset %llu", (unsigned long long)o));
                if (n != TARGET - o) bad("restart-count", fmt("restarted for %llu iterations from offset %llu", (unsigned long long)n, (unsigned long long)o));
                if (o > v().cur_iters) bad("restart-ahead", "restart offset lies beyond the last recorded reading");
            }
            off = o; t = 0; restarts++;
            ftm::put32(st, 0);
        }
    }
    void check_record() {
        auto &s = v();
        for (int g = 0; g <= GRIDS; g++) if (s.valid_values[g / 8] & (1 << (g % 8))) {
            if (s.values.empty() || !feq(s.values[0][g], pw[(size_t)g * INTERVAL])) bad("grid-value", fmt("grid value %d is marked valid but is not the initial form raised to 2^%d", g, g * INTERVAL));
            C.states++;
        }
        for (int g = GRIDS + 1; g < (int)s.valid_values.size() * 8; g++) if (s.valid_values[g / 8] & (1 << (g % 8))) bad("grid-extra", fmt("grid value %d beyond the target marked valid", g));
        // the last good value is a form and belongs to its count
        if (s.last_val.iters <= TARGET) {
            integer a(s.last_val.a), b(s.last_val.b); form f = form::from_abd(a, b, D);
            if (!feq(f, pw[s.last_val.iters])) bad("last-value", fmt("last good value is not the value at %llu iterations", (unsigned long long)s.last_val.iters));
        } else bad("last-count", fmt("last good count %llu lies beyond the target", (unsigned long long)s.last_val.iters));
    }
    void sched(int s) {
        if (s == 1) while (!tasks.empty()) { run_task(0); }
        else if (s == 2 && !tasks.empty()) run_task(0);
        else if (s == 3 && !tasks.empty()) run_task(tasks.size() - 1);
    }
    void judge() {      // effect of the previous reading
        auto &s = v();
        if (expect == 1) { if (s.last_val.iters != exp_last || s.cur_iters != exp_last) bad("good-lost", fmt("a correct reading at %llu iterations was not recorded", (unsigned long long)exp_last)); if (restarts != restarts_prev) bad("good-restart", "restart requested after a correct reading"); nskip = 0; }
        else if (expect == 2) {
            if (s.last_val.iters != base_last) bad("bad-recorded", "a repeated or bad reading was recorded");
            if (restarts != restarts_prev) nskip = 0; else if (++nskip > 64) bad("no-restart", "no restart requested although the accelerator stopped delivering");
        }
        if (expect) outcome(expect == 1 ? "recorded" : restarts != restarts_prev ? "restart requested" : "skipped"); base_last = s.last_val.iters; restarts_prev = restarts; expect = 0;
        check_record();
    }
    // what the memory the client reads into may hold when a transfer fails
    void stale(uint8_t *st, int r) {
        if (r == R_FAIL) { memcpy(st, good_status, 180); return; }
        memset(st, 0, 180); uint64_t x = std::min<uint64_t>(off + t + 3, TARGET), cnt = t + 5; st[3] = 0xab;
        for (int i = 0; i < 4; i++) st[4 + i] = cnt >> (24 - 8 * i);
        pack(st + 12, pw[x].a.impl, 21, 34); pack(st + 96, pw[x].b.impl, 21, 34);
    }
    int give(int r) {
        wfail = 0;
        if (r == R_FAIL || r == R_FAILOTHER) { hist += (hist.empty() ? "" : "; ") + std::string(RN[r]); expect = 2; C.transitions++; return FT4222_IO_ERROR; }
        if (r >= R_WFALL && r <= R_WFSTART) wfail = r;
        uint8_t st[256] = {0}; uint64_t left = TARGET - off, cnt = t; mpz_t a, b; mpz_inits(a, b, NULL);
        auto w32 = [&](int o, uint32_t x) { st[o] = x >> 24; st[o + 1] = x >> 16; st[o + 2] = x >> 8; st[o + 3] = x; };
        auto adv = [&](uint64_t n) { t = std::min(left, n); cnt = t; };
        auto grid = [&](int k) { return ((off + t) / INTERVAL + k) * INTERVAL - off; };
        if (r == R_ADV1 || r == R_A0 || r == R_ABAD || r == R_BBAD || r == R_BPLUS || r == R_BMINUS || r == R_NEGA || wfail) adv(t + 1);
        if (r == R_GRID || r == R_GRIDBAD) adv(grid(1)); if (r == R_GRID3) adv(grid(1) + 3); if (r == R_FAR) adv(grid(3) + 5); if (r == R_TARGET) adv(left);
        mpz_set(a, pw[off + t].a.impl); mpz_set(b, pw[off + t].b.impl);
        if (r == R_A0) mpz_set_ui(a, 0); if (r == R_ABAD || r == R_GRIDBAD || wfail) mpz_combit(a, 1); if (r == R_BBAD) mpz_add_ui(b, b, 1);
        if (r == R_BPLUS) mpz_addmul_ui(b, a, 6); if (r == R_BMINUS) mpz_submul_ui(b, a, 10); if (r == R_NEGA) mpz_neg(a, a);
        if (r == R_BEYOND) cnt |= 1u << 20; if (r == R_ZERO) { cnt = 0; mpz_set_ui(a, 0); mpz_set_ui(b, 0); } if (r == R_IDLE) { cnt = 0; mpz_set(a, pw[off].a.impl); mpz_set(b, pw[off].b.impl); }
        w32(0, 0xab); w32(4, (uint32_t)cnt); w32(8, cnt >> 32); pack(st + 12, a, 21, 34); pack(st + 96, b, 21, 34);
        if (cnt == t && r <= R_REPEAT) memcpy(good_status, st, 180);
        ftm::put(0x300014, st, 180); ftm::put(CHIA_VDF_STATUS_JOB_ID_REG_OFFSET + 0x10000 * idx, st, 180);
        // is it a form of the discriminant with the count it claims?
        uint64_t it = off + cnt; bool ok = false;
        if (cnt && it != base_last && it <= TARGET && mpz_sgn(a) > 0) { integer q; mpz_mul(q.impl, b, b); mpz_sub(q.impl, q.impl, D.impl); integer fa(a); mpz_mul_2exp(fa.impl, fa.impl, 2); ok = mpz_divisible_p(q.impl, fa.impl); }
        if (ok) { integer ia(a), ib(b); form f = form::from_abd(ia, ib, D); if (!feq(f, pw[it])) { expect = 3; mpz_clears(a, b, NULL); throw Stop(); } }   // an undetectable corruption: outside the property
        if (job_lost) ok = false;                   // the engine runs another job than the client's
        expect = ok ? 1 : 2; if (ok) exp_last = it;
        hist += (hist.empty() ? "" : "; ") + std::string(RN[r]) + fmt("@%llu", (unsigned long long)it);
        mpz_clears(a, b, NULL); C.transitions++; return 0;
    }
    int on_read(uint32_t a) {
        if (a != (idx ? (uint32_t)CHIA_VDF_STATUS_JOB_ID_REG_OFFSET + 0x10000 * idx : 0x300000u)) return 0;
        judge();
        if (pos < seq.size()) { Step s = seq[pos++]; sched(s.s); hist += s.s == 1 ? "|all" : s.s == 2 ? "|old" : s.s == 3 ? "|new" : ""; check_record(); return give(s.r); }
        // recovery: a healthy accelerator must bring the computation to the target
        sched(1); check_record();
        if (finals++ > 100) { bad("no-recovery", "the computation did not reach the target after the accelerator recovered"); throw Stop(); }
        return give(off + t >= TARGET ? R_REPEAT : R_GRID3);
    }
    void run() {
        start();
        try {
            for (int guard = 0; guard < 2; guard++) { event_loop(&cl); break; }
        } catch (Stop &) {} catch (Hang &) { bad("hang", "the client waits forever"); } catch (std::exception &e) { bad("exception", e.what()); }
        finish_();
    }
};
static Sim *cur_sim = nullptr;
// The client's status buffer holds whatever was in memory when a transfer fails (unless the client cleared it): let that be
// the content an earlier call left, or could have left, there.
extern "C" int __real__ZN10FtdiDriver4ReadEjPhm(void *, uint32_t, uint8_t *, size_t) __attribute__((weak));
extern "C" int __wrap__ZN10FtdiDriver4ReadEjPhm(void *d, uint32_t a, uint8_t *b, size_t n) {
    if (capture && cur_sim && n >= 180 && cur_sim->pos < cur_sim->seq.size()) {
        int r = cur_sim->seq[cur_sim->pos].r; uint8_t st[180]; bool cleared = true;
        for (int i = 0; i < 180; i++) cleared = cleared && !b[n - 180 + i];
        if ((r == R_FAIL || r == R_FAILOTHER) && !cleared) { cur_sim->stale(st, r); memcpy(b + n - 180, st, 180); }
    }
    return __real__ZN10FtdiDriver4ReadEjPhm(d, a, b, n);
}
extern "C" int usleep_hook() {
    if (!capture) return 0;
    if (in_task) { if (++naps > 3000) throw Hang(); return 0; }
    if (cur_sim && cur_sim->v().completed) {
        // every reading was processed; engine idle: drain the rest of the work and check completeness
        Sim &S = *cur_sim; vdf_state &s = S.v();
        if (S.cl.conns[S.idx].state != IDLING) S.bad("not-idle", "client not idle after completion");
        S.sched(1); if (S.idle_loops++ < 40) return 0;       // the event loop keeps running; the work still queued must get done
        S.expect = 0; S.check_record();
        for (int g = 0; g <= GRIDS; g++) if (!(s.valid_values[g / 8] & (1 << (g % 8)))) S.bad("incomplete", fmt("grid value %d never recorded although the target was reached", g));
        throw Stop();
    }
    return 0;
}
static void run_seq(int idx, const std::vector<Step> &q, ChiaDriver *drv) {
    Sim s; s.idx = idx; s.seq = q; s.drv = drv; cur_sim = &s; s.run(); cur_sim = nullptr; C.traces++;
}
static void mode_read() {
    auto *drv = new ChiaDriver(); drv->freq_idx = 0; if (drv->ftdi.Open()) abort();
    struct Cfg { int bits, k0, idx; } cfgs[] = {{40, 0, 0}, {67, 3, 1}};
    for (auto &cf : cfgs) {
        prep(cf.bits, cf.k0, TARGET + 8);
        auto explore = [&](int depth, std::initializer_list<int> al, int ns) {
            std::vector<int> A(al); uint64_t per = A.size() * ns, n = 1; for (int i = 0; i < depth; i++) n *= per;
            for (uint64_t x = 0; x < n; x++) {
                if (!next()) continue;
                std::vector<Step> q; uint64_t y = x; for (int i = 0; i < depth; i++) { q.push_back({A[y % per / ns], (int)(y % per % ns)}); y /= per; }
                run_seq(cf.idx, q, drv); C.nontrivial++;
            }
        };
        std::initializer_list<int> all = {R_ADV1, R_GRID, R_GRID3, R_FAR, R_TARGET, R_REPEAT, R_ZERO, R_A0, R_ABAD, R_BBAD, R_BPLUS, R_BMINUS, R_NEGA, R_BEYOND, R_IDLE, R_GRIDBAD, R_FAIL, R_WFALL};
        std::initializer_list<int> few = {R_GRID, R_GRID3, R_FAR, R_REPEAT, R_ABAD, R_BMINUS};
        if (C.thorough()) { explore(3, all, 4); explore(4, all, 2); explore(5, few, 3); explore(6, few, 2); }
        else if (&cf == cfgs) { explore(3, all, 3); explore(4, few, 3); } else { explore(2, all, 4); explore(4, few, 2); }
        // the transport fails: reads, and writes of a restart, between good and corrupted readings
        auto tr = [&](int depth) {
            std::vector<int> A{R_GRID, R_FAR, R_ABAD, R_FAIL, R_FAILOTHER, R_WFALL, R_WFENABLE, R_WFJOB, R_WFSTART, R_REPEAT}; uint64_t n = 1; for (int i = 0; i < depth; i++) n *= A.size();
            for (uint64_t x = 0; x < n; x++) { if (!next()) continue; std::vector<Step> q; uint64_t y = x; for (int i = 0; i < depth; i++) { q.push_back({A[y % A.size()], i & 1}); y /= A.size(); } run_seq(cf.idx, q, drv); C.nontrivial++; }
        };
        tr(C.thorough() ? 5 : 4);
        // work piles up faster than the workers take it, then the accelerator reaches the target
        for (int n = 1; n <= 11; n++) for (int r : std::initializer_list<int>{R_GRID, R_GRID3, R_FAR}) for (int m = 0; m < (1 << std::min(n, 6)); m++) if (next()) { std::vector<Step> q; for (int i = 0; i < n; i++) q.push_back({r, m >> (i % 6) & 1 ? 2 : 0}); q.push_back({R_TARGET, 0}); run_seq(cf.idx, q, drv); C.nontrivial++; }
        // the accelerator dies: the same useless reading for ever, after every single first reading
        for (int f = 0; f < NREAD; f++) for (int r : std::initializer_list<int>{R_REPEAT, R_ZERO, R_IDLE, R_ABAD, R_NEGA, R_BEYOND, R_FAIL, R_FAILOTHER}) for (int n : std::initializer_list<int>{9, 10, 11, 12, 23, 70}) if (next()) { std::vector<Step> q{{f, 1}}; for (int i = 0; i < n; i++) q.push_back({r, i & 1}); run_seq(cf.idx, q, drv); C.nontrivial++; }
    }
    sample("readings: past the next grid value; a corrupted; skip three grid values with work pending; then a healthy accelerator up to the target");
}
// every (a,b) near the origin for a tiny discriminant: exactly the forms are accepted
static void mode_forms() {
    prep(C.thorough() ? 13 : 12, 0, 64);
    vdf_state *v = nullptr; uint8_t f[BQFC_FORM_SIZE]; init_form_bytes(f);
    long dv = mpz_get_si(D.impl), lim = C.thorough() ? 700 : 300;
    capture = true;
    for (long a = -lim; a <= lim; a++) for (int k = 0; k < 2; k++) {
        if (!next()) continue;
        auto *s = new vdf_state(); init_vdf_state(s, nullptr, dstr().c_str(), f, 40 * HW_VDF_VALUE_INTERVAL, 0); s->interval = 8; s->target_iters = 320; cur_vdf = s;
        vdf_value val; init_vdf_value(&val);
        for (long b = -3 * lim; b <= 3 * lim; b++) {
            mpz_set_si(val.a, a); mpz_set_si(val.b, b); uint64_t it = k ? 16 : 13; val.iters = it; s->last_val.iters = 9; s->cur_iters = 9; memset(s->valid_values.data() + 0, 0, s->valid_values.size()); s->valid_values[0] = 1;
            int r = hw_proof_add_value(s, &val);
            for (auto *w : s->wq) { clear_vdf_value(&w->start_val); delete w; } s->wq.clear(); tasks.clear(); s->aux_threads_busy = 0;
            bool form_ok = a > 0 && (b * b - dv) % (4 * a) == 0;
            if ((r == 0) != form_ok) viol(form_ok ? "form-refused" : "nonform-accepted", fmt("discriminant %ld: reading a=%ld b=%ld %s", dv, a, b, r == 0 ? "accepted although it is not a form" : "refused although it is a form"));
            if (!form_ok && (s->last_val.iters != 9 || s->cur_iters != 9)) viol("nonform-recorded", fmt("discriminant %ld: a=%ld b=%ld refused but recorded", dv, a, b));
            if (form_ok && k && r == 0) { integer ia(a), ib(b); form g = form::from_abd(ia, ib, D); if (!(s->valid_values[0] & 4) || !feq(s->values[0][2], g)) viol("grid-form", fmt("a=%ld b=%ld: recorded another form", a, b)); }
            C.states++; C.transitions++; outcome(form_ok ? "form" : "not a form");
        }
        clear_vdf_value(&val); s->proofs.clear(); clear_vdf_state(s); delete s; C.nontrivial++; C.traces++;
    }
    capture = false;
    sample(fmt("all readings with |a| <= %ld, |b| <= %ld for discriminant %ld", lim, 3 * lim, dv));
}
#include "h_hwsched.h"
extern "C" int nanosleep(const struct timespec *, struct timespec *) { usleep_hook(); return 0; }
int main(int argc, char **argv) {
    init(argc, argv);
    if (!getenv("VH_STDERR")) { freopen("/dev/null", "w", stderr); }
    if (C.mode == "read") mode_read(); else if (C.mode == "forms") mode_forms(); else if (C.mode == "plan") mode_plan(); else if (C.mode == "long") mode_long(); else if (C.mode == "e2e") mode_e2e(); else return 3;
    return finish();
}
