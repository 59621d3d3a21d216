// C23 / C24: the accelerator driver's register encoding and PLL programming, on the real driver classes (VdfDriver,
// ChiaDriver, FtdiDriver, hw_interface) down to single SPI transfers, which a register model decodes.
#include "vh.h"
#include <gmp.h>
#include <cmath>
#include "hw/emu_runner.cpp"
#include "hw/hw_interface.hpp"
#include "hw/pll_freqs.hpp"
#include "ft_model.h"
using namespace vh;
int chia_vdf_is_emu = 1;
extern "C" int nanosleep(const struct timespec *, struct timespec *) { return 0; }

// ---- reference register definition: big-endian 32-bit words, least significant first; coefficients of 19 bits
// (two's complement) of weight 2^(16 i)
struct Z { mpz_t z; Z() { mpz_init(z); } Z(long v) { mpz_init_set_si(z, v); } Z(const Z &o) { mpz_init_set(z, o.z); } ~Z() { mpz_clear(z); } Z &operator=(const Z &o) { mpz_set(z, o.z); return *this; } };
static void ref_decode(const uint8_t *buf, size_t bytes, size_t ncoef, mpz_t out) {
    mpz_t t; mpz_init(t); mpz_set_ui(out, 0);
    for (int i = (int)ncoef - 1; i >= 0; i--) {
        long v = 0;
        for (int b = 18; b >= 0; b--) {
            size_t bit = (size_t)i * 19 + b, w = bit / 32, o = bit % 32;
            int x = w * 4 + 3 < bytes ? (buf[w * 4 + 3 - o / 8] >> (o % 8)) & 1 : 0;
            v = b == 18 ? -x : v * 2 + x;
        }
        mpz_mul_2exp(out, out, 16);
        if (v >= 0) mpz_add_ui(out, out, v); else mpz_sub_ui(out, out, -v);
    }
    mpz_clear(t);
}
static std::string H(const mpz_t z) { char *s = mpz_get_str(0, 16, z); std::string r = s; free(s); return r; }
static ChiaDriver *newdrv() { auto *d = new ChiaDriver(); if (d->ftdi.Open()) abort(); return d; }
static const struct { const char *n; size_t regs, coef; } FIELDS[] = {{"A/F", CHIA_VDF_CMD_A_MULTIREG_COUNT, ChiaDriver::NUM_2X_COEFFS}, {"D", CHIA_VDF_CMD_D_MULTIREG_COUNT, ChiaDriver::NUM_4X_COEFFS}, {"L", CHIA_VDF_CMD_L_MULTIREG_COUNT, ChiaDriver::NUM_1X_COEFFS}};

static void enc_one(ChiaDriver *d, int f, mpz_t v) {
    size_t n = FIELDS[f].regs * 4; uint8_t buf[8 + 41 * 4 + 8];
    static Z back, keep; memset(buf, 0xA5, sizeof buf);
    mpz_set(keep.z, v);
    size_t r = d->write_bytes(n, 8, buf, v, FIELDS[f].coef);
    C.transitions++;
    auto bad = [&](const char *w) { viol(fmt("enc-%s-%s", FIELDS[f].n, w), fmt("%s: %s field, value %s", w, FIELDS[f].n, H(keep.z).c_str())); };
    if (r != n) bad("wrong size returned");
    if (mpz_cmp(keep.z, v)) bad("caller's value modified");
    for (int i = 0; i < 8; i++) if (buf[i] != 0xA5 || buf[8 + n + i] != 0xA5) { bad("bytes outside the field written"); break; }
    ref_decode(buf + 8, n, FIELDS[f].coef, back.z);
    if (mpz_cmp(back.z, v)) bad("registers do not hold the value");
    d->read_bytes(n, 8, buf, back.z, FIELDS[f].coef);
    if (mpz_cmp(back.z, v)) bad("driver reads back another value");
    C.states++;
}
static void mode_enc() {
    auto *d = newdrv();
    for (int f = 0; f < 3; f++) {
        size_t nc = FIELDS[f].coef;
        for (size_t pos = 0; pos < nc; pos++) for (int fill = 0; fill < 3; fill++) for (int sg = 0; sg < 2; sg++) {
            if (!next()) continue;
            bool top = pos + 1 == nc; unsigned lim = top ? 1u << 18 : 65536, step = f == 0 || C.thorough() ? (top ? 1 : 1) : 61;
            Z base, v;
            for (size_t i = nc - 1; i-- > 0;) { mpz_mul_2exp(base.z, base.z, 16); if (i != pos && fill) mpz_add_ui(base.z, base.z, fill == 1 ? 0xffff : 0x5a01); }
            // the top coefficient (index nc-1) of the filler stays 0 so that the magnitude stays representable
            for (unsigned c = 0; c < lim; c += (step == 1 || (c & 255) < 2 || (c & 255) > 253 ? 1 : step)) {
                mpz_set_ui(v.z, c); mpz_mul_2exp(v.z, v.z, 16 * pos); mpz_add(v.z, v.z, base.z);
                if (sg) mpz_neg(v.z, v.z);
                enc_one(d, f, v.z);
            }
            C.traces++; C.nontrivial++;
        }
        for (size_t k = 0; k < 16 * (nc - 1) + 18; k++) if (next()) {
            Z v; for (long e = -2; e <= 2; e++) for (int sg = 0; sg < 2; sg++) {
                mpz_set_ui(v.z, 1); mpz_mul_2exp(v.z, v.z, k); if (e >= 0) mpz_add_ui(v.z, v.z, e); else mpz_sub_ui(v.z, v.z, -e);
                if (sg) mpz_neg(v.z, v.z);
                enc_one(d, f, v.z);
            }
            C.traces++; C.nontrivial++;
        }
    }
    for (int k = 0; k < 64; k++) if (next()) for (int e = -2; e <= 2; e++) {     // plain 32- and 64-bit registers
        uint64_t v = (1ull << k) + e, b = 0; uint8_t buf[24]; memset(buf, 0xA5, 24);
        size_t r = d->write_bytes(8, 8, buf, v);
        uint64_t w = 0; for (int i = 0; i < 4; i++) w = w << 8 | buf[12 + i]; for (int i = 0; i < 4; i++) w = w << 8 | buf[8 + i];
        d->read_bytes(8, 8, buf, b);
        if (r != 8 || w != v || b != v || buf[7] != 0xA5 || buf[16] != 0xA5) viol("u64", fmt("64-bit register %llx written as %llx, read as %llx", v, w, b));
        uint32_t v32 = (uint32_t)v, b32 = 0; memset(buf, 0xA5, 24);
        r = d->write_bytes(4, 8, buf, v32);
        uint32_t w32 = (uint32_t)buf[8] << 24 | buf[9] << 16 | buf[10] << 8 | buf[11]; d->read_bytes(4, 8, buf, b32);
        if (r != 4 || w32 != v32 || b32 != v32 || buf[7] != 0xA5 || buf[12] != 0xA5) viol("u32", fmt("32-bit register %x written as %x, read as %x", v32, w32, b32));
        C.transitions += 2; C.states += 2;
    }
    sample("every value of each of 34/68/18 coefficients, three fillers, both signs, encoded and decoded by the driver and by the reference");
}
static void mode_dec() {
    auto *d = newdrv(); size_t nc = ChiaDriver::NUM_2X_COEFFS, n = 21 * 4;
    const unsigned fills[6] = {0, 0x3ffff, 0x40000, 0x7ffff, 0x0ffff, 0x10000};
    for (size_t pos = 0; pos < nc; pos++) for (int fl = 0; fl < (C.thorough() ? 6 : 3); fl++) for (unsigned blk = 0; blk < 8; blk++) {
        if (!next()) continue;
        uint8_t buf[84]; Z ref, got, base, t;
        auto pack = [&](unsigned c) {
            uint32_t w[21] = {0};
            for (size_t i = 0; i < nc; i++) { uint64_t x = i == pos ? c : fills[fl]; size_t b = i * 19; uint64_t s = x << (b % 32); w[b / 32] |= (uint32_t)s; if (b / 32 + 1 < 21) w[b / 32 + 1] |= (uint32_t)(s >> 32); }
            for (int i = 0; i < 21; i++) { buf[i * 4] = w[i] >> 24; buf[i * 4 + 1] = w[i] >> 16; buf[i * 4 + 2] = w[i] >> 8; buf[i * 4 + 3] = w[i]; }
        };
        pack(0); ref_decode(buf, n, nc, base.z);
        for (unsigned c = blk << 16; c < (blk + 1) << 16; c++) {
            pack(c);
            long s = c & 0x40000 ? (long)c - 0x80000 : (long)c;
            mpz_set_si(t.z, s); mpz_mul_2exp(t.z, t.z, 16 * pos); mpz_add(ref.z, base.z, t.z);
            d->read_bytes(n, 0, buf, got.z, nc);
            if (mpz_cmp(ref.z, got.z)) { viol("dec", fmt("coefficient %zu = 0x%x (others 0x%x) decoded as %s, registers hold %s", pos, c, fills[fl], H(got.z).c_str(), H(ref.z).c_str())); break; }
            C.transitions++; C.states++;
        }
        C.traces++; C.nontrivial++;
    }
    sample("every 19-bit pattern of each of the 34 coefficients with all-zero, all-positive, all-negative neighbours");
}
// representative operands: discriminants/forms of all sizes
static std::vector<Z> magn(size_t maxbits) {
    std::vector<Z> r; r.push_back(Z(0)); r.push_back(Z(1)); r.push_back(Z(2));
    for (size_t b = 7; b <= maxbits; b += b < 40 ? 1 : 15) { Z v(1); mpz_mul_2exp(v.z, v.z, b); r.push_back(v); Z u = v; mpz_sub_ui(u.z, u.z, 1); r.push_back(u); Z x(1); for (size_t i = 0; i < b; i += 3) mpz_setbit(x.z, i); r.push_back(x); }
    return r;
}
static void mode_job() {
    auto *d = newdrv(); auto M = magn(512); auto D = magn(1024);
    static const uint64_t IT[] = {0, 1, 4000, 0xffffffffull, 0x100000000ull, 0x0123456789abcdefull, 2000000000ull, ~0ull};
    for (int idx = 0; idx < 3; idx++) for (size_t i = 0; i < D.size(); i++) for (size_t j = 0; j < M.size(); j += C.thorough() ? 1 : 3) {
        if (!next()) continue;
        Z dd = D[i], a = M[j], b = M[(j * 7 + i) % M.size()]; mpz_neg(dd.z, dd.z); if ((i + j) & 1) mpz_neg(b.z, b.z); if ((i + j) & 2) mpz_neg(a.z, a.z);
        uint64_t it = IT[(i + j) % 8];
        Z d0 = dd, a0 = a, b0 = b;
        ftm::reset();
        // stale contents of the whole register space
        uint32_t base = CHIA_VDF_CONTROL_REG_OFFSET + 0x10000 * idx; for (uint32_t x = 0; x < 0x300; x++) ftm::mem[base + 0x1000 + x] = 0x5b;
        bool started_early = false, ctl_ok = false; bool started = false; uint32_t fields_after_start = 0;
        ftm::on_write = [&](uint32_t ad, const uint8_t *p, uint32_t n) {
            if (ad == base && n == 4) { ctl_ok = (p[3] & 1) && !(p[3] & 0x10); return; }
            if (ad < base + 0x1000 || ad + n > base + 0x1200) viol("job-window", fmt("engine %d: write of %u bytes at 0x%x outside its job registers", idx, n, ad));
            if (ad <= base + 0x1184 && ad + n > base + 0x1184) { started = true; if (!ctl_ok) started_early = true; }
            else if (started) fields_after_start++;
        };
        int r = start_hw_vdf(d, dd.z, a.z, b.z, it, idx);
        C.transitions++;
        auto bad = [&](const char *w) { viol(fmt("job-%s", w), fmt("%s: engine %d d=%s a=%s b=%s iters=%llu", w, idx, H(d0.z).c_str(), H(a0.z).c_str(), H(b0.z).c_str(), (unsigned long long)it)); };
        if (r || !ftm::bad.empty()) bad(ftm::bad.empty() ? "start failed" : ftm::bad.c_str());
        if (!started || started_early || fields_after_start) bad("start flag missing, before the engine is enabled, or before the operands");
        if (mpz_cmp(d0.z, dd.z) || mpz_cmp(a0.z, a.z) || mpz_cmp(b0.z, b.z)) bad("operands modified");
        auto field = [&](uint32_t off, size_t regs, size_t nc, mpz_t want, const char *nm) {
            std::vector<uint8_t> v(regs * 4); for (size_t k = 0; k < v.size(); k++) v[k] = ftm::get(base + off - CHIA_VDF_CONTROL_REG_OFFSET + k);
            Z g; ref_decode(v.data(), v.size(), nc, g.z); if (mpz_cmp(g.z, want)) bad(nm);
        };
        Z L; mpz_neg(L.z, dd.z); mpz_root(L.z, L.z, 4);
        field(CHIA_VDF_CMD_A_0_REG_OFFSET, 21, 34, a.z, "a register");
        field(CHIA_VDF_CMD_F_0_REG_OFFSET, 21, 34, b.z, "b register");
        field(CHIA_VDF_CMD_D_0_REG_OFFSET, 41, 68, dd.z, "discriminant register");
        field(CHIA_VDF_CMD_L_0_REG_OFFSET, 11, 18, L.z, "root register");
        uint32_t o = base - CHIA_VDF_CONTROL_REG_OFFSET;
        if (((uint64_t)ftm::get32(o + CHIA_VDF_CMD_ITER_COUNT_1_REG_OFFSET) << 32 | ftm::get32(o + CHIA_VDF_CMD_ITER_COUNT_0_REG_OFFSET)) != it) bad("iteration count register");
        if (ftm::get32(o + CHIA_VDF_CMD_START_REG_OFFSET) != 1) bad("start register");
        C.states++; C.nontrivial++; C.traces++;
    }
    // the emulated accelerator decodes the same job (reduced forms: powers of the generator)
    for (int bits = 24; bits <= 1024; bits += C.thorough() ? 1 : 10) for (int k = 0; k < 4; k++) {
        if (!next()) continue;
        Z dd(1); mpz_mul_2exp(dd.z, dd.z, bits - 1); for (int i = 3; i < bits - 1; i += 2 + k) mpz_setbit(dd.z, i); mpz_setbit(dd.z, 0); mpz_setbit(dd.z, 1); mpz_setbit(dd.z, 2); mpz_neg(dd.z, dd.z);
        integer D; mpz_set(D.impl, dd.z); integer L; mpz_neg(L.impl, D.impl); mpz_root(L.impl, L.impl, 4);
        form f = form::generator(D); PulmarkReducer red; for (int i = 0; i < k * (bits < 200 ? 5 : bits / 8); i++) { form g; nudupl_form(g, f, D, L); red.reduce(g); f = g; }
        if (k & 1) { mpz_neg(f.b.impl, f.b.impl); f = form::from_abd(f.a, f.b, D); }
        int idx = k % 3; uint64_t it = IT[(bits + k) % 8]; ftm::reset();
        Z a, b; mpz_set(a.z, f.a.impl); mpz_set(b.z, f.b.impl);
        start_hw_vdf(d, dd.z, a.z, b.z, it, idx);
        job_reg_set jr; std::vector<uint8_t> v(sizeof jr); for (size_t x = 0; x < v.size(); x++) v[x] = ftm::get(CHIA_VDF_CMD_JOB_ID_REG_OFFSET + 0x10000 * idx + x); memcpy(&jr, v.data(), sizeof jr);
        job_state st; init_state(&st, &jr);
        if (st.target_iter != it || mpz_cmp(st.d.impl, dd.z) || mpz_cmp(st.l.impl, L.impl) || mpz_cmp(st.qf.a.impl, f.a.impl) || mpz_cmp(st.qf.b.impl, f.b.impl)) viol("job-emu", fmt("emulator decodes another job: engine %d, %d-bit discriminant, a=%s b=%s", idx, bits, H(a.z).c_str(), H(b.z).c_str()));
        delete st.drv; C.states++; C.transitions++; C.traces++; C.nontrivial++;
    }
    sample("start_hw_vdf for every engine, every discriminant and form size class, boundary iteration counts, stale registers");
}
static void mode_status() {
    auto *d = newdrv(); auto M = magn(512); d->freq_idx = 0;
    static const uint64_t IT[] = {0, 1, 4000, 0xffffffffull, 0x100000000ull, 0x0123456789abcdefull, 2000000000ull, ~0ull};
    for (int mask = 0; mask < 16; mask++) for (size_t j = 0; j < M.size(); j++) for (int how = 0; how < 2; how++) {
        if (!next()) continue;
        ftm::reset(); Z a[3], b[3]; uint64_t it[3];
        vdf_value val[3], sent[3]; for (int i = 0; i < 3; i++) { init_vdf_value(&val[i]); mpz_set_si(val[i].a, -77 - i); mpz_set_si(val[i].b, -99 - i); val[i].iters = 1234 + i; }
        for (int i = 0; i < 3; i++) {
            a[i] = M[(j + 5 * i) % M.size()]; b[i] = M[(3 * j + 11 * i + 1) % M.size()]; it[i] = IT[(j + 3 * i + mask) % 8]; if ((i + j) & 1) mpz_neg(b[i].z, b[i].z);
            uint8_t st[0xb4]; memset(st, 0, sizeof st);
            if (how == 0) {      // as the emulated accelerator reports
                job_state s; s.stopping = false; s.drv = d; s.cur_iter = it[i]; mpz_set(s.qf.a.impl, a[i].z); mpz_set(s.qf.b.impl, b[i].z);
                job_status js; memset(&js, 0, sizeof js); update_status(&js, &s); memcpy(st, &js, sizeof js);
                if (sizeof js != sizeof st) viol("status-size", "emulator's status block has another size than the driver reads");
            } else {             // redundant representation: borrow from every coefficient's neighbour
                auto put = [&](uint8_t *p, mpz_t v) {
                    uint32_t w[21] = {0}; long c[35] = {0}; Z t; mpz_abs(t.z, v); int sg = mpz_sgn(v);
                    for (int k = 0; k < 34; k++) { c[k] += sg * (long)(mpz_get_ui(t.z) & 0xffff); mpz_tdiv_q_2exp(t.z, t.z, 16); }
                    for (int k = 0; k < 33; k++) { if ((k + j) % 3 == 0) { c[k] -= 65536; c[k + 1] += 1; } else if ((k + j) % 3 == 1) { c[k] += 2 * 65536; c[k + 1] -= 2; } }
                    for (int k = 0; k < 34; k++) { uint64_t x = (uint64_t)(c[k] & 0x7ffff); size_t bb = k * 19; uint64_t s = x << (bb % 32); w[bb / 32] |= (uint32_t)s; if (bb / 32 + 1 < 21) w[bb / 32 + 1] |= (uint32_t)(s >> 32); }
                    for (int k = 0; k < 21; k++) { p[k * 4] = w[k] >> 24; p[k * 4 + 1] = w[k] >> 16; p[k * 4 + 2] = w[k] >> 8; p[k * 4 + 3] = w[k]; }
                };
                auto w32 = [&](uint8_t *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; };
                w32(st, 0xab); w32(st + 4, (uint32_t)it[i]); w32(st + 8, it[i] >> 32); put(st + 12, a[i].z); put(st + 96, b[i].z);
            }
            ftm::put(CHIA_VDF_STATUS_JOB_ID_REG_OFFSET + 0x10000 * i, st, sizeof st);
            ftm::put(HW_VDF_BURST_START + 0xb4 * i, st, sizeof st);
        }
        ftm::put32(0x300000, 800);
        int r = read_hw_status(d, mask, val);
        C.transitions++;
        for (int i = 0; i < 3; i++) {
            bool sel = mask >> i & 1;
            bool ok = sel ? val[i].iters == it[i] && !mpz_cmp(val[i].a, a[i].z) && !mpz_cmp(val[i].b, b[i].z) : val[i].iters == 1234u + i && !mpz_cmp_si(val[i].a, -77 - i) && !mpz_cmp_si(val[i].b, -99 - i);
            if (!ok) viol(fmt("status-%s", sel ? "value" : "unselected"), fmt("mask %d engine %d: reported iters=%llu a=%s b=%s, decoded iters=%llu a=%s b=%s", mask, i, (unsigned long long)it[i], H(a[i].z).c_str(), H(b[i].z).c_str(), (unsigned long long)val[i].iters, H(val[i].a).c_str(), H(val[i].b).c_str()));
            C.states++;
        }
        if (r || !ftm::bad.empty()) viol("status-transfer", fmt("mask %d: %s", mask, ftm::bad.c_str()));
        for (auto &l : ftm::log) if (l.wr) viol("status-writes", "reading the status wrote a register");
        for (int i = 0; i < 3; i++) clear_vdf_value(&val[i]);
        C.nontrivial++; C.traces++;
    }
    // transfers of every size arrive complete and in order
    for (size_t n = 1; n <= 1100; n++) if (next()) {
        ftm::reset(); std::vector<uint8_t> w(n), r(n + 8, 0xA5); for (size_t i = 0; i < n; i++) w[i] = (uint8_t)(i * 131 + 7 * n);
        int e = d->ftdi.Write(0x101000, w.data(), n);
        for (size_t i = 0; i < n; i++) if (ftm::get(0x101000 + i) != w[i]) { viol("xfer-write", fmt("byte %zu of a %zu-byte write lost", i, n)); break; }
        if (e || !ftm::bad.empty()) viol("xfer-write", fmt("%zu-byte write: %s", n, ftm::bad.c_str()));
        for (size_t i = 0; i < n; i++) ftm::mem[0x202000 + i] = w[i];
        e = d->ftdi.Read(0x202000, r.data(), n);
        if (e || memcmp(r.data(), w.data(), n) || r[n] != 0xA5) viol("xfer-read", fmt("%zu-byte read differs", n));
        C.transitions += 2; C.states += 2; C.traces++;
    }
    sample("read_hw_status for every engine mask with canonical and redundant register contents; transfers of 1..1100 bytes");
}

// ---- C24
static double ref_freq_of(const pll_settings &s) { return 400.0 * (s.divfi + 1) / (2.0 * (s.divr + 1) * (s.divq + 1)); }
struct PllRun { bool ret; std::vector<std::pair<uint32_t, uint32_t>> writes; };
static PllRun pll(ChiaDriver *d, double f, uint32_t ent, int ack, int lock, int fail_at) {
    // ack/lock: status polls after which the bit appears (-1 never); fail_at: index of the poll that fails (-1 none)
    ftm::reset(); int polls = 0, since_ack = 0, since_lock = 0; bool newdiv = false, cleared = false;
    ftm::on_write = [&](uint32_t a, const uint8_t *p, uint32_t) { if (a == CLOCK_CONTROL_REG_OFFSET) { uint32_t v = p[3]; if (v & 4) { newdiv = true; since_ack = 0; } if (v == 0) { cleared = true; since_lock = 0; } } };
    ftm::on_read = [&](uint32_t a, uint32_t) -> int {
        if (a != CLOCK_STATUS_REG_OFFSET) return 0;
        if (polls++ == fail_at) return 4;
        uint32_t v = 0;
        if (newdiv && ack >= 0 && since_ack++ >= ack) v |= 1u << CLOCK_STATUS_DIVACK_BIT;
        if (cleared && lock >= 0 && since_lock++ >= lock) v |= 1u << CLOCK_STATUS_LOCK_BIT;
        ftm::put32(CLOCK_STATUS_REG_OFFSET, v); return 0;
    };
    PllRun r; r.ret = d->SetPLLFrequency(f, ent);
    for (auto &l : ftm::log) if (l.wr) r.writes.push_back({l.addr, (uint32_t)l.data[0] << 24 | l.data[1] << 16 | l.data[2] << 8 | l.data[3]});
    C.transitions++; C.states++;
    return r;
}
static const double RNG[9] = {5.0, 7.5, 11.0, 18.0, 30.0, 50.0, 80.0, 130.0, 200.0};
static void expect_entry(ChiaDriver *d, const PllRun &r, int want, const std::string &w) {
    auto bad = [&](const std::string &x) { viol("pll-" + x.substr(0, 24), w + ": " + x); };
    if (!r.ret) { bad("refused"); return; }
    if ((int)d->freq_idx != want) { bad(fmt("entry %u chosen, smallest suitable is %d (%.6f vs %.6f MHz)", d->freq_idx, want, pll_entries[d->freq_idx < VALID_PLL_FREQS ? d->freq_idx : 0].freq, pll_entries[want].freq)); }
    auto &s = pll_entries[want].settings;
    uint32_t m[8]; for (int i = 0; i < 8; i++) m[i] = ftm::get32(4 * i);
    if (m[1] != s.divr || m[2] != s.divfi || m[4] != s.divq) bad(fmt("programmed dividers %u/%u/%u instead of %u/%u/%u", m[1], m[2], m[4], s.divr, s.divfi, s.divq));
    double ref = 100.0 / (s.divr + 1);
    if (m[5] > 7 || !(ref >= RNG[m[5]] && ref < RNG[m[5] + 1])) bad(fmt("filter range %u does not contain the reference frequency %.4f MHz", m[5], ref));
    if (m[0] != 0) bad("left in reset, bypass or new-divider state");
    // protocol: reset before any divider change, new-divider strobe after all, release last
    int i_reset = -1, i_nd = -1, i_last = -1, first_div = -1, last_div = -1;
    for (int i = 0; i < (int)r.writes.size(); i++) {
        auto [a, v] = r.writes[i];
        if (a == 0) { if (v == 1 && i_reset < 0) i_reset = i; if (v == 4) i_nd = i; i_last = i; }
        else if (a <= 0x14) { if (first_div < 0) first_div = i; last_div = i; }
        else bad("unexpected register written");
    }
    if (i_reset < 0 || i_reset > first_div || i_nd < last_div || i_last < i_nd) bad("dividers changed outside reset or not latched");
    double g = d->GetPLLFrequency();
    if (std::fabs(g - ref_freq_of(s)) > 1e-9 * g) bad(fmt("GetPLLFrequency reports %.9f, registers produce %.9f", g, ref_freq_of(s)));
}
static void mode_pll() {
    auto *d = newdrv();
    if (next()) for (int i = 0; i < VALID_PLL_FREQS; i++) {
        auto &e = pll_entries[i]; double f = ref_freq_of(e.settings);
        if (!(std::fabs(f - e.freq) <= 1e-9 * f)) viol("table-freq", fmt("entry %d: %.12f MHz but its dividers (%u,%u,%u) give %.12f", i, e.freq, e.settings.divr, e.settings.divfi, e.settings.divq, f));
        if (i && !(pll_entries[i - 1].freq < e.freq)) viol("table-order", fmt("entries %d and %d are not increasing", i - 1, i));
        if (e.settings.divr > CLOCK_PRE_DIVIDE_DIVR_MASK || e.settings.divfi > CLOCK_FB_DIVIDE_INTEGER_DIVFI_MASK || e.settings.divq > CLOCK_POST_DIVIDE_DIVQ_MASK) viol("table-field", fmt("entry %d does not fit its register fields", i));
        double ref = 100.0 / (e.settings.divr + 1); if (ref < RNG[0] || ref >= RNG[8]) viol("table-ref", fmt("entry %d: reference frequency %.4f outside every filter range", i, ref));
        C.states++; C.nontrivial++;
    }
    if (next()) { for (int i = 0; i < 8; i++) if (pll_filter_ranges[i] != RNG[i + 1]) viol("range-table", fmt("filter range %d ends at %f, datasheet %f", i, pll_filter_ranges[i], RNG[i + 1])); C.states += 8; }
    for (int i = 0; i < VALID_PLL_FREQS; i++) {
        if (!next()) continue;
        double f = pll_entries[i].freq, lo = i ? pll_entries[i - 1].freq : 0.0;
        struct { double f; int want; const char *n; } q[] = {{f, i, "exactly"}, {std::nextafter(f, -1e9), i, "just below"}, {(f + lo) / 2, i, "between"}, {std::nextafter(lo, 1e9), i, "just above the previous"}, {std::nextafter(f, 1e9), i + 1, "just above"}};
        for (auto &x : q) { x.want = 0; while (x.want < VALID_PLL_FREQS && pll_entries[x.want].freq < x.f) x.want++; }
        for (auto &x : q) {
            d->freq_idx = 12345; d->last_freq_update = timepoint_t(); auto r = pll(d, x.f, 0, 0, 0, -1);
            std::string w = fmt("request %s entry %d (%.9f MHz)", x.n, i, x.f);
            if (x.want < VALID_PLL_FREQS) { expect_entry(d, r, x.want, w); if (d->last_freq_update == timepoint_t()) viol("pll-stamp", w + ": time of the change not recorded"); }
            else if (r.ret || !r.writes.empty() || d->freq_idx != 12345) viol("pll-above", w + ": a frequency above the table was not refused");
        }
        if (i) { d->freq_idx = 0; expect_entry(d, pll(d, 0.0, i, 0, 0, -1), i, fmt("explicit entry %d", i)); }
        C.nontrivial++; C.traces++;
    }
    for (double f : std::initializer_list<double>{3000.0001, 3001, 1e6, 1e300, INFINITY}) if (next()) { d->freq_idx = 77; auto r = pll(d, f, 0, 0, 0, -1); if (r.ret || !r.writes.empty() || d->freq_idx != 77) viol("pll-above", fmt("%g MHz was not refused", f)); }
    for (double f : std::initializer_list<double>{0.0, 1.0, 18.0, -5.0}) if (next()) expect_entry(d, pll(d, f, 0, 0, 0, -1), 0, fmt("%g MHz", f));
    // every acknowledgement history
    for (int ent = 0; ent < 3; ent++) for (int ack = -1; ack <= 6; ack++) for (int lock = -1; lock <= 6; lock++) for (int fail = -1; fail <= 11; fail++) {
        if (!next()) continue;
        int e = ent == 0 ? 1 : ent == 1 ? 4321 : VALID_PLL_FREQS - 1;
        d->freq_idx = 999; auto r = pll(d, 0.0, e, ack, lock, fail);
        std::string w = fmt("entry %d, divider ack after %d polls, lock after %d, failing poll %d", e, ack, lock, fail);
        if (r.ret) {
            if (ack < 0 || lock < 0) viol("pll-falseok", w + ": success reported without acknowledgement or lock");
            expect_entry(d, r, e, w);
        } else {
            if (ack >= 0 && ack <= 2 && lock >= 0 && lock <= 2 && fail < 0) viol("pll-spurious", w + ": refused although acknowledged and locked");
            if (d->freq_idx != 999) viol("pll-idx", w + ": failed but the recorded frequency changed");
        }
        outcome(r.ret ? "set" : "failed");
        C.nontrivial++; C.traces++;
    }
    sample("all 8003 entries: exact, just below, midway, just above requests and explicit entry; 8x8x13 acknowledgement histories");
}
int main(int argc, char **argv) {
    init(argc, argv);
    if (!getenv("VH_STDERR")) freopen("/dev/null", "w", stderr);
    if (C.mode == "enc") mode_enc(); else if (C.mode == "dec") mode_dec(); else if (C.mode == "job") mode_job(); else if (C.mode == "status") mode_status(); else if (C.mode == "pll") mode_pll(); else return 3;
    return finish();
}
