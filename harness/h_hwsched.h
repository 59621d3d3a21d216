// C26: proof scheduling of the hardware client.
#include <sys/time.h>

namespace sch {
struct VD { virtual ~VD() {} };      // stands for the (private) state object of std::thread
static const uint64_t IV = 4000;
struct Ledger { std::map<uint64_t, int> out; };          // requested and not yet delivered (iteration -> how many)
struct World {
    vdf_state *v; std::map<uint64_t, int> out; std::string hist; bool quiet = false; uint64_t known_busy = 0;
    struct Started { int idx; int bit; }; std::vector<Started> started; long ndel = 0, max_chain = 0;
    void bad(const std::string &k, const std::string &d) { viol(k, d + " [" + hist + "]"); }
    bool live(size_t i) { return i < v->proofs.size() && v->proofs[i].flags != 0xff; }
    std::vector<int> chain(int i) { std::vector<int> c; while (true) { c.push_back(i); if (c.size() > 200) break; uint16_t p = v->proofs[i].prev; if (p == HW_VDF_PROOF_NONE) break; if (!live(p)) { c.push_back(-1); break; } i = p; } return c; }
    void reset() {
        v->proofs.clear(); v->queued_proofs.clear(); v->req_proofs.clear(); v->done_proofs.clear(); v->aux_threads_busy = 0; v->n_proof_threads = 0; v->last_val.iters = 0; v->cur_iters = 0; v->stopping = false; v->completed = false;
        out.clear(); hist.clear(); started.clear(); known_busy = 0; drop(); cur_vdf = v; captured_proofs.clear();
    }
    void drop() { for (auto &t : tasks) delete (VD *)t.arg; tasks.clear(); }
    // account for the proof threads the client just started
    void collect() {
        uint64_t b = v->aux_threads_busy & ~known_busy; size_t nb = __builtin_popcountll(b);
        if (nb != tasks.size()) bad("slot", fmt("%zu proofs started on %zu worker slots", tasks.size(), nb));
        for (auto &t : tasks) {
            int bit = b ? __builtin_ctzll(b) : 0; b &= b - 1;
            if (t.proof < 0 || !live(t.proof)) { bad("start", "a worker was started for no proof"); continue; }
            if (v->proofs[t.proof].iters > v->last_val.iters) bad("early", fmt("proof for %llu started before the accelerator reached it", (unsigned long long)v->proofs[t.proof].iters));
            for (auto &s : started) if (s.idx == t.proof) bad("twice", "a proof was started twice");
            started.push_back({t.proof, bit});
        }
        known_busy = v->aux_threads_busy; drop();
    }
    void request(uint64_t r) { out[r]++; hw_request_proof(v, r, false); }
    void advance(uint64_t to) { if (to > v->last_val.iters) v->last_val.iters = v->cur_iters = to; hw_proof_process_work(v); collect(); }
    bool complete(size_t k) {
        if (k >= started.size()) return false; auto s = started[k]; started.erase(started.begin() + k);
        auto &p = v->proofs[s.idx]; if (p.flags & HW_VDF_PROOF_FLAG_IS_REQ) v->done_proofs.push_back(s.idx); p.flags |= HW_VDF_PROOF_FLAG_DONE;
        v->aux_threads_busy &= ~(1ull << s.bit); known_busy = v->aux_threads_busy; v->n_proof_threads -= PARALLEL_PROVER_N_THREADS; return true;
    }
    bool retrieve() {
        struct vdf_proof *p; int c = hw_retrieve_proof(v, &p); if (c < 0) return false;
        int idx = p - v->proofs.data(); auto ch = chain(idx);
        if (ch.back() < 0) { bad("freed", "delivered proof refers to a freed segment"); return true; }
        if ((int)ch.size() != c + 1) bad("count", fmt("delivered with witness %d, chain has %zu segments", c, ch.size()));
        for (int i : ch) if (!(v->proofs[i].flags & HW_VDF_PROOF_FLAG_DONE)) bad("undone", fmt("delivered before the segment ending at %llu was proved", (unsigned long long)v->proofs[i].iters));
        auto f = out.find(p->iters); if (f == out.end()) bad("delivered", fmt("proof for %llu delivered though not (or no longer) requested", (unsigned long long)p->iters)); else if (!--f->second) out.erase(f);
        ndel++; return true;
    }
    void check() {
        C.states++;
        std::set<int> q; uint64_t pi = 0;
        for (auto i : v->queued_proofs) {
            if (!live(i)) { bad("queue-freed", "the queue holds a freed proof"); return; }
            if (!q.insert(i).second) bad("queue-dup", "a proof is queued twice");
            if (v->proofs[i].flags & HW_VDF_PROOF_FLAG_STARTED) bad("queue-started", "a started proof is queued");
            if (v->proofs[i].iters < pi) bad("queue-order", "the queue is not sorted by iteration"); pi = v->proofs[i].iters;
        }
        std::map<uint64_t, int> have; for (auto &r : v->req_proofs) have[r.iters]++;
        std::set<int> donep(v->done_proofs.begin(), v->done_proofs.end());
        for (size_t i = 0; i < v->proofs.size(); i++) {
            if (!live(i)) continue; auto &p = v->proofs[i]; bool req = p.flags & HW_VDF_PROOF_FLAG_IS_REQ;
            if (!(p.flags & HW_VDF_PROOF_FLAG_STARTED) && !q.count(i)) bad("lost-segment", fmt("the segment ending at %llu is neither started nor queued", (unsigned long long)p.iters));
            if (!req && (p.iters % IV || !p.seg_iters)) bad("checkpoint", fmt("checkpoint at %llu (length %llu)", (unsigned long long)p.iters, (unsigned long long)p.seg_iters));
            auto ch = chain(i); if (ch.back() < 0) { bad("freed", fmt("the segment ending at %llu refers to a freed segment", (unsigned long long)p.iters)); continue; }
            if (ch.size() > 64) bad("length", fmt("chain of %zu segments", ch.size())); max_chain = std::max(max_chain, (long)ch.size());
            uint64_t sum = 0; for (int j : ch) sum += v->proofs[j].seg_iters; if (sum != p.iters) bad("sum", fmt("segments of the proof for %llu add up to %llu", (unsigned long long)p.iters, (unsigned long long)sum));
            uint16_t pv = p.prev; if (pv != HW_VDF_PROOF_NONE && (v->proofs[pv].iters + p.seg_iters != p.iters || (v->proofs[pv].flags & HW_VDF_PROOF_FLAG_IS_REQ))) bad("contiguous", fmt("segment ending at %llu does not start at its predecessor's end", (unsigned long long)p.iters));
            if (req && (!(p.flags & HW_VDF_PROOF_FLAG_DONE) || donep.count(i))) have[p.iters]++;
        }
        if (have != out) { std::string s; for (auto &o : out) if (!have.count(o.first) || have[o.first] != o.second) s += fmt(" %llu", (unsigned long long)o.first); for (auto &o : have) if (!out.count(o.first)) s += fmt(" +%llu", (unsigned long long)o.first); bad("lost-request", "requests lost (or invented, marked +):" + s); }
    }
    void drain() {
        hist += "; then run to the end"; uint64_t top = v->last_val.iters; for (auto &o : out) top = std::max(top, o.first);
        int stuck = 0; for (int guard = 0; guard < 5000; guard++) {
            if (out.empty()) break; long nd = ndel;
            advance(top); while (complete(0)); while (retrieve()); check();
            stuck = nd == ndel ? stuck + 1 : 0; if (stuck > 100) break;
        }
        if (!out.empty()) bad("starved", fmt("request for %llu never delivered", (unsigned long long)out.begin()->first));
        if (retrieve()) bad("delivered", "a proof was delivered twice");
    }
};
static vdf_state *mk() { auto *v = new vdf_state(); uint8_t f[BQFC_FORM_SIZE]; init_form_bytes(f); init_vdf_state(v, nullptr, dstr().c_str(), f, 2000000000ull, 0); capture = true; cur_vdf = v; return v; }
}
static void mode_plan() {
    using namespace sch; prep(40, 0, 1); World w; w.v = mk();
    std::vector<uint64_t> R = {4000, 1000001, 1350000, 2250000, 3001000, 10000000};
    if (C.thorough()) R = {4000, 999999, 1000001, 1350000, 2248000, 2250000, 3000000, 3001000, 7000000, 10000000};
    // events: requests; advance to the queue head, just below it, by a million, past everything queued; complete oldest/newest; retrieve
    enum { NA = 4, NX = 3 }; int NE = R.size() + NA + NX;
    auto step = [&](int e, World &w) {
        if (e < (int)R.size()) { if (R[e] < w.v->last_val.iters && 0) return; w.hist += fmt("; request %llu", (unsigned long long)R[e]); w.request(R[e]); }
        else if (e < (int)R.size() + NA) {
            int k = e - R.size(); uint64_t to = w.v->last_val.iters, hd = w.v->queued_proofs.empty() ? to + 1 : w.v->proofs[w.v->queued_proofs[0]].iters, bk = w.v->queued_proofs.empty() ? to + 1 : w.v->proofs[w.v->queued_proofs.back()].iters;
            to = std::max(to + 1, k == 0 ? hd : k == 1 ? hd - 1 : k == 2 ? to + 1000000 : bk); w.hist += fmt("; accelerator at %llu", (unsigned long long)to); w.advance(to);
        } else { int k = e - R.size() - NA; if (k == 0) { w.hist += "; oldest done"; w.complete(0); } else if (k == 1) { w.hist += "; newest done"; if (w.started.size() > 1) w.complete(w.started.size() - 1); } else { w.hist += "; retrieve"; w.retrieve(); } }
        C.transitions++; w.check();
    };
    int depth = C.thorough() ? 7 : 6; int pre = 2; uint64_t np = 1; for (int i = 0; i < pre; i++) np *= NE;
    std::vector<int> seq(depth); long maxc = 0;
    for (uint64_t x = 0; x < np; x++) {
        if (!next()) continue; uint64_t y = x; for (int i = 0; i < pre; i++) { seq[i] = y % NE; y /= NE; }
        uint64_t n = 1; for (int i = pre; i < depth; i++) n *= NE;
        if (seq[0] >= (int)R.size() + NA) continue;      // nothing to complete or retrieve yet
        for (uint64_t z = 0; z < n; z++) {
            uint64_t u = z; for (int i = depth - 1; i >= pre; i--) { seq[i] = u % NE; u /= NE; }
            w.reset(); long v0 = C.nviol; for (int i = 0; i < depth && C.nviol == v0; i++) step(seq[i], w); if (C.nviol == v0) w.drain(); C.traces++; if (w.ndel) C.nontrivial++; w.ndel = 0;
        }
        maxc = std::max(maxc, w.max_chain);
    }
    // the same from states whose queued checkpoints already have long chains
    struct Snap { std::vector<vdf_proof> p; std::vector<uint16_t> q, d; std::deque<vdf_proof_req> r; uint64_t busy, last; int np; World w; };
    for (int target : std::initializer_list<int>{57, 60, 61, 62, 63, 64}) for (uint64_t sp : std::initializer_list<uint64_t>{1500000, 2600000}) {
        w.reset(); w.max_chain = 0; uint64_t pos = 0; int given = 0, guard = 0; long v0 = C.nviol;
        auto tail = [&]() { size_t m = 0; for (auto i : w.v->queued_proofs) if (!(w.v->proofs[i].flags & HW_VDF_PROOF_FLAG_IS_REQ)) m = std::max(m, w.chain(i).size()); return (int)m; };
        while (tail() < target - 1 && guard++ < 2000) { while (given * sp <= pos + 3 * sp) w.request(++given * sp); pos += sp / 3; w.advance(pos); w.complete(0); w.complete(0); while (w.retrieve()); w.check(); }
        if (tail() < target - 1) continue;
        w.hist = fmt("after %d requests %llu apart, accelerator at %llu, chains of %d segments", given, (unsigned long long)sp, (unsigned long long)pos, tail());
        Snap sn; sn.p = w.v->proofs; sn.q = w.v->queued_proofs; sn.d = w.v->done_proofs; sn.r = w.v->req_proofs; sn.busy = w.v->aux_threads_busy; sn.np = w.v->n_proof_threads; sn.last = w.v->last_val.iters; sn.w = w; auto cap0 = captured_proofs;
        std::vector<uint64_t> R2; for (uint64_t d : std::initializer_list<uint64_t>{1, 3999, 1000001, 2600000, 9000000}) R2.push_back(pos + d); for (auto i : w.v->queued_proofs) if (R2.size() < 9) { R2.push_back(w.v->proofs[i].iters); R2.push_back(w.v->proofs[i].iters + 1000); }
        int NE2 = R2.size() + NA + NX, dep = C.thorough() ? 5 : 4; uint64_t n = 1; for (int i = 0; i < dep; i++) n *= NE2;
        uint64_t blk = n / 64 + 1;
        for (int bl = 0; bl < 64; bl++) { if (!next()) continue;
            for (uint64_t z = bl * blk; z < std::min(n, (bl + 1) * blk); z++) {
                w = sn.w; w.v->proofs = sn.p; w.v->queued_proofs = sn.q; w.v->done_proofs = sn.d; w.v->req_proofs = sn.r; w.v->aux_threads_busy = sn.busy; w.v->n_proof_threads = sn.np; w.v->last_val.iters = w.v->cur_iters = sn.last; captured_proofs = cap0; w.ndel = 0;
                uint64_t u = z; long v1 = C.nviol;
                for (int i = 0; i < dep && C.nviol == v1; i++) { int e = u % NE2; u /= NE2; if (e < (int)R2.size()) { w.hist += fmt("; request %llu", (unsigned long long)R2[e]); w.request(R2[e]); C.transitions++; w.check(); } else step(e - R2.size() + R.size(), w); }
                if (C.nviol == v1) w.drain(); C.traces++; C.nontrivial++;
            }
            maxc = std::max(maxc, w.max_chain); }
        (void)v0;
    }
    outcome(fmt("longest chain %ld", maxc)); sample("request 3001000; accelerator at 2068000; request 1350000; oldest done; retrieve; then run to the end");
}
static void mode_long() {
    using namespace sch; prep(40, 0, 1); World w; w.v = mk(); long maxc = 0;
    auto go = [&](uint64_t sp, int n, int lead, int order, int pol, uint64_t hw) {
        if (!next()) return; w.reset(); w.hist = fmt("%d requests %llu apart, %d ahead, order %d, completion %d, accelerator step %llu", n, (unsigned long long)sp, lead, order, pol, (unsigned long long)hw);
        uint64_t pos = 0; int given = 0; long v0 = C.nviol;
        for (int i = 0; i < 20000 && C.nviol == v0; i++) {
            std::vector<uint64_t> b; while (given < n && (uint64_t)given * sp <= pos + (uint64_t)lead * sp) b.push_back((uint64_t)++given * sp + (order == 3 ? given * 977 % 4000 : 0));
            if (order == 1) std::reverse(b.begin(), b.end()); if (order == 2) for (size_t j = 0; j + 1 < b.size(); j += 2) std::swap(b[j], b[j + 1]);
            for (auto r : b) { w.request(r); if (order == 1) w.advance(pos + 1); }
            pos += hw; w.advance(pos); if (pol == 0) while (w.complete(0)); else if (pol == 1) w.complete(w.started.size() ? w.started.size() - 1 : 0); else if (pol == 2 && i % 3 == 0) w.complete(0);
            if (pol != 1 || i % 2) while (w.retrieve()); w.check(); C.transitions++;
            if (given == n && w.v->queued_proofs.empty() && w.v->req_proofs.empty()) break;
        }
        if (C.nviol == v0) w.drain(); maxc = std::max(maxc, w.max_chain); C.traces++; C.nontrivial++;
    };
    int N = C.thorough() ? 200 : 110;
    for (uint64_t sp : std::initializer_list<uint64_t>{4001, 100000, 499999, 996000, 1000001, 1500000, 2600000, 4000000, 12000000}) for (int lead : std::initializer_list<int>{1, 2, 3, 5, 8, 100}) for (int order : std::initializer_list<int>{0, 1, 2, 3}) for (int pol : std::initializer_list<int>{0, 1, 2}) for (uint64_t hw : std::initializer_list<uint64_t>{4000, sp / 3, sp, sp * 2}) {
        if (hw == 4000 && sp > 100000) continue; go(sp, N, lead, order, pol, hw);
    }
    outcome(fmt("longest chain %ld", maxc)); sample(fmt("%d requests 1000001 apart, 3 ahead, pairs swapped, newest proof completes first", N));
}
static void mode_e2e() {
    using namespace sch; const size_t NG = C.thorough() ? 1100 : 800;      // grid values: 4.4 (3.2) million iterations
    prep(72, 0, 1); std::vector<form> grid; std::map<uint64_t, form> off;
    const std::vector<uint64_t> R = {1, 3999, 4000, 4001, 31999, 160000, 1000000, 1000001, 1003999, 2248000, 2600000, 3000001};
    auto *v = mk(); ref::Z RD(mpz_class(D.impl).get_mpz_t()); uint8_t xs[BQFC_FORM_SIZE]; init_form_bytes(xs);
    {   PulmarkReducer red; form f = pw[0]; for (uint64_t i = 0; i <= NG * IV; i++) { if (i % IV == 0) grid.push_back(f); for (auto r : R) if (r == i) off[i] = f; form g; nudupl_form(g, f, D, L); red.reduce(g); f = g; } }
    int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) abort(); int big = 4 << 20; setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &big, sizeof big); fcntl(sv[1], F_SETFL, O_NONBLOCK);
    vdf_conn *conn = new vdf_conn(); 
    auto one = [&](std::vector<uint64_t> req, int pol, bool split) {
        if (!next()) return; std::string h; for (auto r : req) h += fmt(" %llu", (unsigned long long)r); h = fmt("requests%s%s, completion %d", h.c_str(), split ? " one after another" : " together", pol);
        auto bad = [&](const std::string &k, const std::string &d) { viol(k, d + " [" + h + "]"); };
        vdf_client *cl = new vdf_client(); cl->opts = {}; cl->opts.vdfs_mask = 0; auto &c = cl->conns[0]; auto &s = c.vdf; uint8_t f[BQFC_FORM_SIZE]; init_form_bytes(f);
        init_vdf_state(&s, nullptr, dstr().c_str(), f, NG * IV, 0); for (size_t g = 0; g < grid.size(); g++) { *hw_proof_value_at(&s, g) = grid[g]; s.valid_values[g / 8] |= 1 << (g % 8); }
        c.sock = sv[0]; c.state = RUNNING; cur_vdf = &s; tasks.clear(); captured_proofs.clear(); capture = true; in_task = 0;
        std::map<uint64_t, int> out; for (auto r : req) out[r]++;
        uint64_t pos = 0; size_t gi = 0; int idle = 0; long frames = 0;
        try { for (int it = 0; it < 3000 && !out.empty() && idle < 40; it++) {
            if (gi < req.size() && (split || gi == 0)) { do hw_request_proof(&s, req[gi++], false); while (!split && gi < req.size()); }
            uint64_t np = std::min<uint64_t>(NG * IV, pos + (split ? 40000 : 400000)); if (np == pos) idle++; pos = np; s.last_val.iters = s.cur_iters = pos; hw_proof_process_work(&s);
            if (pol == 0 || it % 2) { if (!tasks.empty()) run_task(pol == 1 ? tasks.size() - 1 : 0); }
            handle_proofs(cl, &c);
            std::string buf; char tmp[65536]; ssize_t n; while ((n = read(sv[1], tmp, sizeof tmp)) > 0) buf.append(tmp, n);
            size_t p = 0; while (p < buf.size()) {
                if (buf.size() - p < 4) { bad("frame", "truncated frame"); break; }
                size_t len = (uint8_t)buf[p] << 24 | (uint8_t)buf[p + 1] << 16 | (uint8_t)buf[p + 2] << 8 | (uint8_t)buf[p + 3]; p += 4; if (len > buf.size() - p || len % 2) { bad("frame", fmt("frame announces %zu characters, %zu follow", len, buf.size() - p)); break; }
                std::vector<uint8_t> d; for (size_t i = 0; i < len; i += 2) d.push_back(strtoul(buf.substr(p + i, 2).c_str(), 0, 16)); p += len; frames++;
                if (d.size() < 217 || ref::be64(&d[8]) != 100 || d.size() != 217 + 141 * (size_t)d[116]) { bad("frame", fmt("frame of %zu bytes, witness %d", d.size(), d.size() > 116 ? d[116] : -1)); continue; }
                uint64_t t = ref::be64(&d[0]); if (!out.count(t)) { bad("delivered", fmt("proof for %llu delivered though not requested", (unsigned long long)t)); continue; } if (!--out[t]) out.erase(t);
                if (d[116] + 1 > 64) bad("length", "more than 64 segments");
                ref::Bytes b(d.begin() + 16, d.begin() + 116); b.insert(b.end(), d.begin() + 117, d.end());
                if (!ref::verify(RD, xs, b.data(), b.size(), t, d[116])) bad("invalid", fmt("proof for %llu does not verify (witness %d)", (unsigned long long)t, d[116]));
                ref::F y; form yf = off[t]; if (!ref::decode_consensus(&d[16], RD, y) || mpz_cmp(y.a.get_mpz_t(), yf.a.impl) || mpz_cmp(y.b.get_mpz_t(), yf.b.impl)) bad("output", fmt("output for %llu is not x^(2^%llu)", (unsigned long long)t, (unsigned long long)t));
                C.states++; outcome(fmt("witness %d", d[116]));
            }
            C.transitions++;
        } } catch (Hang &) { bad("hang", "a proof worker waits for ever"); }
        if (!out.empty()) bad("starved", fmt("proof for %llu never sent", (unsigned long long)out.begin()->first));
        s.stopping = true; while (!tasks.empty()) run_task(0); capture = false; clear_vdf_state(&s); delete cl; C.traces++; C.nontrivial++;
    };
    for (auto r : R) for (int pol = 0; pol < 2; pol++) one({r}, pol, false);
    std::vector<uint64_t> P = R; if (!C.thorough()) P = {1, 3999, 4000, 160000, 1000001, 2600000}; for (auto a : P) for (auto b : P) for (int sp = 0; sp < 2; sp++) one({a, b}, (a + b) & 1, sp);
    // requests that coincide with checkpoints of others: zero-length final segments
    for (uint64_t big : std::initializer_list<uint64_t>{1000001, 1400000, 2600000, 3000001}) for (uint64_t c1 : std::initializer_list<uint64_t>{big * 3 / 4 / IV * IV, big * 69 / 100 / IV * IV, big * 69 / 100 / IV * IV + (big * 92 / 100 - big * 69 / 100 / IV * IV) / IV * IV}) { off[c1] = grid[c1 / IV]; if (!off.count(big)) off[big] = grid[big / IV]; for (int sp = 0; sp < 2; sp++) for (int pol = 0; pol < 2; pol++) { one({big, c1}, pol, sp); one({c1, big}, pol, sp); } }
    if (C.thorough()) for (auto a : R) for (auto b : R) for (auto c : R) if (a <= c) one({a, b, c}, (a + b + c) & 1, (a ^ b ^ c) >> 2 & 1);
    sample("requests 2600000 and 1792000 (a checkpoint of the first) together, newest proof first");
}
