// C13: the proof manager under every interleaving (bounded) of squaring thread, event loop, provers, requests and stop.
#include "sim_vdf.h"
using namespace vh;
struct Sc { std::string name; int segs, threads; unsigned hw; std::vector<uint64_t> req; std::vector<double> at; double stop; int bound; bool delay; uint64_t pace = 1 << 16; uint64_t slow0 = 0, slowlen = 0; double slowby = 0; };
int main(int argc, char **argv) {
    init_gmp(); init(argc, argv);
    integer D(-1000003 * 8 + 1); { integer t = root(-D, 4); (void)t; }
    std::vector<Sc> sc; int q = C.thorough() ? 1 : 0;
    if (C.mode == "deliver") {
        sc.push_back({"one request, one prover", 2, 1, 4, {65536 + 3}, {0}, -1, 2 + q, true});
        sc.push_back({"two requests", 2, 2, 4, {131072 + 12, 65536}, {0, 0}, -1, 1 + q, true});
        sc.push_back({"same request twice, one below a segment", 2, 1, 4, {65537, 65537, 5}, {0, 0, 0}, -1, 1 + q, true});
        sc.push_back({"large segments", 2, 3, 4, {8 * 65536 + 2}, {0}, -1, 1 + q, true});
        sc.push_back({"late request", 2, 3, 4, {4 * 65536 + 2, 8 * 65536 + 11}, {7, 9}, -1, 1 + q, true});
    } else if (C.mode == "stop") {
        sc.push_back({"stop, one request", 2, 1, 4, {65536 + 3}, {0}, 6, 2 + q, true});
        sc.push_back({"stop, two requests", 2, 2, 4, {131072 + 12, 30}, {0, 0}, 6, 2, true});
        sc.push_back({"stop, computed late", 2, 2, 4, {65536 * 3 + 12}, {0}, 2, 2 + q, true});
    } else if (C.mode == "storage") {
        sc.push_back({"background storage", 1, 1, 16, {65536 + 3}, {0}, -1, 1, true});
        sc.push_back({"background storage, stop", 1, 1, 16, {65536 + 3}, {0}, 6, 1, true});
    }
    else if (C.mode == "slow") {
        // one (or every second) segment prover is much slower than the others
        for (int th : std::initializer_list<int>{1, 2, 3}) for (double d : std::initializer_list<double>{0.5, 1.2, 2.6}) for (int k = 0; k < 12; k++) for (int r = 0; r < 3; r++) {
            uint64_t len = k < 9 ? 65536 : 4 * 65536, st = k < 9 ? k * len : (k - 9) * len; Sc x{fmt("prover of [%llu,+%llu] slow by %.1f per step, %d threads, requests %d", (unsigned long long)st, (unsigned long long)len, d, th, r), 2, th, 4, r == 0 ? std::vector<uint64_t>{8 * 65536 + 2} : r == 1 ? std::vector<uint64_t>{5 * 65536, 8 * 65536 + 100} : std::vector<uint64_t>{9 * 65536 - 1, 11 * 65536 + 11}, {0, 8.5}, -1, q ? 1 : th == 3 && d > 1 && d < 2 && r == 0 ? 1 : 0, true};
            x.slow0 = st; x.slowlen = len; x.slowby = d; sc.push_back(x);
        }
    }
    for (auto &s : sc) {
        sim::slow = nullptr; if (s.slowby > 0) sim::slow = [&s](uint64_t st, uint64_t l) { return st == s.slow0 && l == s.slowlen ? s.slowby : 0.0; };
        sched::Opt o; o.bound = s.bound; o.delay = s.delay; o.max_steps = 400000; o.vlimit = 3e5; o.hot = 3;
        g_hw = s.hw; form f0 = sim::mk(0); fast_algorithm = true; two_weso = false; sim::pace = s.pace; sim::endless = 20 * 65536; int segs = s.segs; sim::nseg_relevant(40 * 65536, segs);
        if (s.hw >= 16) { sim::rel.clear(); for (int i = 1; i < 48; i++) sim::rel.push_back(i << 15); }
        static FastAlgorithmCallback *weso = nullptr; static int wseg = 0; static unsigned whw = 0; if (!weso || wseg != s.segs || whw != s.hw) { delete weso; weso = new FastAlgorithmCallback(s.segs, D, f0, s.hw >= 16); wseg = s.segs; whw = s.hw; }
        auto body = [&] {
            { sched::Quiet q; weso->iterations = 0; new_event = false; weso->y_ret = f0; for (int e = 1; e < 48; e++) weso->checkpoints[e] = sim::mk(12345); if (s.hw >= 16) { for (size_t i = 0; i < weso->forms_capacity; i++) if (mpz_sgn(weso->forms[i].a.impl)) mpz_set_ui(weso->forms[i].a.impl, 0); } else for (int b = 0; b < segs; b++) { uint64_t p = 1ull << (16 + 2 * b), k = b ? 12 : 10, l = b < 2 ? 1 : p >> 18; for (int w = 0; w < 20; w++) for (uint64_t r : sim::read_at(p, k, l)) mpz_set_ui(weso->forms[weso->buckets_begin[b] + w * (b ? 21846 : 6554) + r].a.impl, 0); } for (int i = 0; i < segs; i++) weso->forms[weso->buckets_begin[i]] = f0; weso->checkpoints[0] = f0; }
            integer L = root(-D, 4); std::atomic<bool> stopped(false);
            FastStorage *fs = s.hw >= 16 ? new FastStorage(weso) : nullptr;
            std::thread vdf(repeated_square, 0, f0, std::ref(D), std::ref(L), weso, fs, std::ref(stopped));
            auto *pm = new ProverManager(D, weso, fs, s.segs, s.threads); pm->start();
            std::vector<Proof> res(s.req.size()); std::vector<std::atomic<int>> done(s.req.size()); std::vector<std::thread> th; std::atomic<int> ndone{0};
            for (size_t i = 0; i < s.req.size(); i++) { done[i] = 0; th.emplace_back([&, i] { if (s.at[i] > 0) std::this_thread::sleep_for(std::chrono::duration<double>(s.at[i])); res[i] = pm->Prove(s.req[i]); done[i] = 1; ndone++; }); }
            std::atomic<bool> stop_issued{false};
            if (s.stop < 0) { for (auto &t : th) t.join(); th.clear(); } else std::this_thread::sleep_for(std::chrono::duration<double>(s.stop));
            size_t before = 0; for (auto &d : done) before += d;
            stopped = true; pm->stop(); vdf.join(); for (auto &t : th) t.join(); delete fs;
            std::string oc; { sched::Quiet q; for (size_t i = 0; i < res.size(); i++) {
                bool empty = res[i].y.empty() && res[i].proof.empty();
                if (s.stop < 0 && empty) sched::fail("empty", fmt("request %llu got an empty proof without a stop", (unsigned long long)s.req[i]));
                if (!empty) { std::string e = sim::judge(s.req[i], res[i].y, res[i].proof, res[i].witness_type); if (!e.empty()) sched::fail("bad-proof", fmt("request %llu: %s", (unsigned long long)s.req[i], e.c_str())); }
                oc += fmt("%llu:%s ", (unsigned long long)s.req[i], empty ? "none" : fmt("%d", res[i].witness_type).c_str());
            } sched::outcome((s.slowby > 0 ? std::string("slow prover") : s.name) + ": " + oc); }
            delete pm;
        };
        sched::explore(s.name, o, body);
        if (C.elapsed() > C.budget) { C.capped = true; break; }
    }
    return finish();
}
