// C15: the two-segment recorder under every (bounded) interleaving of recording, the switch to sparse mode and lookups.
#include "sim_vdf.h"
using namespace vh;
static TwoWesolowskiCallback *weso; static form *table; static size_t tablen;
static void raw(uint64_t it) { sim::Original::form v; form t; { sched::Quiet q; t = sim::mk(it); } v.a[0] = t.a.impl[0]; v.b[0] = t.b.impl[0]; v.c[0] = t.c.impl[0]; weso->OnIteration(NL_FORM, &v, it - 1); }
static void reset(size_t clear) { sched::Quiet q; weso->iterations = 0; weso->kl = 10; weso->transition_state = TwoWesolowskiCallback::EncodeTransitionState(0, -1); for (size_t i = 0; i < clear; i++) { if (!table[i].a.impl->_mp_d) mpz_init(table[i].a.impl); if (!table[i].b.impl->_mp_d) mpz_init(table[i].b.impl); if (!table[i].c.impl->_mp_d) mpz_init(table[i].c.impl); mpz_set_ui(table[i].a.impl, 0); } mpz_set_ui(table[0].a.impl, 1); }
static void look(uint64_t p, const char *who) { form f = weso->GetFormCopy(p); sched::Quiet q; if (!sim::is(f, p)) sched::fail("lookup", fmt("%s: exponent %llu looked up after it was recorded gives %s", who, (unsigned long long)p, mpz_sgn(f.a.impl) ? sim::show(f).c_str() : "nothing")); }
static void setup(size_t cap, size_t extra) {   // the real constructor runs; its table is then exchanged for one of the wanted size
    integer D(-1000003 * 8 + 1); form f0 = sim::mk(0); if (!weso) weso = new TwoWesolowskiCallback(D, f0); else (void)weso->forms.release(); table = (form *)mmap(nullptr, (cap + extra) * sizeof(form), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); weso->forms.reset(table); weso->forms_capacity = cap; tablen = cap + extra; }
// what has been recorded so far, known to the readers without any synchronisation: the recorder's own lock must order a lookup after the recording
static std::vector<uint64_t> known; __attribute__((no_sanitize_thread)) static void learn(uint64_t p) { sched::Quiet q; known.push_back(p); } __attribute__((no_sanitize_thread)) static uint64_t newest(size_t back) { sched::Quiet q; return known.size() > back ? known[known.size() - 1 - back] : 0; }
int main(int argc, char **argv) {
    init_gmp(); init(argc, argv); bool th = C.thorough(); int q = th ? 1 : 0; integer D(-1000003 * 8 + 1);
    if (C.mode == "rec") {
        // recorder, switcher and readers directly on the recorder; every shared access is a scheduling point
        struct Sc { std::string name; std::vector<uint64_t> its; int64_t sw; bool own; std::vector<std::vector<uint64_t>> readers; int bound; int eager = 0; };
        std::vector<Sc> sc;
        sc.push_back({"switch by the recorder", {80, 90, 95, 100, 110, 199, 200, 210, 300}, 100, false, {{90, 100, 200}, {300, 90}}, 3 + q});
        sc.push_back({"switch by the recorder, three readers", {90, 100, 110, 200}, 100, false, {{90, 200}, {100, 90}, {200, 100}}, 2});
        sc.push_back({"long sparse part", {90, 100, 101, 110, 190, 199, 200, 299, 300, 400}, 100, false, {{400, 90}, {100, 300}}, 2 + q});
        sc.push_back({"switch in the middle of the dense part", {180, 190, 200, 290, 300, 400}, 200, false, {{190, 300}, {200, 400}, {180, 200}}, 2});
        sc.push_back({"no switch", {10, 20, 30, 40}, -1, false, {{10, 40}, {20, 30}}, 3 + q});
        sc.push_back({"eager readers", {90, 100, 200}, 100, false, {}, 3 + q, 2}); sc.push_back({"eager readers, longer", {10, 20, 100, 110, 200}, 100, false, {}, 2 + q, 4});
        setup(64, 64);
        for (auto &s : sc) { sched::Opt o; o.bound = s.bound; o.hot = 60; o.max_steps = 200000; o.vlimit = 1e4;
            sched::explore(s.name, o, [&] {
                reset(tablen); { sched::Quiet q; known.clear(); } std::atomic<bool> go{!s.own};
                std::thread sw; if (s.own) sw = std::thread([&] { weso->IncreaseConstants(s.sw); go = true; });
                std::thread rec([&] { for (uint64_t it : s.its) { if (s.own && (int64_t)it >= s.sw) while (!go) std::this_thread::sleep_for(std::chrono::seconds(1)); raw(it); if (it % (s.sw < 0 || (int64_t)it <= s.sw ? 10 : 100) == 0) learn(it); if (!s.own && (int64_t)it == s.sw) weso->IncreaseConstants(it); weso->iterations = it; } });
                std::vector<std::thread> rd; for (size_t i = 0; i < s.readers.size(); i++) rd.emplace_back([&, i] { for (uint64_t p : s.readers[i]) { while (weso->iterations < (int64_t)p) std::this_thread::sleep_for(std::chrono::seconds(1)); look(p, "reader"); } });
                if (s.eager) for (int k = 0; k < 2; k++) rd.emplace_back([&, k] { for (int i = 0; i < s.eager; i++) { uint64_t p = newest((i + k) % 2); if (p) look(p, "eager reader"); else sched::yield_point(); } });
                rec.join(); if (sw.joinable()) sw.join(); for (auto &t : rd) t.join();
                for (uint64_t it : s.its) if (it % (s.sw < 0 || (int64_t)it < s.sw ? 10 : 100) == 0) look(it, "afterwards"); if (weso->LargeConstants() != (s.sw >= 0)) sched::fail("mode", "wrong mode at the end"); sched::outcome(s.name);
            }); }
    } else if (C.mode == "cap") {
        // exceeding the capacity: error, nothing written behind the table; alone and with the reader running
        for (int sw : std::initializer_list<int>{-1, 100}) for (int rdr = 0; rdr < 2; rdr++) { sched::Opt o; o.bound = 2; o.hot = 60; o.vlimit = 1e4; size_t cap = 13; setup(cap, 40); uint64_t last = sw < 0 ? 120 : 300 - 100 + 100;
            sched::explore(fmt("capacity, switch %d, readers %d", sw, rdr), o, [&, cap, sw, rdr, last] {
                reset(tablen); std::vector<uint64_t> ok; if (sw < 0) for (uint64_t i = 90; i <= last; i += 10) ok.push_back(i); else { ok = {90, 100, 200, 300}; } (void)last; std::atomic<int> thrown{0};
                std::thread rec([&] { for (uint64_t it : ok) { raw(it); if ((int)it == sw) weso->IncreaseConstants(it); weso->iterations = it; }
                    for (uint64_t it : sw < 0 ? std::vector<uint64_t>{130, 140, 200, 1000000000} : std::vector<uint64_t>{400, 500, 10000000000ull}) { try { raw(it); sched::fail("capacity", fmt("recording %llu past the capacity is not refused", (unsigned long long)it)); } catch (std::exception &) { thrown++; } } });
                std::thread rd; if (rdr) rd = std::thread([&] { for (uint64_t it : ok) { while (weso->iterations < (int64_t)it) std::this_thread::sleep_for(std::chrono::seconds(1)); look(it, "reader"); } try { weso->GetFormCopy(10000000000ull); sched::fail("capacity", "a lookup past the capacity is not refused"); } catch (std::exception &) { thrown++; } });
                rec.join(); if (rd.joinable()) rd.join(); sched::Quiet q; for (size_t i = cap; i < tablen; i++) if (mpz_sgn(table[i].a.impl)) sched::fail("capacity", fmt("slot %zu behind the table was written", i)); for (uint64_t it : ok) if (!sim::is(table[sw < 0 || (int)it < sw ? it / 10 : sw / 10 + (it - sw) / 100], it)) sched::fail("capacity", "an earlier value was damaged"); sched::outcome("refused");
            }); }
    } else if (C.mode == "loop") {
        // the real squaring loop with the switch within reach, batches that end early at every residue of the round-up
        two_weso = true; fast_algorithm = false; setup(100000, 1000);
        struct Sc { std::string name; int sw; int rem; int bound; int64_t max; }; std::vector<Sc> sc; for (int r : std::initializer_list<int>{0, 1, 50, 99}) sc.push_back({fmt("switch, batch end residue %d", r), 30000, r, 1 + q, 800000000}); sc.push_back({"switch exactly at a checkpoint", 40000, 0, 1 + q, 800000000}); sc.push_back({"switch one after a checkpoint", 40001, 0, 1 + q, 800000000}); sc.push_back({"end of the allowed range", 30000, 7, 1 + q, 500000 + 100000});
        for (int r = 0; r < 100; r++) if (th || r % 7 == 3) sc.push_back({fmt("switch, batch end residue %d (default order)", r), 30000, r, 0, 800000000});
        for (auto &s : sc) { sched::Opt o; o.bound = s.bound; o.hot = 4; o.vlimit = 1e5; o.max_steps = 400000;
            sim::pace = 1; sim::endless = s.max > 700000000 ? 110000 : ~0ull; kSwitchIters = s.sw; kMaxItersAllowed = s.max;
            uint64_t swp = 0; { uint64_t n = 0, lc = 0; while (1) { n += 10000 + (n == 30000 ? -10000 + (s.rem ? s.rem : 10000) : 0); if (n >= lc) { if (n >= (uint64_t)s.sw) break; lc += 1 << 15; } } swp = (n + 99) / 100 * 100; }
            sim::cut = [&](uint64_t b, uint64_t n) -> uint64_t { return b == 30000 && s.rem ? s.rem - 1 : n; };
            std::vector<uint64_t> pr{10, 990, swp - 1000, swp - 110, swp - 100, swp - 90, swp - 20, swp - 10, swp}; for (uint64_t d : std::initializer_list<uint64_t>{100, 200, 1000, 5000}) pr.push_back(swp + d); uint64_t fin = (100000 + 0) / 100 * 100; pr.push_back(fin);
            sim::rel.clear(); for (uint64_t p : pr) sim::rel.push_back(p); for (uint64_t p = swp - 110; p <= swp + 210; p++) sim::rel.push_back(p); std::sort(sim::rel.begin(), sim::rel.end()); sim::rel.erase(std::unique(sim::rel.begin(), sim::rel.end()), sim::rel.end());
            sched::explore(s.name, o, [&, s, swp, pr] {
                { sched::Quiet q; for (uint64_t p : pr) for (size_t i : {p / 10, swp / 10 + (p > swp ? (p - swp) / 100 : 0), p / 10 + 1}) if (i < tablen && table[i].a.impl->_mp_d) mpz_set_ui(table[i].a.impl, 0); } reset(2); form f0 = sim::mk(0); integer L = root(-D, 4); std::atomic<bool> stopped{false};
                std::thread v(repeated_square, 0, f0, std::ref(D), std::ref(L), weso, nullptr, std::ref(stopped));
                std::vector<std::thread> rd; for (int k = 0; k < 2; k++) rd.emplace_back([&, k] { for (size_t i = k; i < pr.size(); i += 2) { while (weso->iterations < (int64_t)pr[i]) { std::this_thread::sleep_for(std::chrono::milliseconds(100)); } look(pr[i], "reader"); } for (size_t i = k; i < pr.size(); i += 2) look(pr[i], "second look"); });
                for (auto &t : rd) t.join(); if (s.max > 700000000) stopped = true; v.join(); if (!weso->LargeConstants()) sched::fail("mode", "no switch happened"); for (uint64_t p : pr) look(p, "afterwards"); if (weso->iterations > s.max - 500000 + 32768 + 10100) sched::fail("limit", "ran past the limit"); sched::outcome(s.name.substr(0, 24));
            }); }
    } else if (C.mode == "prove") {
        // the real two-segment prover at full scale, the recorder switching while it works
        two_weso = true; fast_algorithm = false; kSwitchIters = 91000000; kMaxItersAllowed = 800000000; setup(16190000, 0); sim::cut = nullptr;
        struct Sc { std::string name; std::vector<uint64_t> req; std::vector<double> at; double stop; int bound; uint64_t end; }; std::vector<Sc> sc;
        sc.push_back({"short", {1000}, {0}, -1, 2 + q, 65536}); sc.push_back({"tiny", {149, 150, 1}, {0, 0, 0}, -1, 1 + q, 65536}); sc.push_back({"two at once", {100000, 100017}, {0, 0}, -1, 1 + q, 3 << 16});
        sc.push_back({"below the switch, asked late", {90999999}, {9}, -1, 1, 97000000}); sc.push_back({"across the switch", {95000017}, {0}, -1, 1, 97000000}); sc.push_back({"just above the switch", {91000100}, {0}, -1, q, 97000000}); sc.push_back({"across the switch, asked late", {95000099, 91040000}, {20, 9}, -1, q, 97000000}); sc.push_back({"above 9/4 of the switch", {91000000ull * 9 / 4 + 5}, {0}, -1, 0, 91000000ull * 9 / 4 + 60000});
        for (double t : std::initializer_list<double>{0, 0.05, 0.15, 1.05, 2.5, 6.15}) sc.push_back({fmt("stop at %.2f", t), {1000, 300000}, {0, 0}, t, 1 + q, 3 << 16});
        for (auto &s : sc) { sched::Opt o; o.bound = s.bound; o.hot = 3; o.vlimit = 1e6; o.max_steps = 2000000; sim::pace = s.end > 1000000 ? 1 << 23 : 1 << 16; sim::endless = s.end; sim::rel.clear(); std::set<uint64_t> r; uint64_t sp = 91000000; (void)sp;
            for (uint64_t it : s.req) { uint64_t st = 0, n = it; for (int d = 0; d < 3; d++) { uint64_t len = d < 2 ? n * 2 / 3 / 100 * 100 : n; r.insert(st + len); r.insert((st + len) / 100 * 100); for (uint64_t i : sim::read_at(len, 10, len < 10000000 ? 1 : 10)) r.insert(st + i * 10 * (len < 10000000 ? 1 : 10)); st += len; n -= len; } } sim::rel.assign(r.begin(), r.end());
            sched::explore(s.name, o, [&] {
                reset(1); { sched::Quiet q; for (uint64_t p : sim::rel) { size_t a = p / 10; for (size_t i : {a, (size_t)(p > 91000000 ? 9100000 + (p - 91000000) / 100 : a)}) for (size_t j = i ? i - 1 : 0; j < i + 3 && j < tablen; j++) if (table[j].a.impl->_mp_d) mpz_set_ui(table[j].a.impl, 0); } if (table[0].a.impl->_mp_d) mpz_set_ui(table[0].a.impl, 1); }
                form f0 = sim::mk(0); integer L = root(-D, 4); std::atomic<bool> stopped{false}; std::vector<std::atomic<bool>> stp(s.req.size()); for (auto &x : stp) x = false; std::vector<Proof> res(s.req.size()); std::vector<std::thread> t;
                std::thread v(repeated_square, 0, f0, std::ref(D), std::ref(L), weso, nullptr, std::ref(stopped));
                for (size_t i = 0; i < s.req.size(); i++) t.emplace_back([&, i] { if (s.at[i] > 0) std::this_thread::sleep_for(std::chrono::duration<double>(s.at[i])); res[i] = ProveTwoWeso(D, f0, s.req[i], 0, weso, 0, stp[i]); });
                if (s.stop < 0) { for (auto &x : t) x.join(); stopped = true; } else { if (s.stop > 0) std::this_thread::sleep_for(std::chrono::duration<double>(s.stop)); stopped = true; for (auto &x : stp) x = true; for (auto &x : t) x.join(); } v.join();
                sched::Quiet q; std::string oc; for (size_t i = 0; i < res.size(); i++) { bool e = res[i].y.empty(); if (e && s.stop < 0) sched::fail("empty", fmt("request %llu got no proof", (unsigned long long)s.req[i])); if (!e) { std::string j = sim::judge(s.req[i], res[i].y, res[i].proof, res[i].witness_type); if (!j.empty()) sched::fail("bad-proof", fmt("request %llu: %s", (unsigned long long)s.req[i], j.c_str())); } oc += e ? " none" : " proof"; } sched::outcome(s.name + oc);
            }); }
    } else { fprintf(stderr, "mode?\n"); return 2; }
    return finish();
}
