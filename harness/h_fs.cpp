// C14: background storage of intermediates under every (bounded) interleaving of submission, workers, consumer and shutdown.
#include "sim_vdf.h"
using namespace vh;
struct Sc { std::string name; int segs; std::vector<uint64_t> order; bool consumer; double stop; int bound; };
int main(int argc, char **argv) {
    init_gmp(); init(argc, argv); integer D(-1000003 * 8 + 1); int q = C.thorough() ? 1 : 0; const uint64_t H = 1 << 15;
    std::vector<Sc> sc;
    if (C.mode == "complete") {
        sc.push_back({"one segment in order", 1, {0, H}, true, -1, 1 + q});
        sc.push_back({"two segments, two tables", 2, {0, H, 2 * H, 3 * H}, true, -1, 1});
        sc.push_back({"second half first", 1, {H, 0}, true, -1, 1 + q});
        sc.push_back({"later segment first", 1, {2 * H, 3 * H, 0, H}, true, -1, 1});
        sc.push_back({"eighth segment", 3, {14 * H, 15 * H}, false, -1, 1});
    } else {
        sc.push_back({"shutdown", 1, {0, H, 2 * H}, false, 5, 1 + q});
        sc.push_back({"shutdown with consumer", 1, {0, H}, true, 5, 1 + q});
        sc.push_back({"shutdown at once", 1, {}, false, 0, 1 + q});
    }
    for (auto &s : sc) {
        form f0 = sim::mk(0); auto *weso = new FastAlgorithmCallback(s.segs, D, f0, true); sched::Opt o; o.bound = s.bound; o.hot = 2; o.max_steps = 4000000; o.vlimit = 1e4;
        std::set<uint64_t> have(s.order.begin(), s.order.end()); uint64_t lim = 0; while (have.count(lim) && have.count(lim + H)) lim += 2 * H;
        static uint64_t ncalls; 
        auto each = [&](uint64_t from, uint64_t to, int segs, auto fn) { for (int b = 0; b < segs; b++) { uint64_t p = 1ull << (16 + 2 * b), kl = b ? 12 * (p >> 18) : 10; for (uint64_t base = from - from % p; base < to; base += p) for (uint64_t e = base; e < base + p && e < to; e += kl) if (e >= from) fn(e, b, weso->forms[weso->buckets_begin[b] + (e / p) % 20 * (b ? 21846 : 6554) + (e % p) / kl]); } };
        // every slot this history may fill: position -> exponent
        auto check = [&, segs = s.segs](uint64_t from, uint64_t to, bool strict) {
            sched::Quiet q; each(from, to, segs, [&](uint64_t e, int b, form &f) {
                if (!sim::is(f, e) && (strict || mpz_sgn(f.a.impl))) sched::fail("intermediate", fmt("slot of exponent %llu in table %d holds %s%s", (unsigned long long)e, b, mpz_sgn(f.a.impl) ? sim::show(f).c_str() : "nothing", strict ? " although its segment is reported finished" : "")); });
        };
        // instrumented reads of a few slots, as a prover would
        auto probe = [&](uint64_t from, uint64_t to) { for (uint64_t e : std::initializer_list<uint64_t>{from, from + 10, from + 32760, from + 32770, to - 6}) { form t = *weso->GetForm(e, 0); (void)t; } };
        auto body = [&] {
            { sched::Quiet q; new_event = false; for (uint64_t it : have) each(it, it + H, s.segs, [](uint64_t, int, form &f) { if (mpz_sgn(f.a.impl)) mpz_set_ui(f.a.impl, 0); }); }
            auto *fs = new FastStorage(weso); std::atomic<bool> quit{false}; std::atomic<uint64_t> seen{0};
            std::thread cons; if (s.consumer) cons = std::thread([&] {
                uint64_t got = 0; while (got < lim) {
                    { std::unique_lock<std::mutex> lk(new_event_mutex); new_event_cv.wait(lk, [] { return new_event; }); new_event = false; }
                    if (quit) return; uint64_t f = fs->GetFinishedSegment(); if (f % 65536 || f < got || f > lim) sched::fail("finished", fmt("finished position went from %llu to %llu (submitted up to %llu)", (unsigned long long)got, (unsigned long long)f, (unsigned long long)lim));
                    if (f > got) { check(got, f, true); probe(got, f); got = f; seen = f; }
                }
            });
            std::thread sub([&] { for (uint64_t it : s.order) { if (quit) return; fs->SubmitCheckpoint(sim::mk(it), it); } });
            if (s.stop < 0) {
                if (cons.joinable()) cons.join(); sub.join();
                if (!s.consumer) { // wait until every worker is idle again, then the pending work is done
                    std::this_thread::sleep_for(std::chrono::seconds(1)); }
                if (s.order.size()) { uint64_t mx = *have.rbegin(); std::this_thread::sleep_for(std::chrono::seconds(1)); for (uint64_t it : have) check(it, it + H, true); (void)mx; }
                uint64_t f = fs->GetFinishedSegment(); if (f != lim) sched::fail("finished", fmt("finished position %llu, expected %llu", (unsigned long long)f, (unsigned long long)lim)); delete fs;
            } else {
                if (s.stop > 0) std::this_thread::sleep_for(std::chrono::duration<double>(s.stop)); quit = true; sub.join();
                { std::lock_guard<std::mutex> lk(new_event_mutex); new_event = true; } new_event_cv.notify_all(); if (cons.joinable()) cons.join();
                delete fs; for (uint64_t it : have) check(it, it + H, false);
            }
            { sched::Quiet q; uint64_t mx = have.empty() ? 0 : *have.rbegin() + H; int filled = 0; for (uint64_t e = 0; e < mx; e += 10) if (sim::is(*weso->GetForm(e, 0), e)) filled++; sched::outcome(s.stop < 0 ? s.name + ": complete" : fmt("%s: %s", s.name.c_str(), filled <= 1 ? "nothing stored" : filled < (int)(mx / 10) ? "partly stored" : "all stored")); }
        };
        sched::explore(s.name, o, body); delete weso;
    }
    (void)0; return finish();
}
