// Self-test of the controlled scheduler: it must find planted concurrency bugs and stay quiet on the repaired versions.
#include "../sched/vsched.h"
#include "vh.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
using namespace vh;
struct Toy { const char *name; int bound; std::function<void()> f; const char *expect; };
template <class F> static void spawn2(F a, F b) { std::thread x(a), y(b); x.join(); y.join(); }
int main(int argc, char **argv) {
    init(argc, argv); uint64_t total = 0; (void)total;
    std::vector<Toy> toys;
    toys.push_back({"race", 1, [] { int n = 0; std::thread a([&] { n++; }), b([&] { n++; }); a.join(); b.join(); }, "data-race"});
    toys.push_back({"locked counter", 2, [] { int n = 0; std::mutex m; auto f = [&] { for (int i = 0; i < 2; i++) { std::lock_guard<std::mutex> l(m); n++; } }; std::thread a(f), b(f); a.join(); b.join(); if (n != 4) sched::fail("value", "wrong"); sched::outcome(fmt("n=%d", n)); }, ""});
    toys.push_back({"atomic read-modify-write split", 1, [] { std::atomic<int> n{0}; auto f = [&] { int v = n; n = v + 1; }; std::thread a(f), b(f); a.join(); b.join(); if (n != 2) sched::fail("value", "lost update"); }, "value"});
    toys.push_back({"three-way window", 3, [] { std::atomic<int> x{0}, y{0}; std::thread a([&] { x = 1; x = 0; }), b([&] { int p = x; int q = y; if (p == 1 && q == 1 && x == 0) sched::fail("value", "window"); }), c([&] { y = 1; y = 0; }); a.join(); b.join(); c.join(); }, "value"});
    toys.push_back({"ABBA", 1, [] { std::mutex p, q; std::thread a([&] { std::lock_guard<std::mutex> l(p); std::lock_guard<std::mutex> k(q); }), b([&] { std::lock_guard<std::mutex> l(q); std::lock_guard<std::mutex> k(p); }); a.join(); b.join(); }, "deadlock"});
    toys.push_back({"lost wakeup", 2, [] { std::mutex m; std::condition_variable cv; std::atomic<bool> go{false}; std::thread a([&] { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return go.load(); }); }); go = true; cv.notify_one(); a.join(); }, "deadlock"});
    toys.push_back({"wakeup under lock", 2, [] { std::mutex m; std::condition_variable cv; bool go = false; std::thread a([&] { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return go; }); }); { std::lock_guard<std::mutex> l(m); go = true; } cv.notify_one(); a.join(); }, ""});
    toys.push_back({"spin handshake", 2, [] { std::atomic<int> a{0}, b{0}; int d = 0; std::thread t([&] { while (a < 1); d++; b = 1; while (a < 2); d++; b = 2; }); d = 5; a = 1; while (b < 1); if (d != 6) sched::fail("value", "x"); a = 2; while (b < 2); t.join(); if (d != 7) sched::fail("value", "y"); }, ""});
    toys.push_back({"livelock", 0, [] { std::atomic<int> a{0}; std::thread t([&] { while (a < 1); }); while (a < 1); t.join(); }, "hang"});
    toys.push_back({"relaxed publication", 1, [] { std::atomic<bool> r{false}; int d = 0; std::thread t([&] { d = 1; r.store(true, std::memory_order_relaxed); }); if (r.load(std::memory_order_relaxed)) { volatile int z = d; (void)z; } t.join(); }, "data-race"});
    toys.push_back({"acquire publication", 2, [] { std::atomic<bool> r{false}; int d = 0; std::thread t([&] { d = 1; r.store(true, std::memory_order_release); }); if (r.load(std::memory_order_acquire)) { if (d != 1) sched::fail("value", "x"); sched::outcome("seen"); } else sched::outcome("not seen"); t.join(); }, ""});
    toys.push_back({"sleep loop", 2, [] { std::atomic<bool> r{false}; std::thread t([&] { std::this_thread::sleep_for(std::chrono::seconds(5)); r = true; }); int n = 0; while (!r) { std::this_thread::sleep_for(std::chrono::seconds(1)); n++; } t.join(); sched::outcome(fmt("%d polls", n)); }, ""});
    toys.push_back({"timed wait", 1, [] { std::mutex m; std::condition_variable cv; bool go = false; std::thread t([&] { { std::lock_guard<std::mutex> l(m); go = true; } cv.notify_all(); }); { std::unique_lock<std::mutex> l(m); bool r = cv.wait_for(l, std::chrono::seconds(3), [&] { return go; }); sched::outcome(r ? "signalled" : "timeout"); } t.join(); }, ""});
    toys.push_back({"endless sleep loop", 0, [] { std::atomic<bool> r{false}; while (!r) std::this_thread::sleep_for(std::chrono::seconds(1)); }, "hang"});
    toys.push_back({"uncaught exception", 0, [] { std::thread t([] { throw 1; }); t.join(); }, "crash"});
    // results are judged here, so run every toy in one shard and intercept the verdicts
    C.nshards = 1; C.shard = 0; uint64_t bad = 0; std::string report;
    for (auto &t : toys) {
        auto k0 = C.keys; uint64_t v0 = C.nviol, e0 = C.traces; FILE *vf = C.vf; C.vf = fopen("/dev/null", "w"); C.keys.clear();
        sched::Opt o; o.bound = t.bound; o.delay = false; o.max_steps = 20000; o.vlimit = 1000; sched::explore(t.name, o, t.f);
        fclose(C.vf); C.vf = vf; std::string got; for (auto &k : C.keys) if (got.empty() || k == t.expect) got = k; C.keys = k0; C.nviol = v0;
        report += fmt("%s: %s (%llu schedules); ", t.name, got.empty() ? "clean" : got.c_str(), (unsigned long long)(C.traces - e0));
        if (got != t.expect) { viol("selftest", fmt("engine self-test '%s': expected '%s', got '%s'", t.name, t.expect, got.c_str())); bad++; }
        outcome(fmt("%s -> %s", t.name, got.empty() ? "clean" : got.c_str()));
    }
    sample(report); return finish();
}
