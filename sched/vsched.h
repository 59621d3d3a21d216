// Controlled scheduler: exhaustive exploration of thread interleavings of real code up to a preemption bound.
// The code under test is compiled with -fsanitize=thread and linked with sched_rt.cpp instead of the TSan runtime.
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace sched {
struct Opt {
    int bound = 2;              // preemptions (incl. early wake-ups) per execution
    bool delay = true;          // choosing another thread than the default at a blocking point also costs 1
    long max_steps = 400000;    // scheduling points per execution before it counts as a hang
    int hot = 4;                // per (thread, code location): this many atomic accesses are scheduling points
    double vlimit = 36000;      // seconds of virtual time before an execution counts as a hang
    bool races = true;
    int spurious = 0;           // 1: a waiting thread may also wake spuriously (costs 1)
    long max_exec = 1L << 60;   // executions per unit (exceeding it is reported as capped)
    bool fork_each = false;     // one process per execution (when the body cannot be repeated in one process)
};
// body runs once per execution as thread 0 under the scheduler; it must reset all state it depends on.
void explore(const std::string &name, const Opt &o, const std::function<void()> &body);
// called by monitors inside the body: records a violation for this schedule and ends the execution
[[noreturn]] void fail(const std::string &key, const std::string &desc);
bool active();
double now();                  // virtual seconds
long executions();
void progress();               // the calling thread is not spinning (used by uninstrumented stand-ins)
void yield_point();            // extra scheduling point
void outcome(const std::string &s);   // distinct result of this execution
// ordinary code that must not be scheduled or race-checked
struct Quiet { Quiet(); ~Quiet(); };
}
