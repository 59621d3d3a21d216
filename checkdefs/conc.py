def S(name, src, mode, **k):
    k.setdefault("flags", ["-fno-access-control"])
    return Job(name, "harness/" + src, mode, two_step=True, runtime=["sched/sched_rt.cpp"], opt="-O1", asm=True, cflags_only=["-g", "-fno-pie", "-fsanitize=thread"], link=["-ldl"], **k)
ASM = ["class-group arithmetic is replaced by its free model inside these harnesses (C01, C02, C07 and C12 decide the arithmetic and the provers themselves)", "interleavings are sequentially consistent; data races are reported separately by a happens-before monitor on every execution"]
CHECKS["C13"] = Check([S("self", "h_schedself.cpp", "self", budget_quick=60), S("deliver", "h_pm.cpp", "deliver", budget_quick=100), S("stop", "h_pm.cpp", "stop", budget_quick=200), S("storage", "h_pm.cpp", "storage", budget_quick=100), S("slow", "h_pm.cpp", "slow", budget_quick=120)],
    technique="stateless exploration of all interleavings of the real proof manager under a controlled scheduler up to a delay bound",
    note="The real squaring loop, recorder, event loop, segment provers, proof requests and stop run as real threads under a scheduler that enumerates every interleaving with up to 1-2 departures (2-3 thorough) from the default order at every lock, wait, notify, sleep and atomic access. Scenarios: one to three requests (equal, below a segment, several segments, late), 1-3 prover threads, one prover slower than the rest in 108 placements, background storage on, stop while requests are unserved. Every delivered proof is judged by the model verifier (segments tile the iterations, endpoints, challenges, order), every checkpoint read by a prover is checked, plus deadlock, hang, lost wakeup, thread leak, use of destroyed mutexes and happens-before data races. A self-test of 15 planted concurrency bugs and repairs runs first.", assumptions=ASM, rule="a state is one scheduling decision reached; a transition one scheduling step; a trace one complete execution of the real code")
CHECKS["C14"] = Check([S("complete", "h_fs.cpp", "complete", budget_quick=100), S("shutdown", "h_fs.cpp", "shutdown", budget_quick=60), S("storage", "h_pm.cpp", "storage", budget_quick=100)],
    technique="stateless exploration of all interleavings of the real background storage under a controlled scheduler up to a delay bound",
    note="The real storage workers, submitter and consumer under every interleaving up to the delay bound: checkpoints in order, halves and segments out of order, several tables, shutdown idle, busy and immediately. When a position is reported finished every slot of every table up to it is compared with its exponent; at the end the finished position and all slots must be complete; shutdown must join all workers; happens-before races are reported on every execution.", assumptions=ASM, rule="a state is one scheduling decision reached; a transition one scheduling step; a trace one complete execution of the real code")
CHECKS["C16"] = Check([S("clean", "h_pipe.cpp", "clean", budget_quick=100), S("fault", "h_pipe.cpp", "fault", budget_quick=150), S("step", "h_pipe.cpp", "step", budget_quick=60)],
    technique="stateless exploration of all interleavings of the real two-thread pipeline under a controlled scheduler up to a delay bound, with fault enumeration; instruction-level exploration of the kernel's publication order",
    note="The real repeated_square_fast_multithread with real arithmetic: one to three squarings of 256- to 1024-bit discriminants, both kernels, every atomic access of the counter protocol a scheduling point, up to 2-3 departures from the default schedule (3-4 thorough). Faults: each GCD of either thread failing after 0, 1, 2 or all entries, bit flips at every injection site, either thread giving up at its n-th spin for every n, all combined with one departure. Judged: count, form, report of every iteration, unchanged form on corruption, joint termination, happens-before races over all shared operands. The assembler kernels publish through an interposer under the scheduler; that they publish in that order is checked by single-stepping them and inspecting counter and entries after every instruction.",
    assumptions=["interleavings are sequentially consistent (x86 store order makes the kernel's plain stores release stores); data races are reported by a happens-before monitor on every execution"], rule="a state is one scheduling decision or machine instruction reached; a transition one scheduling step; a trace one complete execution of the real code")
CHECKS["C15"] = Check([S("rec", "h_two.cpp", "rec", budget_quick=100), S("cap", "h_two.cpp", "cap", budget_quick=60), S("loop", "h_two.cpp", "loop", budget_quick=60), S("prove", "h_two.cpp", "prove", budget_quick=120)],
    technique="stateless exploration of all interleavings of the real two-segment recorder, squaring loop and prover under a controlled scheduler up to a delay bound",
    note="The real recorder with every shared access a scheduling point: recorder, switch and up to three readers, up to 2-3 departures from the default order (3-4 thorough); readers that wait for the published count, and readers that learn of a recording without synchronisation (the recorder's own lock must order them). The real squaring loop with the switch brought within reach, batches ending early at every residue of the round-up to 100, the switch at and next to a checkpoint, the end of the allowed range. The real two-segment prover at full scale (91 million iterations, sparse mode entered while it works), early, late and concurrent requests, a stop at six points. Every lookup is compared with its exponent; capacity excess must be refused and the memory behind the table stay untouched; happens-before races on every execution.", assumptions=ASM, rule="a state is one scheduling decision reached; a transition one scheduling step; a trace one complete execution of the real code")
def S18(name, mode, maxt=40, **k):
    return S(name, "h_session.cpp", mode, flags=["-fno-access-control", "-DSIM_GEN", "-DSCHED_MAXT=%d" % maxt, "-fsanitize=bounds-strict", "-fsanitize-undefined-trap-on-error"],
        gen=[("callback.h", r"(kSwitchIters|kMaxItersAllowed)\s*=\s*[^=;][^;]*;", r"\1 = sim_\1;"), ("callback.h", r"checkpoints_capacity\s*=\s*[^=;][^;]*;", "checkpoints_capacity = 1 << 8;")], **k)
CHECKS["C18"] = Check([S18("simple", "simple", budget_quick=60), S18("nweso", "nweso", budget_quick=150), S18("two", "two", budget_quick=120), S18("broken", "broken", budget_quick=120), S18("hundred", "hundred", 512, budget_quick=60)],
    technique="stateless exploration of all interleavings of whole sessions of the real client under a controlled scheduler up to a delay bound, over enumerated peer histories",
    note="The real client main and all three session kinds run against a scripted peer behind a simulated socket (the repository's own asio read and write calls on top), with one to two departures from the default order (two to three thorough) at every lock, wait, sleep, atomic and socket operation. Histories: one and several requests, equal ones, unreachable ones, beyond the allowed range, a hundred and more in ascending and descending order, stop at once, early, after every answer; end of stream or reset at every stage of greeting, request, answer and acknowledgement, with later writes failing or succeeding; eight malformed requests at three stages; eight unusable discriminants, an invalid form; writes failing at eight byte positions; bytes arriving one at a time and leaving in small pieces. The bytes received are parsed: exactly one frame per honoured request, no other, each judged by the model verifier, STOP last and announced; the client must return, with no thread left, no crash, no race, no array index out of bounds.",
    assumptions=ASM + ["table sizes of the recorders are reduced (C11, C15 decide them at full size)"], rule="a state is one scheduling decision reached; a transition one scheduling step; a trace one complete session of the real client")
