HWSRC = ["hw/ftdi_driver.cpp", "hw/vdf_driver.cpp", "hw/chia_driver.cpp", "hw/pll_freqs.cpp", "hw/hw_util.cpp", "hw/hw_interface.cpp", "vdf_base_hw.cpp", "vdf_hw_symbol_anchors.cpp", "prover_runtime.cpp"]
def H(name, src, mode, **k): return Job(name, "harness/" + src, mode, lzcnt=True, repo_srcs=HWSRC, **k)
CHECKS["C23"] = Check([H("enc", "h_hwcodec.cpp", "enc", budget_quick=100), H("dec", "h_hwcodec.cpp", "dec", budget_quick=100), H("job", "h_hwcodec.cpp", "job"), H("status", "h_hwcodec.cpp", "status")],
    technique="exhaustive enumeration of coefficient values and register contents on the real driver, down to SPI transfers decoded by a register model",
    note="Encoder: every value of every coefficient of the three field widths (A/F complete, D and L complete in thorough), three fillers, both signs, and all powers of two +-2; decoder: every 19-bit pattern (redundant, negative) of each of 34 coefficients with three (six) neighbour patterns, compared with a bit-level reference. Whole jobs through hw_interface, the USB driver and an SPI-level register model for three engines, over stale registers, also decoded by the emulator; status blocks for all engine masks in canonical and redundant form; transfers of every size 1..1100.",
    assumptions=["the vendor USB library (absent here) is replaced by a register model at its C interface", "representable magnitude: below 2^(16(n-1)+18) for n coefficients"],
    rule="a state is one (field, coefficient values) or (job/status contents); a transition one driver call; a trace one enumeration block")
CHECKS["C24"] = Check([H("pll", "h_hwcodec.cpp", "pll")],
    technique="exhaustive enumeration of table entries, requests and acknowledgement histories on the real driver with a register model",
    note="All 8003 entries against the divider formula, order and field widths; for each the request at, one ulp below and above, midway and just above the previous entry, and by explicit index: dividers, filter range, programming order, read-back frequency; requests above the table; every combination of 8 divider-acknowledge delays, 8 lock delays and 13 failing polls for three entries.",
    assumptions=["the vendor USB library is replaced by a register model"],
    rule="a state is one (request, acknowledgement history); a transition one SetPLLFrequency call")

HWP = HWSRC + ["hw/hw_proof.cpp"]
def HP(name, src, mode, **k): return Job(name, "harness/" + src, mode, lzcnt=True, repo_srcs=HWP, link=["-ldl", "-Wl,--wrap=_ZN10FtdiDriver4ReadEjPhm"], **k)
CHECKS["C25"] = Check([HP("read", "h_hwsim.cpp", "read", budget_quick=300), HP("forms", "h_hwsim.cpp", "forms")],
    technique="explicit exploration of every sequence of accelerator readings and worker-completion choices up to a depth on the real event loop and intake code, closed with a register-level accelerator model",
    note="Real event_loop, SPI driver and register codec; an alphabet of 22 readings (advance, grid, skip, target, repeat, zero, idle, corrupted a/b, shifted b, negated a, count beyond the end), failing status reads with an earlier or another status left in memory, and restarts whose writes fail (all, enabling, either job transfer), with worker scheduling choices (none, all, oldest, newest): all sequences to depth 3 (4 over the core letters), depth 4 (6) in thorough, two discriminant sizes and two engines, accelerator death (same reading 9..70 times), work piling up, each followed by a healthy accelerator until the run is complete; after every reading the whole record is compared with the true powers. All (a,b) in a box for a 12 (13) bit discriminant: accepted exactly when they are positive forms.",
    assumptions=["the vendor USB library is replaced by a register model", "a worker runs to completion once scheduled (workers share only flags and disjoint values); their fine-grained interleaving is C26's concern"],
    rule="a state is one inspected record (or one reading in the box); a transition one reading given; a trace one complete run")
CHECKS["C26"] = Check([HP("plan", "h_hwsim.cpp", "plan", budget_quick=300), HP("long", "h_hwsim.cpp", "long"), HP("e2e", "h_hwsim.cpp", "e2e", budget_quick=400)],
    technique="explicit exploration of every request / progress / completion / retrieval sequence up to a depth on the real scheduling code, plus complete enumeration of request pairs with real proofs checked by an independent verifier",
    note="plan: 13 (17) events (6 (10) request sizes around the 1M and 2.25M split points, 4 kinds of accelerator progress, oldest/newest proof done, retrieve), all sequences to depth 6 (7), then drained; again to depth 4 (5) from six states whose chains have 57..64 segments. long: 2088 parametric histories of 110 (200) requests. Invariants after every event: chains contiguous, aligned, summing, at most 64, no freed or lost segment, no lost or doubled request. e2e: all single requests of 12 iterations and ordered pairs of 6 (12) of them (thorough: triples) (together and in sequence, both completion orders) and requests equal to checkpoints: real workers, real frames, independent verification.",
    assumptions=["in plan/long a worker's end is represented by the flag updates of hw_compute_proof; e2e runs the real one", "requests do not exceed the run length"],
    rule="a state is one scheduler state after an event; a transition one event; a trace one history")

# the whole hardware client under the scheduler: intervals and thresholds of hw_proof.hpp/.cpp and the run length are reduced
HWC_GEN = [("hw/hw_proof.cpp", r"g_chkp_thres\s*=\s*[^=;][^;]*;", "g_chkp_thres = 100;"), ("hw/hw_proof.cpp", r"g_values_mult\s*=\s*[^=;][^;]*;", "g_values_mult = 4;"),
           ("hw/hw_proof.hpp", r"#\s*define\s+HW_VDF_VALUE_INTERVAL[ \t]+.*", "#define HW_VDF_VALUE_INTERVAL 20"), ("hw/hw_vdf_client.cpp", r"2000(?:UL|ULL)?\s*\*\s*1000(?:UL|ULL)?\s*\*\s*1000(?:UL|ULL)?|1000(?:UL|ULL)?\s*\*\s*1000(?:UL|ULL)?\s*\*\s*2000(?:UL|ULL)?|2\'?000\'?000\'?000(?:UL|ULL)?", "sim_n_iters")]
def HC(name, mode, maxt=40, **k):
    return Job(name, "harness/h_hwc.cpp", mode, two_step=True, lzcnt=True, runtime=["sched/sched_rt.cpp"], opt="-O1", cflags_only=["-g", "-fno-pie", "-fsanitize=thread"], flags=["-fno-access-control", "-D_FORTIFY_SOURCE=2", "-fsanitize=bounds-strict", "-fsanitize-undefined-trap-on-error", "-DSCHED_MAXT=%d" % maxt], link=["-ldl"], gen=HWC_GEN,
               repo_srcs=["@harness/hw_arith.cpp", "@harness/hw_arith_ref.cpp", "vdf_base_hw.cpp", "prover_runtime.cpp", "hw/pll_freqs.cpp"], **k)
HWA = ["the accelerator is simulated at hw_interface (C23-C25 decide what lies below), sockets at the system call", "value interval, checkpoint threshold and run length are reduced (C26 decides the plan at full size)", "interleavings are sequentially consistent; data races are reported separately by a happens-before monitor on every execution"]
CHECKS["C29"] = Check([HC("serve", "serve", budget_quick=150), HC("stop", "stop", budget_quick=240), HC("restart", "restart", budget_quick=90)],
    technique="stateless exploration of all interleavings of whole sessions of the real hardware client under a controlled scheduler up to a delay bound",
    note="The real hw_vdf_client main, event loop, intake, value workers and proof threads (real class-group arithmetic on 50- and 64-bit discriminants) against scripted timelords and a simulated accelerator delivering true, repeated or corrupted readings at a scripted pace, under every interleaving with up to one or two departures (one more in thorough) from the default order. Scenarios: single, several, out-of-order, repeated requests with and without checkpoints, two engines, two sessions in a row, stop at once / while a value or proof is computed / with work queued followed by another session on the same state, termination at several moments, corrupted and stuck accelerators; slow (emulated) and fast event loop. Every frame is parsed and judged by an independent verifier (endpoint, segments, challenges), each request answered exactly once, nothing after STOP, engines started and stopped in pairs from values of the computation, no deadlock, hang, thread leak, crash or happens-before race.",
    assumptions=HWA, rule="a state is one scheduling decision reached; a transition one scheduling step; a trace one complete run of the real client")
CHECKS["C30"] = Check([HC("conn", "conn", 80, budget_quick=150), HC("faults", "faults", budget_quick=100), HC("challenge", "challenge", budget_quick=120)],
    technique="exhaustive enumeration of peer histories, byte-level splits and connection faults on the real hardware client under a controlled scheduler",
    note="Each history is one complete run of the real client and is followed by a normal session that must be served. Arrival: the stream of a session split at every byte and read 1..132 bytes at a time, both event loops; numbers of 2 to 20 digits, every iteration up to the end of a short run, 19 requests in the segment of the challenge (more than the buffer), four stop spellings with four tails, equal and unreachable requests at every place, 1..8 refused connections. Faults: end of stream and reset after every byte, after every answer, at ten moments with work under way; writes failing after enumerated byte counts, short and blocked writes, 16 malformed requests at three stages beside another session on a second engine. Challenges: every first byte, every discriminant size field (thinned in the middle, complete in thorough), every form size, 26 unusable discriminants, every byte of the form altered. Judged: which requests are answered, every frame by the independent verifier, stop announced once, no descriptor leaked, engines paired and only ever started on a form of the discriminant, no SIGPIPE, no crash, exit code.",
    assumptions=HWA, rule="a state is one scheduling decision reached; a transition one scheduling step; a trace one history run on the real client")
CHECKS["C33"] = Check([Job(m, "harness/h_hwopts.cpp", m, repo_srcs=["hw/pll_freqs.cpp"], opt="-O1", link=["-Wl,--unresolved-symbols=ignore-all"], budget_quick=60) for m in ("one", "two", "three")],
    technique="exhaustive enumeration of command lines up to three options against a separate statement of the documented grammar",
    note="About 150 single options in both spellings (every boundary of every range, values that are not numbers, trailing text, NaN and infinities, values that only fit after truncation to 8, 32 or 64 bits) x every positional tail in every position, all pairs of them around a port, and triples of those with related ranges, through the real parser, engine selection and program entry with a recording stand-in for the device; values that mean what is written, exit status and the absence of any device access on refusal are compared with the reference.",
    assumptions=["strtod/strtoull/inet_pton behave as specified"],
    rule="a state is one command line; a transition one parse or one program run; a trace one block of command lines")
CHECKS["C34"] = Check([Job(m, "harness/h_board.cpp", m, lzcnt=True, repo_srcs=HWSRC, flags=["-ftrivial-auto-var-init=pattern"], budget_quick=120) for m in ("volt", "temp", "fault", "seq")],
    technique="exhaustive enumeration of transport failures (single, double, lasting) at every vendor call of every operation and operation sequence, on the real driver closed with a model of the vendor library and the board",
    note="Real FtdiDriver, VdfDriver and hw_interface on a model of handles, SPI/I2C modes, GPIO directions, reset line, PLL, regulator and current sensor. fault: 44 operations (transfers of 1..700 bytes, PLL, voltage, current, power, alarms, temperature, reset, fan, reopening, init_hw) x every vendor call x {fails, fails after its effect, incomplete} x every later second failure, and the transport dead from there on; then repeated and a full set of operations without failures. seq: all pairs of operations with every single failure, all triples without (thorough: with every single failure). volt: every 10 uV from -10 mV to 2.5 V, all codes and their neighbours, wrapping multiples, NaN and infinities; every regulator and current code. temp: every temperature and threshold code with flag bits, alarm temperatures every 0.01 degrees from absolute zero to 2000.",
    assumptions=["the vendor USB library and the board are a model at the library's C interface", "a transfer the library reports as complete was carried out", "uninitialised stack memory is filled with a pattern"],
    rule="a state is one judged operation; a transition one operation of the driver; a trace one operation sequence under one failure plan")

def HE(mode, **k):
    return Job(mode, "harness/h_emu.cpp", mode, two_step=True, lzcnt=True, runtime=["sched/sched_rt.cpp"], opt="-O1", cflags_only=["-g", "-fno-pie", "-fsanitize=thread"], flags=["-fno-access-control", "-D_FORTIFY_SOURCE=2", "-DSCHED_MAXT=40"], link=["-ldl"],
               repo_srcs=["hw/pll_freqs.cpp", "hw/ftdi_driver.cpp", "hw/vdf_driver.cpp", "hw/chia_driver.cpp", "hw/hw_interface.cpp", "hw/emu_funcs.cpp", "vdf_base_hw.cpp", "vdf_hw_symbol_anchors.cpp", "prover_runtime.cpp"], **k)
CHECKS["C35"] = Check([HE("one", budget_quick=250), HE("many", budget_quick=150), HE("regs", budget_quick=100)],
    technique="stateless exploration of all operation sequences up to a depth, each under all interleavings with the emulator's job threads up to a delay bound, plus enumeration of all register windows",
    note="The real stack below the event loop of emu_hw_vdf_client (hw_interface, register codec, USB driver, emulated vendor library, emulator), compiled under a controlled scheduler. one: every sequence of start (three jobs), stop, read, wait, change the clock, end the program of length 1..3 on one engine under every interleaving with up to two departures, and of length 4 and 5 (smaller alphabets) with one (thorough: one more each). many: two and three engines, length 2..4. Every reading compared with the true powers of that engine's job, iteration never falling back, stopped engines idle, every job run to its end also after clock changes, program end at any moment; happens-before races, leaks, deadlocks, crashes. regs: 67000 windows (every start, every size) of the status registers in three states against registers read alone, jobs written in transfers of every bus size and every split, clock programming through the emulated library.",
    assumptions=["jobs are 0 to 3 squarings of 50/64-bit discriminants in one/many, 25 to 40 of 1024 bits in regs", "errors are not injected (EMU_ERROR_PROB unset)", "interleavings are sequentially consistent; data races are reported separately by a happens-before monitor"],
    rule="a state is one scheduling decision reached (regs: one window or split); a transition one scheduling step; a trace one complete run")
