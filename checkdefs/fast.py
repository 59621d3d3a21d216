def J(name, src, mode, **k): return Job(name, "harness/" + src, mode, asm=True, **k)
CHECKS["C03"] = Check([J("script", "h_fast.cpp", "script", budget_quick=60), J("small", "h_fast.cpp", "small", budget_quick=60), J("fault", "h_fast.cpp", "fault", budget_quick=120), J("sizes", "h_fast.cpp", "sizes", budget_quick=120), J("avx512", "h_fast.cpp", "avx512", budget_quick=60), J("traj", "h_fast.cpp", "traj", budget_quick=200)],
    technique="exhaustive enumeration of batch outcomes, fault positions, discriminant sizes and instruction sets on the real squaring loop against an independent reference",
    note="The real repeated_square with its batch length reduced to a few squarings: every sequence of four (five) batch outcomes (any number of iterations done, corruption after any number of reports) from a scripted batch function; the real one- and two-thread pipelines at every discriminant size around the word, table and fast/slow limits (every size 16..1056 bits in thorough) from five start forms each, on plain, AVX2 and AVX-512 code; every reduced form of every small prime discriminant; one bit flipped at every injection site of the pipeline; full 10000-iteration batches across the 32768-iteration checkpoints. Every reported value, the order and completeness of reports, the resume point after corruption and the announced count are compared with independently computed powers. AVX-512 products: every operand shape of every instantiated size against GMP.",
    assumptions=["the two-thread pipeline runs in its natural schedule here (its interleavings are C16)"],
    rule="a state is one reported iteration or batch result; a transition likewise; a trace one complete run of the loop")
