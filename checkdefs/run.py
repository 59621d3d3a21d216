def J(name, src, mode, **k): return Job(name, "harness/" + src, mode, asm=True, **k)
CHECKS["C11"] = Check([J("fast", "h_ckpt.cpp", "fast", budget_quick=100), J("one", "h_ckpt.cpp", "one", budget_quick=60), J("two", "h_ckpt.cpp", "two", budget_quick=100)],
    technique="exhaustive enumeration of recorder states and lookups on the real recorders, forms encoding their exponent",
    note="n-segment recorder: every iteration from the start with 1..4 segment sizes until every window has wrapped, plus for all 8 sizes the complete grid of full windows (20 segments) at eight ring offsets with both neighbours; all slots pairwise distinct; checkpoint table up to and past its 2^34 limit; guard pages behind every table. One-proof recorder: every count up to 3000 (12000), +-40 around powers of two, strides equal to the prover's. Two-segment recorder: complete 8*10^8-iteration history at the first and last possible switch point, small histories with the switch at several points and every lookup after every step, capacity limits.",
    assumptions=["n-segment values are looked up within 20 segments of the newest (the recorder's documented window)"],
    rule="a state is one (recorder history, exponent) lookup; a transition one recorded iteration; a trace one history")
CHECKS["C12"] = Check([J("tables", "h_seg.cpp", "tables", budget_quick=100), J("one", "h_seg.cpp", "one", budget_quick=60), J("two", "h_seg.cpp", "two", budget_quick=60), J("inter", "h_seg.cpp", "inter", budget_quick=100)],
    technique="exhaustive enumeration of segment lengths, table spacings and stop/pause positions on the real provers",
    note="The common proof generator (serial and two-thread) for every length 1..230 (700) with every (k,l) up to (11,10), four discriminant sizes; one-proof, two-segment and pausable provers over every length of a range, different starts and the real 2^16/2^18 (2^20) segments; a stop at every single step of the signal-driven provers; a pause-resume or pause-stop at a dense grid of steps (every one of 8601 in thorough), all pairs of 13 boundary steps, stops arriving from another thread; result compared with an independently computed proof, which is unique.",
    assumptions=["checkpoints given to a prover are correct (C11)"],
    rule="a state is one (prover, length, spacing, stop/pause placement); a transition one proof compared; a trace one enumeration block")
CHECKS["C22"] = Check([J("partial", "h_gcd.cpp", "partial", budget_quick=60), J("base", "h_gcd.cpp", "base", budget_quick=60), J("g128", "h_gcd.cpp", "g128", budget_quick=60), J("uns", "h_gcd.cpp", "uns", budget_quick=90)],
    technique="exhaustive enumeration of operand pairs and quotient sequences on the real kernels of both instruction sets",
    note="Partial extended GCD and the base, 128-bit and full accelerated kernels (plain and AVX2, generated from the tree's assembler source): every small operand pair with every bound, and operands built from every quotient word over 66 quotients (around machine-word, double and table limits) at up to nine sizes with bounds at and next to remainders. Every returned matrix is checked for determinant, exact remainders, membership in Euclid's sequence and, in leading-bits mode, validity for every continuation of the operands; the full kernel must stop exactly at the bound; buffers end at guard pages.",
    assumptions=["operands satisfy the kernels' precondition a >= b >= 0, a >= bound"],
    rule="a state is one (operands, bound, kernel, instruction set); a transition one kernel call; a trace one enumeration block")
