def J(name, src, mode, **k): return Job(name, "harness/" + src, mode, lzcnt=True, **k)
GMP = ["GMP arithmetic is correct"]
CHECKS["C04"] = Check([J(m, "h_hash.cpp", m, budget_quick=60) for m in ("sha", "disc", "disc2", "args", "hprime")],
    technique="exhaustive enumeration of seeds, carry patterns, sizes and message lengths on the real code against an executable model of the definition",
    note="All one-byte seeds and (in thorough) all two-byte seeds, every size 16..1024, every message length up to a bound with six fill patterns and single-bit positions; compared with an independent SHA-256 (constants derived from their definition) and hash-to-prime model. Sizes below 16 bits are outside the property.",
    assumptions=GMP + ["GMP's probabilistic primality test with 40 rounds decides primality for the reference"],
    rule="a state is one (seed,size), message or seed/mask; a transition one library evaluation compared with the model; a trace one enumeration block")
CHECKS["C05"] = Check([J("pexh", "h_hash.cpp", "pexh", budget_quick=60), J("ptwo", "h_hash.cpp", "ptwo", budget_quick=60), J("pwin", "h_hash.cpp", "pwin", budget_quick=60)],
    technique="exhaustive enumeration of integers and of structured pseudoprime families on the real code against a sieve",
    note="Every odd integer below 2^24 (quick) / 2^29 (thorough) against a sieve; all products p(k(p-1)+1), p(k(p+1)-1), squares, cubes and Carmichael triples in range; windows of consecutive odd integers at 17..1024 bits; primes whose first Lucas parameters all fail. Primes below 100000 may be rejected by trial division (never candidates).",
    assumptions=GMP, rule="a state is one integer; a transition one decision compared with the sieve or GMP; a trace one block of integers")
CHECKS["C06"] = Check([J(m, "h_codec.cpp", m, budget_quick=80) for m in ("small", "big", "bytes", "dev", "sizes")],
    technique="exhaustive enumeration of forms and of byte strings on the real codec against an independent codec model",
    note="All reduced forms of all small discriminants; on all size classes 8..1024 bits structured and generic forms; all byte strings over a bounded field domain of the smallest layout; every single-byte substitution for larger ones; buffers end at an inaccessible page.",
    assumptions=GMP + ["discriminants are -p with p prime, p = 7 mod 8"],
    rule="a state is one form or byte string; a transition one encode/decode compared with the model; a trace one discriminant or position")
CHECKS["C07"] = Check([J("complete", "h_verify.cpp", "complete", budget_quick=100)],
    technique="exhaustive enumeration of iteration counts on the real prover and verifier against an independent verifier",
    note="Every iteration count from 1 to a bound for 24..1024-bit discriminants and three start forms, every count around each power of two up to 2^17, every element of small class groups; thorough adds counts above 2^23.25 where the table count changes.",
    assumptions=GMP, rule="a state is one (discriminant, start form, iteration count) proved, verified and compared with the reference; a trace is one block of counts")
CHECKS["C08"] = Check([J(m, "h_verify.cpp", m, budget_quick=80) for m in ("groups", "bytes1", "around")],
    technique="exhaustive enumeration of verification instances on the real verifier against an independent verifier",
    note="All (x, y, proof, t) of small class groups; every single-byte substitution of x, output and proof; all neighbouring iteration counts, lengths, depths; substituted forms, discriminants, seeds and sizes. Verdicts must equal the independent verifier's in both directions.",
    assumptions=GMP + ["form decoding follows the lenient consensus rule"],
    rule="a state is one verification instance; a transition one verdict compared; a trace one base instance and deviation position")
CHECKS["C09"] = Check([J("nweso", "h_verify.cpp", "nweso", budget_quick=100)],
    technique="exhaustive enumeration of splits and deviations on the real verifier against an independent verifier",
    note="All splits of small totals into up to three parts (plus zero-length parts and up to 65 segments), and for each every listed deviation of totals, depths, lengths, counts (also compensated and wrapping), challenges, proofs, order, drops and duplicates, through plain, with-challenge and challenge-extraction entry points.",
    assumptions=GMP, rule="a state is one verification instance; a transition one verdict compared; a trace one split")
