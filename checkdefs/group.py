T = "explicit-state exhaustive enumeration of the real code against a reference class group"
CHECKS["C01"] = Check([
    Job("pairs", "harness/h_group.cpp", "pairs", lzcnt=True, budget_quick=60),
    Job("sl2", "harness/h_group.cpp", "sl2", lzcnt=True, budget_quick=60),
    Job("seqs", "harness/h_group.cpp", "seqs", lzcnt=True, budget_quick=60),
    Job("runs", "harness/h_group.cpp", "runs", lzcnt=True, budget_quick=60),
], technique=T, note="All pairs of all reduced forms of every discriminant -p (p prime, p=7 mod 8) up to a bound; all T^k/S words up to a length; all operation sequences up to a depth and long unreduced runs on discriminants of 16..2048 bits. Trusts GMP and the textbook composition in harness/ref.h.",
    assumptions=["GMP arithmetic is correct", "discriminants are -p with p prime, p = 7 mod 8 (the only kind CreateDiscriminant makes)"],
    rule="a state is a (discriminant, form) reached; a transition is one library operation executed and compared with the reference; a trace is one discriminant/start form explored to the bound")
CHECKS["C02"] = Check([
    Job("pow", "harness/h_group.cpp", "pow", lzcnt=True, budget_quick=60),
    Job("powbig", "harness/h_group.cpp", "powbig", lzcnt=True, budget_quick=60),
    Job("powmod", "harness/h_group.cpp", "powmod", lzcnt=True, budget_quick=60),
], technique=T, note="Every form of every small discriminant to every exponent past twice the class number; on 63..1024-bit discriminants all exponents 0..255 and all of shape 2^i, 2^i-1, 2^i+2^j; FastPow for all t<600 and all 2^i(+-1), 2^i+2^j against an independent square-and-multiply for small, edge and 264-bit moduli.",
    assumptions=["GMP arithmetic is correct"],
    rule="a state is a (form, exponent) or (base, exponent, modulus); a transition is one library exponentiation compared with the reference; a trace is one discriminant or modulus")
