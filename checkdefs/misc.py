def J(name, src, mode, **k): return Job(name, "harness/" + src, mode, lzcnt=True, **k)
CHECKS["C19"] = Check([J("cancel", "h_misc.cpp", "cancel", link=["-ldl"], budget_quick=100)],
    technique="exhaustive fault injection at every polling point of the real prover",
    note="For iteration counts around each multiple of 65536 up to 3 (12 in thorough) and small ones: every poll in turn made to fail with every error (file vanishing before that poll, permanently or transiently), the status queries interposed at libc level; result compared with the uncancelled bytes; poll rate measured; a real file appearing and vanishing.",
    assumptions=["the file status is obtained through libc (stat, lstat, fstatat, access, open, fopen)"],
    rule="a state is one (iteration count, failing poll, error); a transition one proof run; a trace one iteration count")
CHECKS["C20"] = Check([J("cast", "h_misc.cpp", "cast", link=["-ldl"], budget_quick=60), J("params", "h_misc.cpp", "params", link=["-ldl"], budget_quick=80)],
    technique="exhaustive enumeration of values per type pair and of iteration counts",
    note="All 256 pairs of 16 integer types: every value of 8/16-bit sources, every +-2^e+d (|d|<=3) of wider ones, against 128-bit arithmetic. Parameter estimation: every count 1..2^26 (2^29 thorough), +-2000 around every power of two, the table-count change, the top of the range; both variants compared.",
    assumptions=[], rule="a state is one value or iteration count; a transition one conversion or estimation; a trace one type pair or block")
CHECKS["C21"] = Check([J("ipairs", "h_misc.cpp", "ipairs", link=["-ldl"], budget_quick=60), J("iunary", "h_misc.cpp", "iunary", link=["-ldl"], budget_quick=60)],
    technique="exhaustive enumeration of operand pairs and aliasing patterns against exact arithmetic",
    note="All pairs of -40..40 and all +-2^e+d at limb boundaries (about 230 values) for every binary operator, compound and aliased form, gcd and comparison; for about 2200 values every unary operation, shift, bit, root, text/bytes/words conversion and constructor.",
    assumptions=["GMP arithmetic is correct"], rule="a state is one operand pair; a transition one operation compared; a trace one left operand")
