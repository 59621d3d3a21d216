def J(name, src, mode, **k): return Job(name, "harness/" + src, mode, lzcnt=True, **k)
CHECKS["C10"] = Check([J("verify", "h_api.cpp", "verify", budget_quick=100), J("disc", "h_api.cpp", "disc", budget_quick=60), J("c", "h_api.cpp", "c", budget_quick=60)],
    technique="exhaustive enumeration of the product of malformed argument domains on the real entry points with guard pages and watchdogs",
    note="Every combination of ~100 discriminants (zero, positive, tiny, non-fundamental, wrong residue, oversized, unparsable text), start forms, blobs (including null), lengths, depths (including those whose product with the segment length wraps), iteration counts, size arguments and challenges, through all C++ verification entry points, discriminant creation, decoding, proving and every C entry point. Inputs are read-only and end at an inaccessible page; a signal, a foreign exception, a hang or an accepted malformed argument is a violation.",
    assumptions=["GMP arithmetic is correct", "the caller's buffers are as long as it says"],
    rule="a state is one argument tuple; a transition one call; a trace one (discriminant, start form) or seed block")
CHECKS["C28"] = Check([J(m, "h_api.cpp", m, budget_quick=80) for m in ("c28disc", "c28prove", "c28verify")],
    technique="exhaustive enumeration of argument domains of the C interface against the C++ functions with an allocation ledger and guard pages",
    note="Every listed seed x every size 0..272 bits and the larger multiples; every iteration count up to a bound x discriminant sizes x start forms (valid and malformed), each returned buffer tracked through a replaced allocator; every byte position of proofs of depth 0, 1, 2 flipped, and every wrong depth/count, C and C++ verdicts compared.",
    assumptions=["the C++ functions are judged by C04, C07-C09"],
    rule="a state is one argument tuple; a transition one C call compared with the C++ one; a trace one seed or blob position")

import glob as _g
_py = (sorted(_g.glob("/opt/vp/venv/lib/python3*/site-packages/pybind11/include")) or ["/usr/include"])[0]
_pi = (sorted(_g.glob("/usr/include/python3.1[0-9]")) or ["/usr/include/python3.12"])[-1]
_wrap = "-Wl," + ",".join("--wrap=__gmpz_" + f for f in ("import", "export", "probab_prime_p", "powm_ui"))
def P(name, b=80): return J(name, "h_py.cpp", name, opt="-O1", flags=["-g1", "-fvisibility=hidden", "-fsanitize=address", "-I", _py, "-I", _pi], link=[_wrap, "-l" + _pi.rsplit("/", 1)[-1]], budget_quick=b)
CHECKS["C31"] = Check([P("types", 60), P("disc", 60), P("verify", 150), P("prove", 100), P("form", 120)],
    technique="exhaustive enumeration of argument domains through an embedded Python interpreter, each result compared with an independent reference, under an address checker",
    note="The extension module of the tree is compiled into a program with an embedded CPython (AddressSanitizer, GMP's reads and writes checked at its import and export functions). Every function x every length of every string argument, single-byte changes, blob lengths, depths and counts up to 2^64-1, discriminants in every text form (valid, malformed, positive, oversized), every argument replaced by values of the wrong kind, the shutdown file present and absent; every result is compared with the reference verifier/prover/codec. Also checked on each call: the interpreter lock is released while the long computations run and held again afterwards, no error is left pending, arguments are unchanged.",
    assumptions=["CPython and pybind11 behave as documented", "GMP arithmetic is correct"],
    rule="a state is one call of a Python function; a transition the same; a trace one argument block")
CHECKS["C32"] = Check([J(m, "h_rust.cpp", m, pre=["tools/rust_pre.py"], link=["-ldl"], budget_quick=120) for m in ("disc", "verify", "prove")],
    technique="exhaustive enumeration of argument domains of the safe Rust functions against an independent reference with guard pages and an allocation ledger",
    note="lib.rs of the tree is compiled (bindings derived from the tree's C header) and called with slices that end exactly at an inaccessible page: every length of start form, proof, discriminant and result, every byte position of depth 0, 1, 2 proofs changed, counts and depths up to 2^64-1, iteration counts up to a bound for proving; verdicts, discriminants and proofs compared with the reference; the buffer the C++ side allocates must be gone afterwards.",
    assumptions=["rustc is correct", "bindings derived from the header by tools/rust_pre.py equal bindgen's for this header"],
    rule="a state is one argument tuple; a transition one call; a trace one argument block")
