#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties; edit here, then run)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Class-group composition, squaring and reduction are the group operations",
  "For every valid discriminant and all forms of that discriminant, composing two forms, squaring a form, inverting and reducing give a form of the same discriminant equivalent to the true class-group product, whichever of the library's implementations performs the step. After reduction the form is the unique reduced representative of its class, so equal classes always compare and serialize equal. No intermediate (unreduced) form produced by one operation is ever mishandled by the next.",
  ["inputs", "histories"], "all pairs of forms of every discriminant in a bounded range, all operation sequences up to a depth on larger discriminants up to 1024 bits",
  "The tests square along one trajectory of one or two random 1024-bit discriminants; special forms (ambiguous, identity, a=c, non-coprime a1,a2) have probability about zero there.",
  ["src/nucomp.h", "src/Reducer.h", "src/vdf_new.h", "src/vdf_original.h", "src/xgcd_partial.c", "src/proof_common.h"],
  [("NUCOMP/NUDUPL", "src/nucomp.h"), ("Pulmark reducer", "src/Reducer.h"), ("reference squaring", "src/vdf_original.h"), ("form::reduce", "src/vdf_new.h")],
  ["product/reduced form returned to caller"])

p("C02", "Exponentiation of forms and modular residues is exact for every exponent",
  "Raising a form to any non-negative exponent yields the reduced form of exactly that power, including exponents 0, 1 and multiples of the element's order. Raising two to any 64-bit exponent modulo any positive modulus yields the true residue, and a zero modulus is reported as an error rather than crashing.",
  ["inputs"], "all forms x all exponents up to beyond the group order on small discriminants; all bit-length/bit-pattern classes of exponents on large ones",
  "Tests only reach exponents that occur in one proof; exponent 0, exponents hitting the identity and wide-running unreduced intermediates are not sampled.",
  ["src/proof_common.h", "src/nucomp.h"], [("FastPowFormNucomp", "src/proof_common.h"), ("FastPow", "src/proof_common.h")], ["power returned"])

p("C03", "The accelerated squaring loop computes exactly x^(2^t)",
  "For every discriminant size, starting form, iteration count and batch boundary, and for every CPU feature path, the timelord's squaring loop yields the same reduced value after each iteration as repeated mathematical squaring, and reports every iteration to its listener in order and exactly once, except that after a batch found corrupted the iterations of that batch are reported again from its start. When the fast pipeline stops early or detects corruption, the loop resumes from the last good value, and after it no iteration is lost, skipped or left with a wrong value.",
  ["inputs", "histories", "fault_sequences", "configurations"], "start forms x discriminant sizes x batch lengths x instruction-set variants x fault positions",
  "Tests run one trajectory per binary; early termination and corruption recovery happen at unpredictable, very rare iterations and are never asserted.",
  ["src/vdf.h", "src/vdf_fast.h", "src/threading.h", "src/asm_main.h", "src/avx512_integer.h"],
  [("repeated_square", "src/vdf.h"), ("repeated_square_fast", "src/vdf_fast.h"), ("square_state_type", "src/vdf_fast.h")], ["listener callback", "form after the loop"])

p("C04", "Hash-to-prime and discriminant generation follow the published definition",
  "For every seed and every permitted size of at least 16 bits, the discriminant is the negative of the first candidate of exactly that bit length, congruent to 7 mod 8, that is prime in the sequence obtained by hashing the incremented seed with SHA-256; the challenge prime is obtained in the same way with 264 bits. The result depends on nothing but seed and size, the caller's seed is not modified, a seed too short to yield any prime is reported as an error instead of searching forever, and non-positive, oversized or non-multiple-of-8 sizes and empty seeds are rejected with an error.",
  ["inputs"], "all one- and two-byte seeds (all carry patterns of the counter), all sizes, all lengths of hashed message",
  "Tests compare two fixed seeds; counter carries between bytes, sizes that are not multiples of 256 and message lengths at SHA-256 block edges are not reached.",
  ["src/create_discriminant.h", "src/proof_common.h", "src/picosha2.h", "src/integer_common.h"],
  [("HashPrime", "src/proof_common.h"), ("CreateDiscriminant", "src/create_discriminant.h"), ("SHA-256", "src/picosha2.h"), ("GetB", "src/proof_common.h")], ["returned discriminant/challenge"])

p("C05", "The primality decision is right",
  "For every integer in the range used for candidates, the library's primality decision agrees with the true primality of the number: no composite (in particular no Fermat, strong or Lucas pseudoprime, prime power or perfect square) is accepted and no prime above the trial-division bound is rejected.",
  ["inputs"], "every odd integer up to a bound, plus every structured pseudoprime of two-factor shape up to a larger bound",
  "Random 264- or 1024-bit candidates are never pseudoprimes; a decision procedure missing one of its two halves passes every test.",
  ["src/primetest.h", "src/pprods.h", "src/integer_common.h"], [("is_prime_bpsw", "src/primetest.h"), ("trial-division products", "src/pprods.h")], ["prime() result"])

p("C06", "Compressed form encoding is a bijection on reduced forms",
  "Every reduced form of every supported discriminant size serializes to exactly 100 bytes, always the same bytes of the published layout, and deserializes to the same form. Every byte string that strict deserialization accepts is the unique canonical encoding of the reduced form it returns, and re-serializes to the bytes that were given; strings of other lengths or discriminants out of range are refused without touching memory out of bounds.",
  ["inputs"], "all reduced forms of all small discriminants of every size class; all byte strings for the smallest size; all single-field deviations for larger sizes",
  "Round-trips of random forms have g=1 and never reach the g>1, b0>0, t<0 or a=b branches.",
  ["src/bqfc.c", "src/bqfc.h", "src/proof_common.h"], [("bqfc_serialize", "src/bqfc.c"), ("bqfc_deserialize", "src/bqfc.c"), ("bqfc_verify_canon", "src/bqfc.c")], ["bytes and return code"])

p("C07", "Every honestly generated proof verifies",
  "For every discriminant produced by the library, every initial form and every iteration count of at least one, the standalone prover returns a 200-byte result whose first half encodes exactly the initial form squared that many times and whose whole is accepted by the verifier for that iteration count.",
  ["inputs"], "all iteration counts from 1 up to a bound (covering every window-size and partial-block combination) x discriminant sizes x start forms",
  "Tests prove one or two iteration counts; the block/window arithmetic depends on the residue of the count modulo k*l.",
  ["src/prover_slow.h", "src/verifier.h", "src/proof_common.h"], [("ProveSlow", "src/prover_slow.h"), ("GenerateWesolowski", "src/prover_slow.h"), ("ApproximateParameters", "src/prover_slow.h")], ["returned bytes", "verifier verdict"])

p("C08", "The verifier accepts exactly the proofs that satisfy the Wesolowski equation",
  "For every input, plain verification returns true if and only if the blob has the exact expected length, every form in it decodes, and proof^B * x^(2^t mod B) equals the claimed output with B derived from input and output. In particular changing any single byte of the output or proof, the iteration count, the discriminant or the initial form of an accepted instance to a different meaning makes it rejected.",
  ["inputs", "fault_sequences"], "all single-byte substitutions of accepted blobs, all iteration counts in a window, neighbouring discriminants and forms; verdict compared with an independent verifier",
  "Tests flip one bit or pass one wrong argument; an inequality, skipped field or swallowed exception in one path would not be seen.",
  ["src/verifier.h", "src/proof_common.h"], [("CheckProofOfTimeNWesolowski", "src/verifier.h"), ("VerifyWesolowskiProof", "src/verifier.h"), ("GetB", "src/proof_common.h")], ["verdict"])

p("C09", "Multi-segment proofs account for every iteration and every segment challenge",
  "A proof of depth d is accepted only if its length is exactly that of d segments, each segment's challenge equals the one derived from its input and output, segment iteration counts never exceed the iterations still unaccounted for, and their sum plus the final part is exactly the claimed total. Verification that receives the challenge instead of the output returns exactly the output that full verification accepts, and extracting the challenge from a proof returns the one under which it verifies; a wrong depth, length, count or challenge is never accepted.",
  ["inputs", "fault_sequences"], "all splits of a total into up to three segments, all single deviations of depth, length, per-segment counts, challenge bytes and order",
  "The only multi-segment test checks one recorded proof and does not vary the accounting fields.",
  ["src/verifier.h"], [("segment loop", "src/verifier.h"), ("VerifyWesoSegment", "src/verifier.h"), ("CheckProofOfTimeNWesolowskiWithB", "src/verifier.h"), ("GetBFromProof", "src/verifier.h")], ["verdict", "returned form/challenge"])

p("C10", "The public API survives every malformed input",
  "No argument combination given to the public C or C++ verification, proving and discriminant functions makes the process crash, hang, read or write outside its buffers or leak an exception across the C boundary; malformed input yields false, an empty result or a reported error. This includes null pointers, wrong lengths, huge depth and iteration values, discriminants that are zero, positive, tiny, too large or not congruent to 1 mod 4, and unparsable discriminant text.",
  ["inputs"], "the product of small domains of malformed values for every argument of every entry point, each run isolated",
  "Regression tests pin a handful of malformed blobs; the argument product is not covered.",
  ["src/verifier.h", "src/c_bindings/c_wrapper.cpp", "src/create_discriminant.h", "src/bqfc.c"], [("range checks", "src/verifier.h"), ("exception barrier", "src/c_bindings/c_wrapper.cpp")], ["exit status of the call", "return value"])

p("C11", "Checkpoint bookkeeping stores the right power in the right slot",
  "At every point of a run the value a prover obtains for a given exponent is exactly the initial form raised to two to that exponent, for the one-proof, two-segment and n-segment recorders, for every exponent the recorder promises to hold. Distinct live exponents never share a slot, no slot index leaves its table for any iteration within the documented limit, and the switch to sparse recording of the two-segment recorder keeps every earlier value retrievable.",
  ["inputs", "histories"], "every iteration number around every period, window, bucket and switch boundary up to the documented limits",
  "Tests look at a few indices around one transition; windows wrap only after 20*2^(16+2k) iterations.",
  ["src/callback.h", "src/fast_storage.h"], [("GetPosition", "src/callback.h"), ("OnIteration", "src/callback.h"), ("IncreaseConstants", "src/callback.h")], ["GetForm/GetFormCopy"])

p("C12", "Segment provers output the correct Wesolowski proof or nothing",
  "For every segment length and table spacing, each segment prover fed with correct checkpoints outputs the unique form that the verifier accepts for that segment. Pausing, resuming or stopping a prover at any of its steps never changes the value it finally reports, a paused prover makes no progress and resumes, a stopped prover terminates, and a prover that did not complete never claims to be finished with a wrong proof being used.",
  ["inputs", "schedules"], "all segment lengths up to a bound, every (k,l) in use, a pause/resume/stop at every step of the computation",
  "Tests run each prover once to completion without interruption.",
  ["src/prover_impl.hpp", "src/prover_interface.hpp", "src/provers.h", "src/prover_runtime.cpp"], [("GenerateProof", "src/prover_impl.hpp"), ("PerformExtraStep", "src/provers.h"), ("ParallelProver", "src/prover_impl.hpp")], ["GetProof", "IsFinished"])

p("C13", "Concurrent proof management always delivers valid proofs and always stops",
  "Whatever the interleaving of the squaring thread, the segment provers, the event loop and proof requests, every request that completes returns a proof accepted by the verifier for exactly the requested iteration, and every request whose iterations have been computed eventually completes. A stop issued at any moment makes every waiting request, prover and the event loop terminate, with no lost wakeup, deadlock or out-of-bounds access, and an interrupted request yields an empty result.",
  ["schedules"], "all interleavings up to a preemption bound of small scenarios (2-3 segments, 1-2 requests, stop at every point)",
  "Tests run without schedule control and request proofs one at a time; stop races need a preemption between predicate check and wait.",
  ["src/vdf.h", "src/provers.h"], [("ProverManager", "src/vdf.h"), ("RunEventLoop", "src/vdf.h"), ("new_event/proof_cv/last_segment_cv", "src/vdf.h")], ["returned proof", "termination"])

p("C14", "Background intermediate storage is complete and correct before it is advertised",
  "For every interleaving of checkpoint submission and the background workers, a segment is reported finished only when every intermediate value of it and of all earlier segments is stored with the right power, each submitted checkpoint is processed exactly once, an event follows the completion of every segment, and shutting down at any moment joins all workers without deadlock or data race.",
  ["schedules"], "all interleavings up to a preemption bound with 2-3 workers and 2-6 checkpoints in every submission order",
  "The storage is only used on machines with 16 or more cores and no test instantiates it.",
  ["src/fast_storage.h", "src/callback.h"], [("AddIntermediates", "src/fast_storage.h"), ("GetFinishedSegment", "src/fast_storage.h"), ("worker loop", "src/fast_storage.h")], ["GetFinishedSegment", "stored forms"])

p("C15", "Checkpoint lookup stays consistent while recording switches to sparse mode",
  "For every interleaving of the recording thread, the switch to sparse recording and concurrent lookups, a lookup of an exponent that has been recorded returns exactly the power recorded for it and never a torn, stale or differently indexed value. Exceeding the capacity is reported as an error and never writes out of bounds.",
  ["schedules"], "all interleavings up to a preemption bound of recorder, switcher and readers around the switch",
  "The switch occurs after 91 million iterations and the tests call the recorder from one thread.",
  ["src/callback.h", "src/vdf.h"], [("forms_mutex", "src/callback.h"), ("transition_state", "src/callback.h")], ["GetFormCopy"], hook=None)

p("C16", "The two-thread squaring pipeline is free of races, deadlocks and lost errors",
  "For every interleaving of the two cooperating squaring threads each value is read only after it was completely written, neither thread overruns or deadlocks the other, an error raised by one stops both in the same iteration, and the result and error status equal those of the single-threaded execution.",
  ["schedules", "fault_sequences"], "all interleavings of the counter protocol up to a preemption bound, with an error injected at every step on either side",
  "Timing on a test machine exercises a few interleavings; an off-by-one in a counter wait is masked by relative thread speed.",
  ["src/threading.h", "src/vdf_fast.h"], [("thread_state fence/advance", "src/threading.h"), ("raise_error", "src/threading.h")], ["result form", "error status"])

p("C17", "Session and iteration parsing accepts exactly the wire protocol",
  "For every byte stream a peer can send, split into fragments in every way, the client's session header and iteration-request parsers either deliver exactly the transmitted discriminant, form and iteration number or raise an error; a truncated, oversized or zero-sized field, and a non-decimal or overflowing size or iteration number, is always an error, no byte beyond the message is consumed and no buffer is overrun.",
  ["inputs", "fault_sequences"], "all header values, all truncation points, all two-way fragmentations, all values of every single byte of a valid message",
  "Regression tests send seven fixed streams in one piece.",
  ["src/vdf_client_session.h", "src/vdf_client.cpp"], [("InitSession", "src/vdf_client_session.h"), ("ReadIteration", "src/vdf_client.cpp")], ["parsed values", "exceptions", "bytes consumed"])

p("C18", "A timelord session answers its requests and shuts down in every history",
  "For every sequence of proof requests (including duplicates, unreachable and more than a hundred ones), stop, malformed data or disconnect, in each of the three session modes, the client answers each honoured request with exactly one well-formed frame containing a proof that verifies for that iteration, frames of concurrent requests are never interleaved, and after stop or an error it ends all its work, announces the stop and terminates normally without crashing or hanging.",
  ["histories", "schedules", "fault_sequences"], "all request/stop/disconnect sequences up to a depth over a small alphabet in each mode",
  "No test runs a session; only the header parser is tested.",
  ["src/vdf_client.cpp", "src/vdf.h"], [("SessionOneWeso/TwoWeso/FastAlgorithm", "src/vdf_client.cpp"), ("WriteProof", "src/vdf_client.cpp"), ("FinishSession", "src/vdf_client.cpp")], ["bytes on the socket", "process exit"])

p("C19", "Cancelling a standalone proof works at every polling point and nowhere else",
  "A standalone proof started with a shutdown-file path returns empty if and only if the status query for that file fails at one of its polling points, whichever point that is (a query merely interrupted by a signal does not count), and polls at least once in every 65536 iterations; otherwise, and always with an empty path, it returns the same bytes as without cancellation support.",
  ["fault_sequences", "inputs"], "file disappearing before every poll, every error the status query can return, every poll count up to a bound",
  "Tests never use a shutdown file.",
  ["src/prover_slow.h"], [("stat polling", "src/prover_slow.h")], ["returned bytes"])

p("C20", "Checked integer conversion and parameter estimation never produce a wrong number",
  "A checked conversion between any two integer types returns the identical mathematical value when it is representable and raises an error otherwise. The proof-parameter estimation returns, for every iteration count, window and table parameters of at least one that are usable by the provers and identical between prover variants, or raises an error.",
  ["inputs"], "all values of all 8/16-bit types and all boundary neighbourhoods of wider types for every type pair; all iteration counts up to a bound and around every power of two",
  "Four conversions of one type pair are tested.",
  ["src/checked_cast.h", "src/util.h", "src/prover_slow.h"], [("checked_cast", "src/checked_cast.h"), ("ApproximateParameters", "src/util.h")], ["returned value or exception"])

p("C21", "Big-integer wrapper operations agree with exact arithmetic",
  "Construction from and conversion to text, byte strings and word vectors, comparison, shifts, bit access, bit length, roots, division with and without remainder, and modular helpers of the integer wrapper agree with exact integer arithmetic for all values and signs, and aliasing an operand with the result never changes the outcome.",
  ["inputs"], "all operand pairs in a small range plus all limb-boundary values, for every operation and aliasing pattern",
  "Only incidental uses on large positive values are tested.",
  ["src/integer_common.h", "src/vdf_new.h", "src/nucomp.h"], [("integer", "src/integer_common.h")], ["returned values"])

p("C22", "Every GCD kernel returns a valid cofactor reduction",
  "For all operands, the partial extended GCD and the accelerated GCD kernels return a remainder pair and cofactors that satisfy the defining linear relation with determinant plus or minus one, stop only once the remainder has fallen to the requested bound, and agree with each other and between instruction-set variants; operands for which a kernel cannot guarantee this are reported as failed instead of returning a wrong matrix.",
  ["inputs", "configurations"], "all operand pairs up to a bound, all limb-boundary pairs and extreme quotient sequences, all instruction-set variants",
  "The kernels are exercised only by operands of one squaring trajectory; rare quotient sizes and approximate-double edge cases are not.",
  ["src/xgcd_partial.c", "src/gcd_base_continued_fractions.h", "src/gcd_128.h", "src/asm_gcd_unsigned.h", "src/asm_gcd_128.h", "src/asm_gcd_base_continued_fractions.h"],
  [("mpz_xgcd_partial", "src/xgcd_partial.c"), ("gcd_unsigned", "src/asm_gcd_unsigned.h")], ["cofactors and remainders"])

p("C23", "Hardware register encoding round-trips every value",
  "Every job the driver writes to the accelerator is decoded by the register definition to the identical discriminant, form, root and iteration count, and every status the accelerator reports is decoded to the identical form and count, for all representable magnitudes and signs including redundant and negative coefficients.",
  ["inputs"], "all values that change each coefficient over its whole range, all signs, all coefficient-boundary magnitudes",
  "No test of the hardware driver exists.",
  ["src/hw/vdf_driver.cpp", "src/hw/chia_driver.cpp", "src/hw/emu_runner.cpp"], [("write_bytes/read_bytes", "src/hw/vdf_driver.cpp"), ("SerializeJob/DeserializeJob", "src/hw/chia_driver.cpp")], ["decoded job/status"])

p("C24", "PLL frequency selection programs a correct and safe setting",
  "Every entry of the frequency table has the frequency its divider settings produce, entries are strictly increasing, and for every requested frequency the driver programs the smallest entry not below it together with the filter range that contains the resulting reference frequency; frequencies above the table are refused.",
  ["inputs"], "all table entries and, for each, requests at, just below and just above it; all acknowledgement outcomes",
  "The table of 8003 entries is not tested.",
  ["src/hw/pll_freqs.cpp", "src/hw/pll_freqs.hpp", "src/hw/vdf_driver.cpp"], [("pll_entries", "src/hw/pll_freqs.cpp"), ("SetPLLFrequency", "src/hw/vdf_driver.cpp")], ["register writes"])

p("C25", "Values from unreliable hardware never corrupt the recorded computation",
  "For every sequence of readings from the accelerator (correct, repeated, zero, off-grid, bit-corrupted) and of failing USB transfers (status reads, or writes while restarting), only positive forms of the right discriminant at counts within the run enter the record; as long as the readings that are such forms are right, every grid value marked valid equals the initial form raised to two to that exponent; repeated or bad readings are skipped or lead to a restart request; after a restart the offset and the last good value belong together; and once the accelerator delivers again the run reaches its target with every grid value recorded. (A reading that is a form of the discriminant but not the claimed power cannot be told apart at intake and is outside this property.)",
  ["histories", "fault_sequences"], "all sequences of readings up to a depth over an alphabet of good, repeated, zero, off-grid and corrupted values",
  "No test of the hardware path exists.",
  ["src/hw/hw_proof.cpp", "src/hw/hw_proof.hpp"], [("hw_proof_add_value", "src/hw/hw_proof.cpp"), ("hw_proof_handle_value", "src/hw/hw_proof.cpp"), ("hw_proof_last_good_form", "src/hw/hw_proof.cpp")], ["recorded values", "return code"])

p("C26", "Hardware-timelord proof scheduling covers every request exactly",
  "For every set and order of proof requests, the queued segments of each requested proof chain back to the start with contiguous grid-aligned checkpoints, sum to exactly the requested iteration and number at most 64; retrieving a proof delivers each request once, only when its whole chain is proved, and cancelling or re-splitting queued work never loses a request or frees a segment that another request still uses.",
  ["histories", "schedules"], "all request sequences up to a depth over small and large iteration counts, all completion orders",
  "No test of the hardware path exists.",
  ["src/hw/hw_proof.cpp"], [("hw_proof_process_req", "src/hw/hw_proof.cpp"), ("hw_proof_dec_ref", "src/hw/hw_proof.cpp"), ("hw_retrieve_proof", "src/hw/hw_proof.cpp")], ["queued segments", "retrieved proofs"])

p("C27", "Wire encodings of proofs are exact and frames are self-consistent",
  "The proof frame a client writes for every iteration number, output, witness type and proof body decodes to exactly those values: a 4-byte big-endian length equal to the number of hexadecimal characters that follow, then the hexadecimal of the 8-byte iteration, 8-byte output length, output, witness byte and proof. Integer-to-bytes and bytes-to-integer conversions are mutually inverse big-endian for every value.",
  ["inputs"], "all byte values in every position, all output/proof lengths up to a bound, all boundary iteration numbers, all short-write patterns",
  "No test decodes a frame.",
  ["src/vdf_client.cpp", "src/util.h"], [("WriteProof", "src/vdf_client.cpp"), ("Int64ToBytes/BytesToStr", "src/util.h")], ["bytes on the socket"])

p("C28", "The C interface is equivalent to the C++ library",
  "For every argument, the C entry points return the same verdicts, proofs, discriminants and outputs as the C++ functions, transfer ownership of returned buffers exactly once, write nothing beyond the stated result sizes, and signal failure by their documented empty values.",
  ["inputs"], "the product of valid and invalid argument domains for every C entry point",
  "The C library is built but no test calls it.",
  ["src/c_bindings/c_wrapper.cpp", "src/c_bindings/c_wrapper.h"], [("c_wrapper", "src/c_bindings/c_wrapper.cpp")], ["returned buffers and flags"])

p("C29", "A hardware timelord session serves every reachable request under any timing",
  "Whatever the relative timing of accelerator, value workers, proof threads, event loop and timelord: every request for an iteration the run reaches is answered by exactly one frame whose proof verifies for the session's discriminant, initial form and iteration; a stop or termination in the midst of work ends all of that session's threads, is announced after the last frame, and leaves nothing behind that affects the next session on the same engine; a corrupted or stuck accelerator is restarted from a value of the computation; no data is accessed without synchronisation.",
  ["schedules", "histories", "fault_sequences"], "all interleavings up to a delay bound of enumerated sessions of one or two engines, with stops and accelerator faults",
  "No test of the hardware path exists, and the outcome depends on which worker finishes first.",
  ["src/hw/hw_vdf_client.cpp", "src/hw/hw_proof.cpp", "src/hw/hw_proof.hpp"], [("event_loop", "src/hw/hw_vdf_client.cpp"), ("hw_compute_value", "src/hw/hw_proof.cpp"), ("hw_compute_proof", "src/hw/hw_proof.cpp"), ("hw_proof_process_work", "src/hw/hw_proof.cpp"), ("hw_stop_proof", "src/hw/hw_proof.cpp")], ["bytes on the socket", "engine starts and stops", "threads alive at the end"])

p("C30", "A bad or broken timelord connection harms only its own hardware session",
  "However the bytes of a timelord's challenge, requests and stop are divided into segments, the hardware client answers as if they had arrived whole, including requests that share a segment with the challenge; requests beyond the run are ignored without holding up others. A malformed challenge (length fields, discriminant, initial form) or request, end of stream, reset or failing write at any byte ends that session alone: its engine and threads are stopped, its socket is closed, other engines' sessions continue, the client reconnects and serves the next session, and it exits with success once terminated. Short and delayed writes lose no bytes.",
  ["histories", "fault_sequences", "inputs"], "all segmentations at byte granularity, faults at every byte position, all values of each length field and all listed malformed challenges and requests, each followed by a normal session",
  "No test of the hardware path exists.",
  ["src/hw/hw_vdf_client.cpp", "src/hw/hw_proof.cpp"], [("handle_conn", "src/hw/hw_vdf_client.cpp"), ("handle_iters", "src/hw/hw_vdf_client.cpp"), ("read_data/write_data", "src/hw/hw_vdf_client.cpp"), ("init_vdf_state", "src/hw/hw_proof.cpp")], ["bytes on the socket", "descriptors", "exit code"])

p("C31", "The Python functions return what the specification says for every argument",
  "For every argument the Python functions (discriminant creation, proving, the verification variants, challenge extraction, form decoding) return exactly what the specification requires: the discriminant as text, the proof bytes, a bool, or the (verdict, output) pair. Malformed arguments (wrong type, out-of-range integers, strings of any length, unparsable text) give an ordinary Python exception or a negative verdict; memory outside the objects passed is never read, the arguments are unchanged, no error is left pending. The interpreter lock is released during the long computations and held on return, an existing shutdown file does not change a proof and a missing one yields empty bytes, and the package exports these functions under their names.",
  ["inputs"], "every function x every length of every string argument, single-byte changes, all wrong kinds per argument, boundary counts/depths/sizes, all iteration counts up to a bound for proving",
  "The Python tests pass valid proofs and a few malformed forms; wrong lengths are read out of bounds without any visible effect.",
  ["src/python_bindings/fastvdf.cpp", "chiavdf/__init__.py"], [("PYBIND11_MODULE", "src/python_bindings/fastvdf.cpp"), ("to_signed_bytes_be", "src/python_bindings/fastvdf.cpp")], ["return value or exception", "memory accesses", "interpreter lock state"])

p("C32", "The safe Rust functions are memory-safe and exact",
  "For all slices and numbers whatsoever, the Rust functions neither touch memory outside the slices nor panic nor leak: create_discriminant fills the whole result slice with the discriminant of that size or returns false and leaves it unchanged, verify_n_wesolowski returns the verifier's verdict (false for any start form that is not a whole form), prove returns the proof the specification requires or None, and the buffer handed over by the C++ side is released exactly once.",
  ["inputs"], "every slice length for every argument, every byte position of proofs of depth 0, 1 and 2, boundary counts and depths, all iteration counts up to a bound",
  "The Rust tests are not part of the suite here and use one valid input each.",
  ["rust_bindings/src/lib.rs", "src/c_bindings/c_wrapper.h"], [("verify_n_wesolowski", "rust_bindings/src/lib.rs"), ("prove", "rust_bindings/src/lib.rs"), ("create_discriminant", "rust_bindings/src/lib.rs")], ["return values", "memory accesses", "allocations"])

p("C33", "The hardware client runs only with valid options, meaning what is written",
  "A command line of the hardware client is accepted only if every option is known, every value is, in full, a number that fits (or an address), and lies in its documented range (frequency 200-2200, voltage 0.7-1.0, mask up to 7, 2-64 threads, fewer proof threads, period of at least 10 seconds, port 1-65535, one to three engines); the settings used are then exactly those numbers, unmentioned ones have their defaults, and the engines run are those of the mask or the first N. Any other command line ends with status 1 before the device is touched; --version and --list do only that.",
  ["inputs"], "all command lines of up to three options from about 150 values in both spellings, with every positional tail in every position",
  "No test runs the option parser; NaN and wrapped values pass comparisons silently and end in the board's voltage and clock registers.",
  ["src/hw/hw_vdf_client.cpp"], [("parse_opts", "src/hw/hw_vdf_client.cpp"), ("init_vdf_client", "src/hw/hw_vdf_client.cpp"), ("hw_vdf_client_main", "src/hw/hw_vdf_client.cpp")], ["exit status", "values handed to the device", "enabled engines"])

p("C34", "Board control reports success only when the board is as requested",
  "Whatever single or repeated USB or I2C failure occurs in whatever operation: an operation of the accelerator driver that reports success has left the board in the requested state (register and block transfers complete, reset line pulsed and released, PLL running with the requested dividers, fan line driven, regulator within one step at or below the requested voltage and within 0.5-1.0 V, alarm thresholds and sensor set, device open and ready); a reading is true or reported as failed, and an alarm that cannot be read counts as set; a request outside the range changes nothing; a failed start leaves no device open; and as soon as transfers work again the same operations succeed. Every voltage from 0.5 to 1.0 V and every alarm temperature from -40 to 125 C is accepted and read back correctly.",
  ["inputs", "faults", "histories"], "every failure position and kind, pairs of them, and a transport that stays dead, in every operation; operation sequences up to three; every 10 uV and every register code",
  "No test touches the driver without the board; a lost write that is not noticed leaves the chip at a wrong clock or voltage, or without its temperature alarm.",
  ["src/hw/vdf_driver.cpp", "src/hw/ftdi_driver.cpp", "src/hw/hw_interface.cpp"], [("SetPLLFrequency", "src/hw/vdf_driver.cpp"), ("SetBoardVoltage", "src/hw/vdf_driver.cpp"), ("SetMode", "src/hw/ftdi_driver.cpp"), ("init_hw", "src/hw/hw_interface.cpp")], ["reported results", "state of the board", "open handles"])

p("C35", "The software accelerator behaves like a correct accelerator",
  "The program with the emulated accelerator (emu_hw_vdf_client, emu_hw_test), driven through its real drivers in any order of starting, stopping, restarting, reading engines, changing the clock and ending the program, under any schedule of the emulator's threads: every status read from a running engine is iteration t of the job last started on that engine, 0 <= t <= its length, never falling back, with the form x^(2^t) of that job; a stopped engine shows no value; engines do not affect each other; every job that is not stopped reaches its end, also after the clock was stopped and started for a change of frequency, which is read back as set; reading any window of the status registers gives each register's value and zero outside; a job starts when its last register is written and not before; no operation crashes, hangs, races or leaks a thread, including the end of the program while jobs run.",
  ["inputs", "schedules", "histories"], "every operation sequence up to length five under all interleavings with up to two departures from the default order; every register window; every split of a job",
  "The emulator is compiled by no test; its job threads are detached, and a restart or program end in the wrong moment is a matter of microseconds.",
  ["src/hw/emu_runner.cpp", "src/hw/emu_funcs.cpp", "src/hw/hw_interface.cpp"], [("start_job", "src/hw/emu_runner.cpp"), ("run_job", "src/hw/emu_runner.cpp"), ("read_regs", "src/hw/emu_runner.cpp"), ("emu_shutdown", "src/hw/emu_runner.cpp")], ["values read", "registers", "threads"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
