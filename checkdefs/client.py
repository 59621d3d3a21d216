def J(name, src, mode, **k): return Job(name, "harness/" + src, mode, asm=True, link=["-ldl"], **k)
CHECKS["C17"] = Check([J("headers", "h_client.cpp", "headers", budget_quick=60), J("frag", "h_client.cpp", "frag", budget_quick=60), J("iters", "h_client.cpp", "iters", budget_quick=60)],
    technique="exhaustive enumeration of byte streams and fragmentations against a reference parser",
    note="The real InitSession and ReadIteration on a socket whose libc calls are scripted: every size header over a 34-letter alphabet (all 2^24 in thorough), every discriminant length and form size byte, every cut of seven messages into two fragments and a grid of (thorough: all) three-fragment cuts, every truncation with four socket errors, every value of every header byte; every two-byte iteration header, every digit string up to 5 (7) digits, every number near powers of 2 and 10 with every zero padding, single and double byte corruptions.",
    assumptions=["socket data is read with recv, read, readv or recvmsg"], rule="a state is one byte stream with its fragmentation; a transition one parse compared with the reference parser; a trace one enumeration block")
CHECKS["C27"] = Check([J("frames", "h_client.cpp", "frames", budget_quick=60), J("bytes", "h_client.cpp", "bytes", budget_quick=60)],
    technique="exhaustive enumeration of frame contents, lengths and short writes, decoded by a reference decoder",
    note="The real WriteProof on a socket whose libc calls are scripted: iteration numbers with every byte position and value class, all byte values at each field, output lengths 0..130 (300) by 13 proof lengths, bodies of 0..66 segments, large bodies, every split of a frame into short writes; byte/integer conversions on all one- and two-bit patterns and complements.",
    assumptions=["socket data is written with send, write, writev or sendmsg"], rule="a state is one frame content; a transition one frame decoded; a trace one enumeration block")
