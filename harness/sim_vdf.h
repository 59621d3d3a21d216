// The concurrent part of the timelord (event loop, provers, storage, recorders, squaring loop, sessions) compiled
// from /repo's sources with class-group arithmetic replaced by its free model: the form x^(2^e) is represented by the
// number e+1, squaring adds one.  Control flow, locking, bookkeeping and memory accesses are the real code's.
#pragma once
#include "../sched/vsched.h"
#include "vh.h"
#include "include.h"
#include <x86intrin.h>
#include "parameters.h"
#include "bit_manipulation.h"
#include "double_utility.h"
#include "integer.h"
#include "alloc.hpp"
#include "vdf_new.h"
#include "picosha2.h"
#include "nucomp.h"
#include "nudupl_listener.h"
#include "asm_main.h"
#include "gcd_base_continued_fractions.h"
#include "gcd_128.h"
#include "asm_types.h"
#include "threading.h"
#include "avx512_integer.h"
#include "vdf_fast.h"
#include <map>
#include <algorithm>
#include <chrono>
#include <thread>
#include <future>
#include <memory>
#include <condition_variable>
#include <atomic>
#include <optional>
#include <set>
#include <boost/asio.hpp>
#include "proof_common.h"
#include "util.h"
int gcd_base_bits = 50; int gcd_128_max_iter = 3;
static unsigned g_hw = 4;
unsigned int std::thread::hardware_concurrency() noexcept { return g_hw; }
namespace sim {
static inline uint64_t u64(const integer &x) { return mpz_get_ui(x.impl); }
static inline form mk(uint64_t e) { form f; f.a = integer(e + 1); f.b = integer(0); f.c = integer(0); return f; }
static inline bool is(const form &f, uint64_t e) { return mpz_cmp_ui(f.a.impl, e + 1) == 0 && mpz_sgn(f.b.impl) == 0 && mpz_sgn(f.c.impl) == 0; }
static inline std::string show(const form &f) { return vh::fmt("exponent %lld", (long long)u64(f.a) - 1); }
struct Reducer { void reduce(form &) {} };
struct Original { struct form { mpz_t a, b, c; }; };
static void nudupl(form &a, form &b, const integer &, const integer &) { sched::Quiet q; sched::progress(); mpz_add_ui(a.a.impl, b.a.impl, 1); if (&a != &b) { mpz_set(a.b.impl, b.b.impl); mpz_set(a.c.impl, b.c.impl); } }
static integer getB(const integer &, form &x, form &y) { integer r(1); mpz_mul_2exp(r.impl, r.impl, 223); mpz_add(r.impl, r.impl, x.a.impl); mpz_mul_2exp(r.impl, r.impl, 40); mpz_add(r.impl, r.impl, y.a.impl); return r; }
static std::vector<unsigned char> ser(form &y, int) { std::vector<unsigned char> r(BQFC_FORM_SIZE, 0x5a); uint64_t v[3] = {u64(y.a), u64(y.b), u64(y.c)}; memcpy(r.data(), v, sizeof v); return r; }
static form deser(const integer &D, const uint8_t *p, size_t n, bool = false) { if (D >= integer(0) || (n && p[0] == 0xff)) throw std::runtime_error("invalid form"); return mk(0); }
// a segment's proof in the model: (start, length, marker)
static inline form proofform(uint64_t start, uint64_t len) { form f; f.a = integer(start + 1); f.b = integer(len); f.c = integer(77); return f; }
// The verifier in the model: the blobs must tile [0, iters) in order, each with the right endpoints and proof.
static std::string judge(uint64_t iters, const std::vector<uint8_t> &y, const std::vector<uint8_t> &p, int wt) {
    const size_t F = BQFC_FORM_SIZE, B = 33, BL = 8 + B + F; auto rd = [&](const uint8_t *q, uint64_t *v) { memcpy(v, q, 24); };
    if (y.size() != F) return vh::fmt("output of %zu bytes", y.size()); uint64_t v[3]; rd(y.data(), v); if (v[0] != iters + 1 || v[1] || v[2]) return vh::fmt("output is exponent %lld instead of %llu", (long long)v[0] - 1, (unsigned long long)iters);
    if (p.size() < F || (p.size() - F) % BL) return vh::fmt("proof of %zu bytes", p.size()); size_t n = (p.size() - F) / BL; if ((int)n != wt) return vh::fmt("witness type %d with %zu extra segments", wt, n); if (n > 63) return "more than 63 extra segments";
    uint64_t pos = 0; const uint8_t *q = p.data() + p.size();
    for (size_t i = 0; i < n; i++) {
        q -= BL; uint64_t len = BytesToInt64(q); integer b(std::vector<uint8_t>(q + 8, q + 8 + B)); form x = mk(pos), z = mk(pos + len); if (!(b == getB(b, x, z))) return vh::fmt("segment %zu [%llu,+%llu] has the wrong challenge", i, (unsigned long long)pos, (unsigned long long)len);
        rd(q + 8 + B, v); if (v[0] != pos + 1 || v[1] != len || v[2] != 77) return vh::fmt("segment %zu [%llu,+%llu] carries the proof of [%lld,+%llu]", i, (unsigned long long)pos, (unsigned long long)len, (long long)v[0] - 1, (unsigned long long)v[1]); pos += len;
    }
    rd(p.data(), v); if (v[2] != 77 || v[0] != pos + 1 || v[1] != iters - pos) return vh::fmt("last segment carries the proof of [%lld,+%llu] instead of [%llu,+%llu]", (long long)v[0] - 1, (unsigned long long)v[1], (unsigned long long)pos, (unsigned long long)(iters - pos));
    return "";
}
static uint64_t pace = 1 << 16;           // the squaring thread sleeps one virtual second whenever it enters a new stretch of this length
static uint64_t endless = ~0ull;         // from here on it stalls (every honoured request must be complete by then)
static uint64_t freerun = 0;              // ... from this iteration on
static std::vector<uint64_t> rel;           // iterations reported to the listener (all when empty), ascending
static bool is_rel(uint64_t it) { sched::Quiet q; return rel.empty() || std::binary_search(rel.begin(), rel.end(), it); }
static std::function<uint64_t(uint64_t, uint64_t)> cut;   // batches that end early: (first iteration, length) -> iterations done
static std::function<bool(uint64_t)> corrupt;  // batches (by first iteration) that report corruption
__attribute__((no_sanitize_thread)) static uint64 fast(square_state_type &, form &f, const integer &, const integer &, uint64 base, uint64 n, INUDUPLListener *l) {
    if (base >= freerun && (base == 0 || base / pace != (base - 1) / pace || base / pace != (base + n) / pace)) std::this_thread::sleep_for(std::chrono::seconds(1));
    if (base >= endless) { std::this_thread::sleep_for(std::chrono::seconds(1000)); return 0; }
    if (cut) { sched::Quiet q; n = cut(base, n); } bool bad = corrupt && corrupt(base); Original::form v;
    uint64_t a; { sched::Quiet q; a = u64(f.a); }
    auto report = [&](uint64_t it) { form t; { sched::Quiet q; t = mk(bad && it > base + n / 2 ? 999999999 : a - 1 + (it - base)); } v.a[0] = t.a.impl[0]; v.b[0] = t.b.impl[0]; v.c[0] = t.c.impl[0]; l->OnIteration(NL_FORM, &v, it - 1); };
    if (rel.empty()) for (uint64_t it = base + 1; it <= base + n; it++) report(it);
    else { size_t i, e; { sched::Quiet q; i = std::upper_bound(rel.begin(), rel.end(), base) - rel.begin(); e = std::upper_bound(rel.begin(), rel.end(), base + n) - rel.begin(); } for (; i < e; i++) report(rel.data()[i]); }
    a += n;
    if (bad) return ~uint64(0); f = mk(a - 1); return n;
}
}
#define PulmarkReducer sim::Reducer
#define nudupl_form sim::nudupl
#define GetB sim::getB
#define SerializeForm sim::ser
#define DeserializeForm sim::deser
#define repeated_square_fast sim::fast
#define PROVER_IMPL_H
// prover_interface.hpp forward-declares the reducer class; give it the plain name back there
#undef PulmarkReducer
#include "prover_interface.hpp"
#define PulmarkReducer sim::Reducer
// the shared prover base with the proof computation reduced to its protocol: extra-step polls, checkpoint reads, finish
inline Prover::Prover(Segment segm, integer D) { this->segm = segm; this->D = D; this->num_iterations = segm.length; is_finished = false; }
inline bool Prover::IsFinished() { return is_finished; }
inline form Prover::GetProof() { return proof; }
namespace sim { static std::function<double(uint64_t, uint64_t)> slow; // extra virtual seconds per step of the prover of (start, length)
static int prover_reads = 3; static std::vector<uint64_t> read_at(uint64_t n, uint64_t k, uint64_t l) { uint64_t last = n >= k ? (n / k - 1) / l : 0, cnt = n >= k ? last + 1 : 0; std::vector<uint64_t> r; if (cnt) { r.push_back(0); if (prover_reads > 2 && last > 1) r.push_back(last / 2); if (prover_reads > 1 && last) r.push_back(last); } return r; } }
inline void Prover::GenerateProof() {
    if (!sim::is(segm.x, segm.start) || !sim::is(segm.y, segm.start + segm.length)) sched::fail("segment-endpoints", vh::fmt("prover for [%llu,+%llu] got endpoints %s and %s", (unsigned long long)segm.start, (unsigned long long)segm.length, sim::show(segm.x).c_str(), sim::show(segm.y).c_str()));
    for (uint64_t i : sim::read_at(num_iterations, k, l)) {
        if (!PerformExtraStep()) return; if (sim::slow) { double d; { sched::Quiet q; d = sim::slow(segm.start, segm.length); } if (d > 0) std::this_thread::sleep_for(std::chrono::duration<double>(d)); } form t = GetForm(i); uint64_t e = segm.start + i * k * l;
        if (!sim::is(t, e)) sched::fail("intermediate", vh::fmt("prover for [%llu,+%llu] read %s where exponent %llu belongs", (unsigned long long)segm.start, (unsigned long long)segm.length, sim::show(t).c_str(), (unsigned long long)e));
    }
    if (!PerformExtraStep()) return;
    proof = sim::proofform(segm.start, segm.length); OnFinish();
}
// the switch of the two-segment recorder is brought within reach; its table keeps the real size
// vdf.h's own slow squaring stays compiled but every call prefers this overload
template <class V, class W> static void repeated_square_sim(V &, form &f, const integer &, const integer &, uint64 base, uint64 n, W l) {
    sim::Original::form v; for (uint64 i = 0; i < n; i++) { mpz_add_ui(f.a.impl, f.a.impl, 1); if constexpr (std::is_pointer<W>::value) if (l && sim::is_rel(base + i + 1)) { v.a[0] = f.a.impl[0]; v.b[0] = f.b.impl[0]; v.c[0] = f.c.impl[0]; l->OnIteration(NL_FORM, &v, base + i); } }
}
#define repeated_square_original repeated_square_sim
#define vdf_original sim::Original
#ifdef SIM_GEN
static int sim_kSwitchIters = 400000, sim_kMaxItersAllowed = 1000000;
#include "callback.h"
#else
#define kSwitchIters kSwitchIters_real
#define kMaxItersAllowed kMaxItersAllowed_real
#include "callback.h"
#undef kSwitchIters
#undef kMaxItersAllowed
static int kSwitchIters = 91000000, kMaxItersAllowed = 800000000;
#endif
#undef vdf_original
#define vdf_original vdf_original_unused
#include "vdf.h"
#undef vdf_original
namespace sim {
static bool nseg_relevant_(uint64_t it, int segs) {
    if (it % (1 << 15) == 0) return true; if (it & 1) return false;
    for (int b = 0; b < segs; b++) { uint64_t p = 1ull << (16 + 2 * b), o = it % p; uint32_t k = b ? 12 : 10, l = b < 2 ? 1 : p >> 18; if (o % (k * l)) continue; for (uint64_t r : read_at(p, k, l)) if (o == r * k * l) return true; }
    return false;
}
static void nseg_relevant(uint64_t upto, int segs) { rel.clear(); for (uint64_t it = 2; it <= upto; it += 2) if (nseg_relevant_(it, segs)) rel.push_back(it); }
}
