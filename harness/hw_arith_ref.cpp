#include "../sched/vsched.h"
#include "vh.h"
#include "ref_verify.h"
// one delivered proof: the bytes of output, proof and segments; returns "" or what is wrong
std::string hw_ref_judge(const std::string &D, const uint8_t *xs, const uint8_t *d, size_t n, uint64_t t, int wit, const std::string &ya, const std::string &yb) {
    sched::Quiet q; ref::Z RD(D, 10); ref::Bytes b(d + 16, d + 116); b.insert(b.end(), d + 117, d + n);
    ref::F y; if (!ref::decode_consensus(d + 16, RD, y)) return "the output is not a form"; if (y.a.get_str() != ya || y.b.get_str() != yb) return "the output is not the value at the requested iteration";
    return ref::verify(RD, xs, b.data(), b.size(), t, wit) ? "" : "the proof does not verify";
}
