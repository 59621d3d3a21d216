// Class-group arithmetic for the hardware-client harness: the repository's own, compiled without instrumentation, the
// challenge memoised; and the independent verifier.
#include "../sched/vsched.h"
#include "include.h"
#include "integer_common.h"
#include "util.h"
#include "picosha2.h"
#include "nucomp.h"
#define GetB GetB_real
#include "proof_common.h"
#undef GetB
#include <map>
integer GetB(const integer &D, form &x, form &y) {
    sched::Quiet q; static std::map<std::string, integer> M; std::string k = D.to_string() + x.a.to_string() + "," + x.b.to_string() + "," + y.a.to_string() + "," + y.b.to_string();
    auto i = M.find(k); if (i != M.end()) return i->second; if (M.size() > 50000) M.clear(); integer r = GetB_real(D, x, y); M.emplace(k, r); return r;
}
#include "vdf_hw_symbol_anchors.cpp"
