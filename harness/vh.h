// Harness support: deterministic enumeration with sharding, current-case recording (so that a crash or
// hang is attributable to one case and can be replayed alone), counters and violation records.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <functional>
#include <chrono>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace vh {

struct Ctx {
    std::string mode, out, tier = "quick";
    uint64_t shard = 0, nshards = 1;
    int64_t only = -1;           // replay: evaluate only this case index
    double budget = 1e9;
    uint64_t idx = 0;            // index of the next case
    uint64_t cur = 0;
    uint64_t evaluated = 0, states = 0, transitions = 0, traces = 0, nontrivial = 0;
    bool capped = false;
    int max_viol = 20;
    uint64_t nviol = 0;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> extra;
    std::set<std::string> outcomes;
    std::set<std::string> keys;
    FILE *vf = nullptr;
    volatile uint64_t *cur_shared = nullptr;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    bool thorough() const { return tier == "thorough"; }
    double elapsed() const {
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    }
};
inline Ctx C;

inline std::string esc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
inline std::string fmt(const char *f, ...) {
    va_list ap; va_start(ap, f); char *p = nullptr; if (vasprintf(&p, f, ap) < 0) abort(); va_end(ap);
    std::string s(p); free(p); return s;
}
inline void init(int argc, char **argv) {
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--mode") C.mode = v;
        else if (k == "--out") C.out = v;
        else if (k == "--tier") C.tier = v;
        else if (k == "--shard") C.shard = strtoull(v.c_str(), 0, 10);
        else if (k == "--nshards") C.nshards = strtoull(v.c_str(), 0, 10);
        else if (k == "--only") C.only = strtoll(v.c_str(), 0, 10);
        else if (k == "--budget") C.budget = atof(v.c_str());
        else { fprintf(stderr, "bad arg %s\n", k.c_str()); exit(3); }
    }
    if (!C.out.empty()) {
        C.vf = fopen((C.out + ".viol").c_str(), "w");
        int fd = open((C.out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, 4096)) { perror("cur"); exit(3); }
        C.cur_shared = (volatile uint64_t *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
}
// Advance to the next case; true if this process is to evaluate it.
inline bool next() {
    uint64_t i = C.idx++;
    if (C.only >= 0) { if ((uint64_t)C.only != i) return false; }
    else {
        if (((i * 0x9E3779B97F4A7C15ull) >> 32) % C.nshards != C.shard) return false;
        if (C.capped) return false;
        if ((C.evaluated & 15) == 0 && C.elapsed() > C.budget) { C.capped = true; return false; }
    }
    C.cur = i; C.evaluated++;
    if (C.cur_shared) { C.cur_shared[0] = i; C.cur_shared[1] = 1; }
    return true;
}
inline bool capped() { return C.capped; }
inline void sample(const std::string &s) { if (C.samples.size() < 4) C.samples.push_back(s); }
inline void outcome(const std::string &s) { if (C.outcomes.size() < 200) C.outcomes.insert(s); }
inline void viol(const std::string &key, const std::string &desc) {
    C.nviol++;
    if (!C.keys.insert(key).second && C.nviol > 200) return;
    if ((int)C.keys.size() > 400) return;
    std::string line = fmt("{\"idx\": %llu, \"key\": \"%s\", \"desc\": \"%s\"}\n",
        (unsigned long long)C.cur, esc(key).c_str(), esc(desc.substr(0, 3000)).c_str());
    if (C.vf) { fputs(line.c_str(), C.vf); fflush(C.vf); }
    else fputs(line.c_str(), stdout);
}
inline int finish() {
    std::string s = "{";
    s += fmt("\"total_cases\": %llu, \"evaluated\": %llu, \"states\": %llu, \"transitions\": %llu, \"traces\": %llu, \"nontrivial\": %llu, \"capped\": %s, \"violations\": %llu",
        (unsigned long long)C.idx, (unsigned long long)C.evaluated, (unsigned long long)C.states,
        (unsigned long long)C.transitions, (unsigned long long)C.traces, (unsigned long long)C.nontrivial,
        C.capped ? "true" : "false", (unsigned long long)C.nviol);
    s += ", \"samples\": [";
    for (size_t i = 0; i < C.samples.size(); i++) s += (i ? ", " : "") + ("\"" + esc(C.samples[i]) + "\"");
    s += "], \"outcomes\": [";
    { bool f = true; for (auto &o : C.outcomes) { s += (f ? "" : ", ") + ("\"" + esc(o) + "\""); f = false; } }
    s += "], \"extra\": {";
    { bool f = true; for (auto &e : C.extra) { s += fmt("%s\"%s\": %llu", f ? "" : ", ", esc(e.first).c_str(), (unsigned long long)e.second); f = false; } }
    s += fmt("}, \"wall\": %.3f}\n", C.elapsed());
    if (!C.out.empty()) {
        FILE *f = fopen((C.out + ".tmp").c_str(), "w"); fputs(s.c_str(), f); fclose(f);
        rename((C.out + ".tmp").c_str(), C.out.c_str());
    } else fputs(s.c_str(), stdout);
    if (C.vf) fclose(C.vf);
    fflush(stdout);
    _exit(C.nviol ? 1 : 0);   // skip static destructors of the code under test
}
inline uint64_t fnv(const std::string &s) {
    uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h;
}
} // namespace vh
