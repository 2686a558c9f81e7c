// Common support for the exhaustive-exploration harnesses: case enumeration and sharding,
// crash attribution (a memory-mapped "crumb" naming the running case), violation and coverage reporting.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

struct Ctx {
    int shard = 0, nshards = 1, thin = 1;   // thin k: only every k-th case is run
    bool thorough = false;
    std::string only, dir = ".", mode;
    uint64_t resume = 0;     // skip the cases numbered below this (set when restarting after a crash)
    uint64_t ordinal = 0;    // number of the next case
    int caseSeconds = 60;    // processor seconds one case may use before it counts as non-terminating
    FILE* out = nullptr;
    char* crumb = nullptr;
    std::map<std::string, uint64_t> counts;
    std::unordered_set<uint64_t> seen;
    std::vector<std::string> samples;
    uint64_t nviol = 0;
    std::map<std::string, uint64_t> violPerClass;
    std::string current;
};
inline Ctx& ctx() { static Ctx c; return c; }
static const size_t CRUMB = 1 << 16;

inline std::string esc(std::string const& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

inline void setCrumb(std::string const& key) {
    Ctx& c = ctx();
    if (!c.crumb) return;
    size_t n = std::min(key.size(), CRUMB - 64);
    memcpy(c.crumb + 32, key.data(), n);
    c.crumb[32 + n] = 0;
    snprintf(c.crumb, 32, "%llu", (unsigned long long)c.ordinal);
}
inline void onTimeout(int) { const char* m = "MC-TIMEOUT\n"; ssize_t r = write(2, m, strlen(m)); (void)r; _exit(98); }
inline void armTimer() {
    itimerval t{}; t.it_value.tv_sec = ctx().caseSeconds; setitimer(ITIMER_PROF, &t, nullptr);
}

inline void init(int argc, char** argv) {
    Ctx& c = ctx();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--shard") c.shard = atoi(v.c_str());
        else if (a == "--nshards") c.nshards = atoi(v.c_str());
        else if (a == "--thin") c.thin = atoi(v.c_str());
        else if (a == "--tier") c.thorough = (v == "thorough");
        else if (a == "--only") c.only = v;
        else if (a == "--dir") c.dir = v;
        else if (a == "--mode") c.mode = v;
        else if (a == "--resume") c.resume = strtoull(v.c_str(), 0, 10);
        else if (a == "--case-seconds") c.caseSeconds = atoi(v.c_str());
    }
    std::string base = c.dir + "/s" + std::to_string(c.shard);
    c.out = fopen((base + ".jsonl").c_str(), "a");
    int fd = open((base + ".crumb").c_str(), O_RDWR | O_CREAT, 0600);
    if (fd >= 0 && ftruncate(fd, CRUMB) == 0) {
        void* p = mmap(0, CRUMB, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) { c.crumb = (char*)p; c.crumb[0] = 0; c.crumb[32] = 0; }
        close(fd);
    }
    signal(SIGPROF, onTimeout);
}

// Begin the next case. True if this process is to run it.
inline bool take(std::string const& key) {
    Ctx& c = ctx();
    uint64_t me = c.ordinal++;
    if (!c.only.empty()) { if (c.only != key) return false; }
    else {
        if (me % c.thin) return false;
        if ((int)(me / c.thin % c.nshards) != c.shard) return false;
        if (me < c.resume) return false;
    }
    c.current = key;
    setCrumb(key);
    armTimer();
    c.counts["evaluations"]++;
    return true;
}
inline void count(std::string const& n, uint64_t k = 1) { ctx().counts[n] += k; }
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* b = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t hashStr(std::string const& s, uint64_t h = 1469598103934665603ull) { return hashBytes(s.data(), s.size(), h); }
inline void distinct(uint64_t h) { if (ctx().seen.size() < 4000000) ctx().seen.insert(h); }
inline void sample(std::string const& s, size_t max = 4) { if (ctx().samples.size() < max) ctx().samples.push_back(s); }

// cls: a short name of the kind of failure (bounds how many are reported in detail per kind).
inline void viol(std::string const& cls, std::string const& detail) {
    Ctx& c = ctx();
    c.nviol++;
    if (c.violPerClass[cls]++ < 40) {
        fprintf(c.out, "{\"t\":\"viol\",\"key\":\"%s\",\"cls\":\"%s\",\"detail\":\"%s\"}\n", esc(c.current).c_str(), esc(cls).c_str(), esc(detail).c_str());
        fflush(c.out);
    }
}
inline int finish() {
    Ctx& c = ctx();
    itimerval t{}; setitimer(ITIMER_PROF, &t, nullptr);
    for (auto& kv : c.counts) fprintf(c.out, "{\"t\":\"cnt\",\"name\":\"%s\",\"n\":%llu}\n", kv.first.c_str(), (unsigned long long)kv.second);
    for (auto& s : c.samples) fprintf(c.out, "{\"t\":\"sample\",\"s\":\"%s\"}\n", esc(s).c_str());
    fprintf(c.out, "{\"t\":\"end\",\"ordinal\":%llu}\n", (unsigned long long)c.ordinal);
    fclose(c.out);
    if (!c.seen.empty()) {
        FILE* f = fopen((c.dir + "/s" + std::to_string(c.shard) + ".seen").c_str(), "ab");
        for (uint64_t h : c.seen) fwrite(&h, 8, 1, f);
        fclose(f);
    }
    if (c.crumb) c.crumb[32] = 0;
    return 0;
}

template <class T> std::string str(std::vector<T> const& v) {
    std::ostringstream s; s.precision(17); s << "[";
    for (size_t i = 0; i < v.size(); ++i) s << (i ? " " : "") << v[i];
    s << "]"; return s.str();
}
template <class T> std::string str(std::set<T> const& v) {
    std::ostringstream s; s << "{"; bool f = true;
    for (auto& x : v) { s << (f ? "" : " ") << x; f = false; }
    s << "}"; return s.str();
}
template <class... A> std::string cat(A const&... a) { std::ostringstream s; s.precision(17); int d[] = {0, ((void)(s << a), 0)...}; (void)d; return s.str(); }

// relative/absolute comparison; two NaNs agree
inline bool close(double a, double b, double rtol, double atol) {
    if (std::isnan(a) && std::isnan(b)) return true;
    if (a == b) return true;
    if (!std::isfinite(a) || !std::isfinite(b)) return false;
    return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}
} // namespace mc
