// Choice-sequence generator: every random decision of a case is a byte of one sequence, so the same
// mechanism gives seeded random generation, byte-level fuzzing (libFuzzer), shrinking and replay.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdio>
#include <string>
#include <vector>
#include <stdexcept>

using Bytes = std::vector<uint8_t>;

struct PropFail { std::string msg; };
struct Discard {};

[[noreturn]] void failf(const char* file, int line, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
#define FAIL(...) failf(__FILE__, __LINE__, __VA_ARGS__)
#define REQUIRE(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)

std::string hex(const uint8_t* p, size_t n, size_t maxn = 4096);
inline std::string hex(const Bytes& b, size_t maxn = 4096) { return hex(b.data(), b.size(), maxn); }
Bytes unhex(const std::string& s);

uint64_t mix64(uint64_t x);
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0x9e3779b97f4a7c15ULL);

struct Recorder { uint8_t* buf; size_t cap; volatile uint32_t* len; };

struct Src
{
    // random mode
    uint64_t st = 0;
    bool random = false;
    Recorder* rec = nullptr;
    // replay mode
    const uint8_t* data = nullptr;
    size_t size = 0;
    size_t pos = 0;
    Bytes* tee = nullptr;   // also collects the bytes handed out

    explicit Src(uint64_t seed, Recorder* r) : st(seed), random(true), rec(r) {}
    Src(const uint8_t* d, size_t n, Recorder* r = nullptr) : rec(r), data(d), size(n) {}

    uint8_t byte();
    uint64_t bits(int nbytes) { uint64_t r = 0; for (int i = 0; i < nbytes; ++i) r = r << 8 | byte(); return r; }
    // uniform-ish in [0,n); 0 is the simplest
    uint64_t below(uint64_t n)
    {
        if (n <= 1) return 0;
        int nb = 1; while (nb < 8 && (n - 1) >> (8 * nb)) ++nb;
        if (nb < 8 && n > (1ULL << (8 * nb)) / 4 && (n & (n - 1))) ++nb; // avoid strong modulo bias
        if (nb > 8) nb = 8;
        return bits(nb) % n;
    }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    // true with probability ~ num/256; false is the simplest
    bool chance(unsigned num256) { return byte() >= 256 - num256; }
    bool flip() { return byte() & 1; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    Bytes raw(size_t n) { Bytes b(n); for (auto& x : b) x = byte(); return b; }
    // n bytes with a short description: patterns, or expanded from a 4-byte seed, or raw when short
    Bytes blob(size_t n);
    // random bytes from a 4-byte seed (n of them) - never a pattern
    Bytes noise(size_t n);
    // a length in [0,max] biased to small values, block boundaries and the maximum
    size_t len(size_t max);
};

// bookkeeping of the current case (goes to the evidence file)
struct CaseInfo
{
    bool nontrivial = false;
    uint64_t key = 0;           // identity of the semantic input
    std::string desc;           // human readable
    uint64_t checks = 0;        // oracle comparisons made
};
extern CaseInfo g_case;
void label(const char* name);
inline void checked(uint64_t n = 1) { g_case.checks += n; }
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // appended to desc
inline void nontrivial() { g_case.nontrivial = true; }

// ---- scenarios ----
enum { FORK_PER_CASE = 1, FUZZABLE = 2, NO_ENGINE = 4, THREADED = 8, SLOW = 16 /* a case may take minutes: no shrinking, one worker */ };
struct Scenario
{
    const char* prop;
    const char* name;
    void (*fn)(Src&);
    unsigned quick;      // cases in the quick tier
    unsigned thorough;   // cases in the thorough tier
    unsigned flags;
    const char* rule;    // what makes a case non-trivial
    const char* variant; // library build it runs with: "asan", "tsan" or "opt"
};
std::vector<Scenario>& scenarios();
struct Reg { Reg(Scenario s) { scenarios().push_back(s); } };
#define SCENARIO(prop, ident, quick, thorough, flags, rule) \
    static void ident(Src& s); \
    static Reg reg_##ident({prop, #ident, ident, quick, thorough, flags, rule, "asan"}); \
    static void ident(Src& s)
#define SCENARIO_OPT(prop, ident, quick, thorough, flags, rule) \
    static void ident(Src& s); \
    static Reg reg_##ident({prop, #ident, ident, quick, thorough, flags, rule, "opt"}); \
    static void ident(Src& s)
// several cases of another scenario one after another in one process, against the uninstrumented library, with freed memory
// handed out again at once: what is remembered from an earlier case (by address, by a few bytes, by a size) shows
void run_again(void (*body)(Src&), Src& s);
#define SCENARIO_AGAIN(prop, body, quick, thorough) \
    static void body##_again(Src& s) { run_again(body, s); } \
    static Reg reg_##body##_again({prop, #body "_again", body##_again, quick, thorough, 0, "one of the repeated cases is, by the rule of its scenario", "opt"});
#define SCENARIO_TSAN(prop, ident, quick, thorough, flags, rule) \
    static void ident(Src& s); \
    static Reg reg_##ident({prop, #ident, ident, quick, thorough, flags, rule, "tsan"}); \
    static void ident(Src& s)
