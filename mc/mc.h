// Bounded-exhaustive explorer (stateless search over choice sequences) for the pe_bliss checks.
#pragma once
#include <stdint.h>
#include <stdarg.h>
#include <stddef.h>
#include <string>
#include <vector>

namespace mc
{
struct Violation { std::string key, msg; };
struct SkipShard {};
struct KnownHit {};

enum { max_choices = 4096 };

struct Ctx
{
    // --- exploration
    int choose(int n, const char* what);             // all n alternatives are explored
    int dev(int n, const char* what);                // alternative 0 is the default; others cost one deviation
    bool flip(const char* what) { return choose(2, what) == 1; }
    template<typename T, size_t N> T pick(const T (&a)[N], const char* what) { return a[choose(static_cast<int>(N), what)]; }
    template<typename T> T pick(const std::vector<T>& a, const char* what) { return a[choose(static_cast<int>(a.size()), what)]; }
    template<typename T, size_t N> T pickdev(const T (&a)[N], const char* what) { return a[dev(static_cast<int>(N), what)]; }
    template<typename T> T pickdev(const std::vector<T>& a, const char* what) { return a[dev(static_cast<int>(a.size()), what)]; }
    int devs_left() const { return dev_budget - devs_used; }

    // --- measurement
    void outcome(uint64_t h);                        // a non-trivial outcome by the part's rule
    void state(uint64_t h);                          // a model state reached
    void step(unsigned n = 1) { steps += n; }        // transitions executed against the implementation
    void trace() { ++traces; }                       // a model trace replayed on the implementation

    // --- description (kept for samples and replays)
    void desc(const char* fmt, ...) __attribute__((format(printf, 2, 3)));

    // --- verdict
    [[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));

    // --- internals
    int dev_budget = 0, devs_used = 0;
    uint32_t steps = 0, traces = 0;
};

#define MC_REQUIRE(c, cond, key, ...) do { if(!(cond)) (c).fail(key, __VA_ARGS__); } while(0)

struct Part
{
    const char* name;
    void (*run)(Ctx&);
    int dev_quick;       // deviation budget, quick tier
    int dev_thorough;    // deviation budget, thorough tier
    const char* rule;    // how cases are made and what counts as non-trivial
};

// Every check source defines these
extern const char* const check_id;
extern const Part parts[];
extern const int part_count;

bool thorough();
inline int tier_pick(int q, int t) { return thorough() ? t : q; }

// --- allocation control (operator new/delete are replaced)
uint64_t live_allocs();
uint64_t alloc_calls();                 // number of allocations so far
void set_alloc_cap(size_t bytes);       // larger single requests throw bad_alloc (default 64 MB)
void fail_alloc_at(int64_t n);          // the n-th allocation from now on throws bad_alloc (0 = next); -1 = off
bool alloc_failed();                    // an injected failure has happened since fail_alloc_at
size_t peak_request();                  // largest single request since reset
void reset_peak();
void allow_seconds(int n);                 // this execution may take longer than 30 s
void no_leak_check();                   // this execution may leave allocations behind (caches of the harness)

// --- hashing
inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    return h;
}
inline uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
    const unsigned char* b = static_cast<const unsigned char*>(p);
    for(size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ULL; }
    return h;
}
inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ULL) { return hash(s.data(), s.size(), h); }
std::string hex(const std::string& s, size_t max = 64);
}
