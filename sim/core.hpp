// Simulator core: seeded randomness, plans, run context, seams (clock, heap).
// Everything a run does is a pure function of its Plan (and of the code under test).
#pragma once

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

namespace sim
{

typedef std::uint64_t u64;
typedef std::int64_t  i64;

// ---------------------------------------------------------------- randomness
class Rng
{
public:

    explicit Rng(u64 seed = 1) { reseed(seed); }

    void reseed(u64 seed)
    {
        u64 z = seed;
        for (u64& w : s_)
        {
            z += 0x9e3779b97f4a7c15ull;
            u64 x = z;
            x     = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
            x     = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
            w     = x ^ (x >> 31);
        }
    }

    u64 next()
    {
        auto rotl = [](u64 x, int k) { return (x << k) | (x >> (64 - k)); };
        u64  r    = rotl(s_[1] * 5, 7) * 9;
        u64  t    = s_[1] << 17;
        s_[2] ^= s_[0];
        s_[3] ^= s_[1];
        s_[1] ^= s_[2];
        s_[0] ^= s_[3];
        s_[2] ^= t;
        s_[3] = rotl(s_[3], 45);
        return r;
    }

    // [0, n)
    u64    below(u64 n) { return n == 0 ? 0 : next() % n; }
    double unit() { return double(next() >> 11) * 0x1.0p-53; }
    double uni(double a, double b) { return a + (b - a) * unit(); }
    bool   chance(double p) { return unit() < p; }
    int    range(int a, int b) { return a + int(below(u64(b - a + 1))); }

    template <class T>
    const T& pick(const std::vector<T>& v)
    {
        return v[below(v.size())];
    }

    // index drawn from weights
    std::size_t weighted(const std::vector<double>& w)
    {
        double total = 0;
        for (double x : w)
            total += x;
        double r = uni(0, total);
        for (std::size_t i = 0; i < w.size(); ++i)
        {
            if (r < w[i])
                return i;
            r -= w[i];
        }
        return w.size() - 1;
    }

private:

    u64 s_[4];
};

// --------------------------------------------------------------------- plans
struct Op
{
    std::string         kind;
    std::vector<double> a;

    double arg(std::size_t i, double d = 0) const
    {
        return i < a.size() ? a[i] : d;
    }
    u64 pick(std::size_t i) const
    {
        double v = arg(i);
        return v <= 0 ? 0 : u64(v);
    }
};

struct Plan
{
    std::map<std::string, double> cfg;
    std::vector<Op>               ops;

    double get(const std::string& k, double d = 0) const
    {
        auto it = cfg.find(k);
        return it == cfg.end() ? d : it->second;
    }
    void add(const std::string& kind, std::vector<double> a = {})
    {
        ops.push_back(Op{kind, std::move(a)});
    }
};

std::string toText(const Plan& p);
bool        fromText(const std::string& text, Plan& p);
std::string toText(const Op& op);

// ---------------------------------------------------------------------- heap
// All memory of a run comes from a fixed-address arena which the run's plan controls.
struct HeapConfig
{
    u64  placementSeed = 0; // 0: sequential placement, memory is never reused.
    int  fill          = 0; // content of fresh and released memory (see fillByte)
};

struct HeapStats
{
    i64 liveBlocks = 0; // allocated by the engine and not yet released
    i64 liveBytes  = 0;
    i64 allocs     = 0;
};

void      heapBegin(const HeapConfig& c);
void      heapEnd();
// from now on memory is placed and filled differently
void      heapReseed(u64 placementSeed, int fill);
HeapStats heapEngine(); // what the engine currently holds
// fail the k-th (1 based) engine allocation from now on, 0 disarms.
void heapFailAt(i64 k);
bool heapFailFired();
i64  heapEngineAllocsSinceArm();
// describes the oldest engine allocation that is live (for leak reports)
std::string heapOldestLive();
// addresses of live engine blocks, oldest first
std::vector<std::pair<u64, std::size_t>> heapLive();
std::vector<std::pair<u64, std::size_t>> heapLiveAddresses(); // address, size

extern int g_engineDepth;

// Code below this scope is the engine's (its allocations are accounted/failed)
struct EngineScope
{
    EngineScope() : saved{g_engineDepth} { g_engineDepth = 1; }
    ~EngineScope() { g_engineDepth = saved; }
    int saved;
};
// Code below this scope is the simulator's (callbacks invoked by the engine)
struct SimScope
{
    SimScope() : saved{g_engineDepth} { g_engineDepth = 0; }
    ~SimScope() { g_engineDepth = saved; }
    int saved;
};

// --------------------------------------------------------------------- clock
extern i64 g_clockNs;    // simulated steady clock
extern i64 g_clockTick;  // advance per read
extern u64 g_clockReads;

// ----------------------------------------------------------------- run context
struct Violation
{
    std::string cls;
    std::string msg;
};

// Thrown by oracles; unwinds to the runner (never through engine code:
// violations found within callbacks end the process directly)
class Ctx
{
public:

    u64 seed = 0;
    Rng rng{1}; // only for harness-side randomness that the plan fixes by seed

    // event log: hashed, optionally printed
    bool verbose = false;
    void ev(const char* what) { mix(what, std::strlen(what)); tick(); if (verbose) std::fprintf(stderr, "  %s\n", what); }
    void ev(const char* what, i64 a, i64 b = 0, i64 c = 0)
    {
        mix(what, std::strlen(what));
        mix(&a, sizeof a);
        mix(&b, sizeof b);
        mix(&c, sizeof c);
        tick();
        if (verbose)
            std::fprintf(stderr, "  %s %lld %lld %lld\n", what, (long long)a, (long long)b, (long long)c);
    }
    void evf(const char* what, double v)
    {
        mix(what, std::strlen(what));
        mix(&v, sizeof v);
        tick();
    }
    void hashF(float v)
    {
        mix(&v, sizeof v);
    }
    void mix(const void* p, std::size_t n)
    {
        const unsigned char* b = static_cast<const unsigned char*>(p);
        for (std::size_t i = 0; i < n; ++i)
            hash = (hash ^ b[i]) * 0x100000001b3ull;
    }

    // measured reach
    void count(const std::string& k, i64 n = 1);
    void state(u64 signature); // a distinct state/interleaving was reached

    [[noreturn]] void violate(const std::string& cls, const std::string& msg);
    // the simulator itself is wrong / out of resources; never a violation.
    [[noreturn]] void error(const std::string& msg);

    // progress is reported so that hangs can be told from slow runs
    void tick() { ++events; }

    u64    hash    = 0xcbf29ce484222325ull;
    u64    events  = 0;
    double simTime = 0;
    int    opIndex = -1;
    bool   nontrivial = false;
};

extern Ctx* g_ctx;

u64 mixHash(u64 a, u64 b);

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ------------------------------------------------------------------ properties
struct Prop
{
    const char* id;
    // generates the plan of a seed
    std::function<Plan(Rng&, int tier)> gen;
    std::function<void(const Plan&, Ctx&)> exec;
    // the code under test keeps state between runs: every run gets a process of its own
    bool isolate = false;
};

// for runs that continue in several processes: reports what this process counted, then ends it
void              beginChild();
[[noreturn]] void endChild(int fd, const std::string& payload);
// waits for a child; what it reported, or ends this process as the child ended
std::string joinChild(int pid, int fd);

std::vector<Prop>& registry();

struct Register
{
    Register(Prop p) { registry().push_back(std::move(p)); }
};

} // namespace sim
