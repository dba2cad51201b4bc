#include "core.hpp"

#include <cstdarg>
#include <chrono>
#include <exception>
#include <new>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

#if defined(__SANITIZE_ADDRESS__)
#    define SIM_ASAN 1
#    include <sanitizer/asan_interface.h>
#    include <sanitizer/lsan_interface.h>
#    define NOASAN __attribute__((no_sanitize_address))
#else
#    define SIM_ASAN 0
#    define NOASAN
#endif

#ifdef SIM_GCOV
extern "C" void __gcov_dump();
#endif

namespace sim
{

int  g_engineDepth = 0;
i64  g_clockNs     = 1'000'000'000;
i64  g_clockTick   = 0;
u64  g_clockReads  = 0;
Ctx* g_ctx         = nullptr;

// ------------------------------------------------------------------------ heap
namespace
{

constexpr u64 arenaAddr = 0x300000000000ull;
constexpr std::size_t arenaSize = std::size_t{3} << 30;

struct Header
{
    u64         magic;
    std::size_t size;
    u64         cls;   // size class, or ~0
    u64         seq;   // engine allocation number, 0 if not the engine's
    Header*     prev;  // list of live engine blocks
    Header*     next;
    u64         pad[2];
};
static_assert(sizeof(Header) == 64);
constexpr u64 MAGIC_LIVE = 0x51a1e0b10c4a11feull;
constexpr u64 MAGIC_DEAD = 0xdeadb10cdeadb10cull;

struct Heap
{
    bool        active = false;
    char*       mem    = nullptr;
    std::size_t used = 0, high = 0;
    HeapConfig  cfg;
    Rng         rng{1};

    HeapStats eng;
    u64       seq = 0;
    Header    live{};

    i64  failAt = 0, sinceArm = 0;
    bool fired = false;

    // size classes, arrays live outside of the arena
    static constexpr int nCls = 48;
    struct Free
    {
        void**      p   = nullptr;
        std::size_t n   = 0;
        std::size_t cap = 0;
    } freeSlots[nCls];
};

Heap H;

NOASAN unsigned char fillByte(bool fresh)
{
    switch (H.cfg.fill)
    {
        case 0: return 0x00;
        case 1: return 0xff; // NaNs, -1
        case 2: return 0xa5;
        case 3: return fresh ? 0x7f : 0x3f; // huge/NaN, ~0.7
        default: return (unsigned char)(H.rng.next());
    }
}

NOASAN std::size_t clsSize(int c)
{
    // 16, 32, 48, 64, then powers of two and their halves
    if (c < 4)
        return 16 * (c + 1);
    int         e = (c - 4) / 2;
    std::size_t b = std::size_t{64} << e;
    return (c % 2) ? 2 * b : b + b / 2;
}

NOASAN int clsOf(std::size_t n)
{
    int c = 0;
    while (clsSize(c) < n)
        ++c;
    return c;
}

NOASAN void pushFree(int c, void* p)
{
    auto& f = H.freeSlots[c];
    if (f.n == f.cap)
    {
        f.cap = f.cap ? 2 * f.cap : 64;
        f.p   = static_cast<void**>(std::realloc(f.p, f.cap * sizeof(void*)));
    }
    f.p[f.n++] = p;
}

NOASAN char* carve(std::size_t n)
{
    n = (n + 15) & ~std::size_t{15};
    if (H.used + n > arenaSize)
    {
        static const char m[] = "simulation arena exhausted\n";
        (void)!write(2, m, sizeof m - 1);
        _exit(5);
    }
    char* p = H.mem + H.used;
    H.used += n;
    if (H.used > H.high)
        H.high = H.used;
    return p;
}

#if SIM_ASAN
constexpr std::size_t redzone = 32;
#else
constexpr std::size_t redzone = 0;
#endif

NOASAN void rawFill(char* p, unsigned char b, std::size_t n)
{
    for (std::size_t i = 0; i < n; ++i)
        static_cast<volatile char*>(p)[i] = char(b);
}

NOASAN void* arenaAlloc(std::size_t n)
{
    bool isEngine = g_engineDepth > 0;
    if (isEngine)
    {
        ++H.sinceArm;
        if (H.failAt > 0 && H.sinceArm == H.failAt)
        {
            H.fired = true;
            return nullptr;
        }
    }

    if (n == 0)
        n = 1;
    std::size_t total = sizeof(Header) + n + redzone;
    char*       base;
    u64         cls = ~u64{0};
    if (H.cfg.placementSeed != 0 && total <= (std::size_t{1} << 20))
    {
        int c = clsOf(total);
        cls   = u64(c);
        if (H.freeSlots[c].n == 0)
        {
            std::size_t s = clsSize(c);
            int         k = int(std::max<std::size_t>(4, std::min<std::size_t>(64, 65536 / s)));
            carve(16 * H.rng.below(64));
            char* run = carve(s * k);
            for (int i = 0; i < k; ++i)
                pushFree(c, run + s * i);
        }
        auto&       f = H.freeSlots[c];
        std::size_t i = H.rng.below(f.n);
        base          = static_cast<char*>(f.p[i]);
        f.p[i]        = f.p[--f.n];
    }
    else
        base = carve(total);

    Header* h = reinterpret_cast<Header*>(base);
#if SIM_ASAN
    ASAN_UNPOISON_MEMORY_REGION(base, sizeof(Header) + n);
#endif
    h->magic = MAGIC_LIVE;
    h->size  = n;
    h->cls   = cls;
    h->seq   = 0;
    h->prev = h->next = nullptr;
    if (isEngine)
    {
        h->seq = ++H.seq;
        ++H.eng.liveBlocks;
        H.eng.liveBytes += i64(n);
        ++H.eng.allocs;
        h->next           = &H.live;
        h->prev           = H.live.prev;
        h->prev->next     = h;
        H.live.prev       = h;
    }
    char* user = base + sizeof(Header);
    rawFill(user, fillByte(true), n);
#if SIM_ASAN
    ASAN_POISON_MEMORY_REGION(base, sizeof(Header));
#endif
    return user;
}

NOASAN void arenaFree(void* p)
{
    char*   base = static_cast<char*>(p) - sizeof(Header);
    Header* h    = reinterpret_cast<Header*>(base);
    if (h->magic != MAGIC_LIVE)
    {
        if (g_ctx != nullptr)
            g_ctx->violate(
                "heap:bad-free",
                h->magic == MAGIC_DEAD ? "memory released twice" : "released memory that was not allocated"
            );
        _exit(5);
    }
#if SIM_ASAN
    ASAN_UNPOISON_MEMORY_REGION(base, sizeof(Header));
#endif
    h->magic = MAGIC_DEAD;
    if (h->seq != 0)
    {
        --H.eng.liveBlocks;
        H.eng.liveBytes -= i64(h->size);
        h->prev->next = h->next;
        h->next->prev = h->prev;
    }
    std::size_t n = h->size;
    u64         c = h->cls;
    rawFill(static_cast<char*>(p), fillByte(false), n);
#if SIM_ASAN
    ASAN_POISON_MEMORY_REGION(base, sizeof(Header) + n);
#endif
    if (c != ~u64{0})
        pushFree(int(c), base);
}

inline bool inArena(const void* p)
{
    return H.mem != nullptr && p >= H.mem && p < H.mem + arenaSize;
}

void* simNew(std::size_t n)
{
    if (n > arenaSize / 2)
        return nullptr; // there is no such memory
    if (H.active)
        return arenaAlloc(n);
    return std::malloc(n == 0 ? 1 : n);
}

void simDelete(void* p)
{
    if (p == nullptr)
        return;
    if (inArena(p))
    {
        if (H.active)
            arenaFree(p);
        return; // else: the whole arena was already discarded
    }
    std::free(p);
}

} // namespace

void heapBegin(const HeapConfig& c)
{
    if (H.mem == nullptr)
    {
        void* m = mmap(
            reinterpret_cast<void*>(arenaAddr),
            arenaSize,
            PROT_READ | PROT_WRITE,
            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
            -1,
            0
        );
        if (m == MAP_FAILED)
        {
            std::perror("arena");
            _exit(5);
        }
        H.mem = static_cast<char*>(m);
    }
    H.cfg = c;
    H.rng.reseed(c.placementSeed + 77);
    if (H.high > (std::size_t{64} << 20))
    {
        madvise(H.mem, H.high, MADV_DONTNEED);
        H.high = 0;
    }
#if SIM_ASAN
    ASAN_POISON_MEMORY_REGION(H.mem, H.used + 4096);
#endif
    H.used = 0;
    H.seq  = 0;
    H.eng  = HeapStats{};
    H.live.prev = H.live.next = &H.live;
    H.failAt = H.sinceArm = 0;
    H.fired                = false;
    for (auto& f : H.freeSlots)
        f.n = 0;
    if (c.placementSeed != 0)
        carve(4096 * H.rng.below(64));
    H.active = true;
}

void heapEnd()
{
    H.active = false;
}

void heapReseed(u64 placementSeed, int fill)
{
    H.cfg.placementSeed = placementSeed;
    H.cfg.fill          = fill;
    H.rng.reseed(placementSeed + 177);
}

HeapStats heapEngine() { return H.eng; }
void      heapFailAt(i64 k)
{
    H.failAt   = k;
    H.sinceArm = 0;
    H.fired    = false;
}
bool heapFailFired() { return H.fired; }
i64  heapEngineAllocsSinceArm() { return H.sinceArm; }

NOASAN std::vector<std::pair<u64, std::size_t>> heapLive()
{
    std::vector<std::pair<u64, std::size_t>> r;
    for (Header* h = H.live.next; h != &H.live; h = h->next)
    {
        u64         q = h->seq;
        std::size_t z = h->size;
        r.push_back({q, z});
    }
    return r;
}

NOASAN std::vector<std::pair<u64, std::size_t>> heapLiveAddresses()
{
    std::vector<std::pair<u64, std::size_t>> r;
    for (Header* h = H.live.next; h != &H.live; h = h->next)
    {
        std::size_t z = h->size;
        r.push_back({u64(h) + sizeof(Header), z});
    }
    return r;
}

NOASAN std::string heapOldestLive()
{
    if (H.live.next == &H.live || H.live.next == nullptr)
        return "none";
    return fmt("engine allocation #%llu of %zu bytes", (unsigned long long)H.live.next->seq, H.live.next->size);
}

// ------------------------------------------------------------------------ misc
std::string fmt(const char* f, ...)
{
    char    buf[2048];
    va_list ap;
    va_start(ap, f);
    std::vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

u64 mixHash(u64 a, u64 b)
{
    u64 x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c159e3779b9ull + (a << 6) + (a >> 2));
    x     = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    return x ^ (x >> 31);
}

std::vector<Prop>& registry()
{
    static std::vector<Prop> r;
    return r;
}

std::string toText(const Op& op)
{
    std::string s = "op " + op.kind;
    for (double d : op.a)
        s += fmt(" %.17g", d);
    return s;
}

std::string toText(const Plan& p)
{
    std::string s;
    for (auto& [k, v] : p.cfg)
        s += fmt("cfg %s %.17g\n", k.c_str(), v);
    for (auto& op : p.ops)
        s += toText(op) + "\n";
    return s;
}

bool fromText(const std::string& text, Plan& p)
{
    std::size_t i = 0;
    while (i < text.size())
    {
        std::size_t e    = text.find('\n', i);
        std::string line = text.substr(i, e == std::string::npos ? e : e - i);
        i                = e == std::string::npos ? text.size() : e + 1;
        std::vector<std::string> tok;
        std::size_t              j = 0;
        while (j < line.size())
        {
            while (j < line.size() && line[j] == ' ')
                ++j;
            std::size_t k = j;
            while (k < line.size() && line[k] != ' ')
                ++k;
            if (k > j)
                tok.push_back(line.substr(j, k - j));
            j = k;
        }
        if (tok.empty() || tok[0][0] == '#')
            continue;
        if (tok[0] == "cfg" && tok.size() == 3)
            p.cfg[tok[1]] = std::strtod(tok[2].c_str(), nullptr);
        else if (tok[0] == "op" && tok.size() >= 2)
        {
            Op op{tok[1], {}};
            for (std::size_t k = 2; k < tok.size(); ++k)
                op.a.push_back(std::strtod(tok[k].c_str(), nullptr));
            p.ops.push_back(std::move(op));
        }
        else if (tok[0] != "end")
            return false;
    }
    return true;
}

// --------------------------------------------------------------------- context
namespace
{
// Aggregates outlive runs, hence live outside of the arena.
template <class T>
struct MallocAlloc
{
    typedef T value_type;
    MallocAlloc() = default;
    template <class U>
    MallocAlloc(const MallocAlloc<U>&)
    {
    }
    T* allocate(std::size_t n)
    {
        return static_cast<T*>(std::malloc(n * sizeof(T)));
    }
    void deallocate(T* p, std::size_t) { std::free(p); }
    template <class U>
    bool operator==(const MallocAlloc<U>&) const
    {
        return true;
    }
};
typedef std::basic_string<char, std::char_traits<char>, MallocAlloc<char>> MString;
typedef std::map<MString, i64, std::less<>, MallocAlloc<std::pair<const MString, i64>>> Counts;
Counts*& countsPtr()
{
    static Counts* c = new (std::malloc(sizeof(Counts))) Counts{};
    return c;
}
Counts& counts() { return *countsPtr(); }
typedef std::unordered_set<u64, std::hash<u64>, std::equal_to<u64>, MallocAlloc<u64>> States;
States*& statesPtr()
{
    static States* c = new (std::malloc(sizeof(States))) States{};
    return c;
}
States& states() { return *statesPtr(); }

// a child process counts from zero (what its parent counted is not even copied)
void freshAggregates()
{
    countsPtr() = new (std::malloc(sizeof(Counts))) Counts{};
    statesPtr() = new (std::malloc(sizeof(States))) States{};
}

std::string jsonEsc(const std::string& s)
{
    std::string r;
    for (char c : s)
    {
        if (c == '"' || c == '\\')
            r += '\\', r += c;
        else if ((unsigned char)c < 0x20)
            r += ' ';
        else
            r += c;
    }
    return r;
}

void out(const std::string& s)
{
    std::size_t i = 0;
    while (i < s.size())
    {
        ssize_t n = write(1, s.data() + i, s.size() - i);
        if (n <= 0)
            break;
        i += std::size_t(n);
    }
}

std::string g_currentProp;
} // namespace

void Ctx::count(const std::string& k, i64 n)
{
    counts()[MString{k.c_str()}] += n;
}

void Ctx::state(u64 s)
{
    if (states().size() < 4'000'000)
        states().insert(s);
}

void Ctx::violate(const std::string& cls, const std::string& msg)
{
    g_engineDepth = 0;
    heapFailAt(0);
    mix(cls.data(), cls.size());
    out(fmt(
            "{\"result\":\"violation\",\"prop\":\"%s\",\"seed\":%llu,\"hash\":\"%016llx\",\"op\":%d,\"class\":\"%s\",\"msg\":\"",
            g_currentProp.c_str(),
            (unsigned long long)seed,
            (unsigned long long)hash,
            opIndex,
            jsonEsc(cls).c_str()
        )
        + jsonEsc(msg) + "\"}\n");
    _exit(3);
}

void Ctx::error(const std::string& msg)
{
    std::fprintf(stderr, "simulator error: %s\n", msg.c_str());
    _exit(5);
}

// ------------------------------------------------------------------- processes
void beginChild() { freshAggregates(); }

void endChild(int fd, const std::string& payload)
{
    std::string s;
    auto        put = [&](const void* p, std::size_t n) { s.append(static_cast<const char*>(p), n); };
    u64         n   = payload.size();
    put(&n, sizeof n);
    s += payload;
    n = counts().size();
    put(&n, sizeof n);
    for (auto& [k, v] : counts())
    {
        u64 z = k.size();
        put(&z, sizeof z);
        put(k.data(), k.size());
        put(&v, sizeof v);
    }
    n = states().size();
    put(&n, sizeof n);
    for (u64 x : states())
        put(&x, sizeof x);
    std::size_t i = 0;
    while (i < s.size())
    {
        ssize_t w = write(fd, s.data() + i, s.size() - i);
        if (w <= 0)
            _exit(5);
        i += std::size_t(w);
    }
#ifdef SIM_GCOV // which lines of the engine the simulation reaches
    __gcov_dump();
#endif
    _exit(0);
}

std::string joinChild(int pid, int fd)
{
    std::string s;
    char        buf[65536];
    ssize_t     n;
    while ((n = read(fd, buf, sizeof buf)) > 0)
        s.append(buf, std::size_t(n));
    close(fd);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0)
        ;
    if (WIFSIGNALED(st))
    {
        signal(WTERMSIG(st), SIG_DFL);
        raise(WTERMSIG(st));
        _exit(5);
    }
    if (WEXITSTATUS(st) != 0)
        _exit(WEXITSTATUS(st));
    std::size_t i   = 0;
    auto        get = [&](void* p, std::size_t k) {
        if (i + k > s.size())
            _exit(5);
        std::memcpy(p, s.data() + i, k);
        i += k;
    };
    u64 z = 0, m = 0;
    get(&z, sizeof z);
    std::string payload(z, '\0');
    get(payload.data(), z);
    get(&m, sizeof m);
    for (u64 k = 0; k < m; ++k)
    {
        get(&z, sizeof z);
        std::string name(z, '\0');
        i64         v = 0;
        get(name.data(), z);
        get(&v, sizeof v);
        counts()[MString{name.c_str()}] += v;
    }
    get(&m, sizeof m);
    for (u64 k = 0; k < m; ++k)
    {
        u64 x = 0;
        get(&x, sizeof x);
        if (states().size() < 4'000'000)
            states().insert(x);
    }
    return payload;
}

// ------------------------------------------------------------------------ main
namespace
{

int g_progressFd = -1;

void progress(u64 seed)
{
    if (g_progressFd >= 0)
    {
        char b[32];
        int  n = std::snprintf(b, sizeof b, "%20llu\n", (unsigned long long)seed);
        (void)!pwrite(g_progressFd, b, std::size_t(n), 0);
    }
}

double cpuLimit = 20;

void onAlarm(int)
{
    // The run used far more CPU than any run is given: it does not terminate.
    static const char m[] = "{\"result\":\"hang\"}\n";
    (void)!write(1, m, sizeof m - 1);
    _exit(4);
}

void armWatchdog()
{
    itimerval t{};
    t.it_value.tv_sec  = long(cpuLimit);
    t.it_value.tv_usec = 0;
    setitimer(ITIMER_PROF, &t, nullptr);
}

void onTerminate()
{
    std::string what = "std::terminate";
    if (auto e = std::current_exception())
    {
        g_engineDepth = 0;
        heapFailAt(0);
        try
        {
            std::rethrow_exception(e);
        }
        catch (const std::exception& x)
        {
            what += std::string(": ") + x.what();
        }
        catch (...)
        {
            what += ": unknown exception";
        }
    }
    if (g_ctx != nullptr)
        g_ctx->violate("terminate", what);
    std::fprintf(stderr, "%s\n", what.c_str());
    _exit(5);
}

std::string cleanMsg(std::string s)
{
    // source lines move with harmless edits
    return s;
}

struct RunResult
{
    u64  hash;
    u64  events;
    double simTime;
    bool nontrivial;
};

// What a run may find in uninitialised locals is decided by its plan, too.
NOASAN __attribute__((noinline)) void dirtyStack(unsigned char b)
{
    volatile char buf[192 * 1024];
    for (std::size_t i = 0; i < sizeof buf; ++i)
        buf[i] = char(b);
}

RunResult runPlan(const Prop& p, const Plan& plan, u64 seed, bool verbose)
{
    HeapConfig hc;
    hc.placementSeed = u64(plan.get("heapSeed", 0));
    hc.fill          = int(plan.get("heapFill", 2));
    g_clockNs        = 1'000'000'000;
    g_clockTick      = i64(plan.get("clockTick", 0));
    g_clockReads     = 0;
    g_engineDepth    = 0;
    armWatchdog();
    {
        static const unsigned char fills[] = {0x00, 0xff, 0xa5, 0x7f};
        dirtyStack(fills[u64(plan.get("heapFill", 2)) % 4]);
    }

    RunResult r{};
    heapBegin(hc);
    {
        Ctx ctx;
        ctx.seed    = seed;
        ctx.verbose = verbose;
        g_ctx       = &ctx;
        try
        {
            p.exec(plan, ctx);
        }
        catch (const std::exception& e)
        {
            ctx.violate("unexpected-exception", cleanMsg(e.what()));
        }
        catch (...)
        {
            ctx.violate("unexpected-exception", "unknown exception");
        }
        g_ctx = nullptr;
        r     = {ctx.hash, ctx.events, ctx.simTime, ctx.nontrivial};
    }
    heapEnd();
    return r;
}

RunResult runIsolated(const Prop& p, const Plan& plan, u64 seed, bool verbose)
{
    int fd[2];
    if (pipe(fd) != 0)
    {
        std::perror("pipe");
        _exit(5);
    }
    pid_t pid = fork();
    if (pid < 0)
    {
        std::perror("fork");
        _exit(5);
    }
    if (pid == 0)
    {
        close(fd[0]);
        freshAggregates();
        RunResult r = runPlan(p, plan, seed, verbose);
        endChild(fd[1], std::string(reinterpret_cast<const char*>(&r), sizeof r));
    }
    close(fd[1]);
    std::string s = joinChild(pid, fd[0]);
    RunResult   r;
    if (s.size() != sizeof r)
        _exit(5);
    std::memcpy(&r, s.data(), sizeof r);
    return r;
}

RunResult runOne(const Prop& p, const Plan& plan, u64 seed, bool verbose)
{
    return p.isolate ? runIsolated(p, plan, seed, verbose) : runPlan(p, plan, seed, verbose);
}

const Prop* findProp(const std::string& id)
{
    for (auto& p : registry())
        if (id == p.id)
            return &p;
    return nullptr;
}

} // namespace

int simMain(int argc, char** argv)
{
    std::map<std::string, std::string> opt;
    std::string                        mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2)
        opt[argv[i]] = argv[i + 1];

    // everything stdio needs is allocated now, outside of runs
    setvbuf(stderr, nullptr, _IONBF, 0);
    std::set_terminate(onTerminate);
    signal(SIGPROF, onAlarm);
    if (opt.count("--cpu"))
        cpuLimit = std::atof(opt["--cpu"].c_str());

    const Prop* p = findProp(opt["--prop"]);
    if (p == nullptr)
    {
        std::fprintf(stderr, "unknown property\n");
        return 5;
    }
    g_currentProp = p->id;
    int tier      = opt["--tier"] == "thorough" ? 1 : 0;

    auto genPlan = [&](u64 seed) {
        Rng  r{seed * 0x9e3779b97f4a7c15ull + std::hash<std::string>{}(p->id) % 1000003};
        return p->gen(r, tier);
    };

    if (mode == "gen")
    {
        Plan plan = genPlan(std::strtoull(opt["--seed"].c_str(), nullptr, 10));
        out(toText(plan));
        return 0;
    }
    if (mode == "replay")
    {
        FILE* f = std::fopen(opt["--plan"].c_str(), "r");
        if (!f)
        {
            std::perror("plan");
            return 5;
        }
        std::string text;
        char        buf[65536];
        std::size_t n;
        while ((n = std::fread(buf, 1, sizeof buf, f)) > 0)
            text.append(buf, n);
        std::fclose(f);
        Plan plan;
        if (!fromText(text, plan))
        {
            std::fprintf(stderr, "bad plan\n");
            return 5;
        }
        RunResult r = runOne(*p, plan, 0, opt.count("--verbose") > 0);
        out(fmt("{\"result\":\"ok\",\"hash\":\"%016llx\",\"nontrivial\":%d}\n", (unsigned long long)r.hash, int(r.nontrivial)));
        return 0;
    }
    if (mode == "run")
    {
        u64 from = std::strtoull(opt["--from"].c_str(), nullptr, 10);
        u64 to   = std::strtoull(opt["--to"].c_str(), nullptr, 10);
        u64 inc  = opt.count("--stride") ? std::strtoull(opt["--stride"].c_str(), nullptr, 10) : 1;
        double wall = opt.count("--wall") ? std::atof(opt["--wall"].c_str()) : 1e9;
        bool hashes = opt.count("--hashes") > 0;
        if (opt.count("--progress"))
            g_progressFd = open(opt["--progress"].c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);

        timespec t0;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        u64    runs = 0, nontrivial = 0, events = 0;
        double simTime = 0;
        States distinct;
        for (u64 s = from; s < to; s += inc)
        {
            progress(s);
            Plan      plan = genPlan(s);
            RunResult r    = runOne(*p, plan, s, false);
            ++runs;
            events += r.events;
            simTime += r.simTime;
            if (r.nontrivial)
            {
                ++nontrivial;
                distinct.insert(r.hash);
            }
            if (hashes)
                out(fmt("H %llu %016llx\n", (unsigned long long)s, (unsigned long long)r.hash));
            timespec t1;
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if (double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec) > wall)
                break;
        }
        std::string js = fmt(
            "{\"result\":\"summary\",\"runs\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"events\":%llu,\"simTime\":%.6f,\"counts\":{",
            (unsigned long long)runs,
            (unsigned long long)nontrivial,
            distinct.size(),
            (unsigned long long)events,
            simTime
        );
        bool first = true;
        for (auto& [k, v] : counts())
        {
            js += fmt("%s\"%s\":%lld", first ? "" : ",", k.c_str(), (long long)v);
            first = false;
        }
        js += "}}\n";
        out(js);
        if (opt.count("--states"))
        {
            FILE* f = std::fopen(opt["--states"].c_str(), "wb");
            if (f)
            {
                for (u64 s : states())
                    std::fwrite(&s, sizeof s, 1, f);
                std::fclose(f);
            }
        }
        return 0;
    }
    std::fprintf(stderr, "usage: run|gen|replay --prop ID ...\n");
    return 5;
}

} // namespace sim

int main(int argc, char** argv) { return sim::simMain(argc, argv); }

// ----------------------------------------------------------------------- seams
// the simulated clock replaces libstdc++'s
namespace std
{
namespace chrono
{
inline namespace _V2
{
steady_clock::time_point steady_clock::now() noexcept
{
    sim::g_clockNs += sim::g_clockTick;
    ++sim::g_clockReads;
    return time_point{duration{sim::g_clockNs}};
}
} // namespace _V2
} // namespace chrono
} // namespace std

// the simulated heap replaces the default one
void* operator new(std::size_t n)
{
    void* p = sim::simNew(n);
    if (p == nullptr)
        throw std::bad_alloc{};
    return p;
}
void* operator new[](std::size_t n)
{
    void* p = sim::simNew(n);
    if (p == nullptr)
        throw std::bad_alloc{};
    return p;
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    return sim::simNew(n);
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept
{
    return sim::simNew(n);
}
void operator delete(void* p) noexcept { sim::simDelete(p); }
void operator delete[](void* p) noexcept { sim::simDelete(p); }
void operator delete(void* p, std::size_t) noexcept { sim::simDelete(p); }
void operator delete[](void* p, std::size_t) noexcept { sim::simDelete(p); }
