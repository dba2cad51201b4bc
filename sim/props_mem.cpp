// C19 the spatial tree, C20 the pooled allocator
#include "core.hpp"

#include <algorithm>
#include <deque>
#include <list>
#include <memory>
#include <set>
#include <unordered_map>

#include "Simu/physics/RTree.hpp"
#include "Simu/utility/Memory.hpp"

namespace sim
{
namespace
{

using simu::BoundingBox;
using simu::Vec2;

struct CtorError
{
    int tag;
};

std::set<const void*>* g_alive   = nullptr; // addresses of live values
int                    g_throwIn = 0;       // the n-th construction throws

// A value of the tree. It knows when it is used after its destruction, or moved around.
struct Value
{
    explicit Value(int id) : id{id}, self{this}
    {
        SimScope sc;
        if (g_throwIn > 0 && --g_throwIn == 0)
            throw CtorError{id};
        if (!g_alive->insert(this).second)
            g_ctx->violate("tree:overlapping-values", "a value was constructed where another one lives");
    }
    Value(const Value& o) : Value{o.id} {}
    ~Value()
    {
        SimScope sc;
        if (self != this || g_alive->erase(this) == 0)
            g_ctx->violate("tree:bad-destruction", "a value was destroyed twice, or that was never constructed");
    }
    int          id;
    const Value* self;
    double       pad[3] = {1, 2, 3};
};

bool overlap(const BoundingBox& a, const BoundingBox& b)
{
    for (const BoundingBox* x : {&a, &b})
        if (!(x->min()[0] <= x->max()[0] && x->min()[1] <= x->max()[1]))
            return false;
    return a.min()[0] <= b.max()[0] && b.min()[0] <= a.max()[0] && a.min()[1] <= b.max()[1] && b.min()[1] <= a.max()[1];
}
bool same(const BoundingBox& a, const BoundingBox& b)
{
    bool va = a.min()[0] <= a.max()[0] && a.min()[1] <= a.max()[1];
    bool vb = b.min()[0] <= b.max()[0] && b.min()[1] <= b.max()[1];
    if (!va && !vb)
        return true;
    return a.min()[0] == b.min()[0] && a.min()[1] == b.min()[1] && a.max()[0] == b.max()[0] && a.max()[1] == b.max()[1];
}

// Each tree has an allocator of its own pool, so that nothing may leave through another one
template <class T>
struct CountingAlloc
{
    typedef T              value_type;
    typedef std::true_type propagate_on_container_copy_assignment;
    typedef std::true_type propagate_on_container_move_assignment;
    typedef std::true_type propagate_on_container_swap;

    CountingAlloc() : live{std::make_shared<i64>(0)} {}
    template <class U>
    CountingAlloc(const CountingAlloc<U>& o) : live{o.live}
    {
    }
    T* allocate(std::size_t n)
    {
        T* p = static_cast<T*>(::operator new(n * sizeof(T)));
        *live += i64(n * sizeof(T));
        return p;
    }
    void deallocate(T* p, std::size_t n)
    {
        *live -= i64(n * sizeof(T));
        if (*live < 0)
        {
            SimScope sc;
            g_ctx->violate("tree:wrong-allocator", "memory was returned to an allocator it did not come from");
        }
        ::operator delete(p);
    }
    template <class U>
    bool operator==(const CountingAlloc<U>& o) const
    {
        return live == o.live;
    }
    std::shared_ptr<i64> live;
};

template <class Alloc>
struct TreeSim
{
    typedef simu::RTree<Value, Alloc>  Tree;
    typedef typename Tree::iterator    It;

    struct Item
    {
        int         id;
        BoundingBox box;
        It          it;
        const Value* at;
    };

    const Plan& plan;
    Ctx&        ctx;

    struct Slot
    {
        std::unique_ptr<Tree> tree;
        std::vector<Item>     items;
    };
    Slot slots[2];
    int  nextId = 1;

    TreeSim(const Plan& p, Ctx& c) : plan{p}, ctx{c} {}

    static BoundingBox box(const Op& op, std::size_t i)
    {
        Vec2 c{float(op.arg(i)), float(op.arg(i + 1))};
        Vec2 h{float(op.arg(i + 2)), float(op.arg(i + 3))};
        return BoundingBox{c - h, c + h}; // negative sizes make it invalid
    }

    void check(Slot& s, Rng& r, const char* after)
    {
        Tree& t = *s.tree;
        EngineScope e;
        std::map<int, int> seen;
        std::size_t        n = 0;
        {
            for (auto it = t.begin(); it != t.end(); ++it)
            {
                SimScope sc;
                ++seen[it->id];
                if (++n > s.items.size() + 100)
                    ctx.violate("tree:iteration", fmt("iterating the tree (after %s) does not end", after));
            }
        }
        SimScope sc;
        for (Item& x : s.items)
        {
            if (seen[x.id] != 1)
                ctx.violate("tree:iteration", fmt("iterating the tree (after %s) visits an inserted value %d times (%zu values)", after, seen[x.id], s.items.size()));
            if (g_alive->count(x.at) == 0 || &*x.it != x.at || x.it->id != x.id)
                ctx.violate("tree:iterator", fmt("an iterator no longer refers to its value (after %s)", after));
            if (!same(x.it.bounds(), x.box))
                ctx.violate("tree:box", fmt("a value does not have its latest box (after %s)", after));
        }
        if (n != s.items.size())
            ctx.violate("tree:iteration", fmt("iterating the tree (after %s) visits %zu values, %zu were inserted and not erased", after, n, s.items.size()));
        if (std::size_t z = t.size(); z != s.items.size() || t.isEmpty() != s.items.empty())
            ctx.violate("tree:size", fmt("the size of a tree of %zu values is %zu (after %s)", s.items.size(), z, after));
        BoundingBox all;
        for (Item& x : s.items)
            all = all.combined(x.box);
        if (!same(all, t.bounds()))
            ctx.violate("tree:bounds", fmt("the bounds of the tree are not those of its values (after %s)", after));
        {
            const Tree& ct = t;
            std::size_t m  = 0;
            for (auto it = ct.begin(); it != ct.end() && m <= n; ++it)
                ++m;
            if (m != n)
                ctx.violate("tree:iteration", fmt("iterating the constant tree differs (after %s)", after));
        }
        // regions, points, others
        for (int q = 0; q < 3; ++q)
        {
            BoundingBox b;
            bool        point = q == 1;
            if (!s.items.empty() && r.chance(0.7))
            {
                const BoundingBox& x = s.items[r.below(s.items.size())].box;
                // share borders or corners
                Vec2 p{r.chance(0.5) ? x.min()[0] : x.max()[0], r.chance(0.5) ? x.min()[1] : x.max()[1]};
                b = point ? BoundingBox{p, p} : r.chance(0.4) ? BoundingBox{p, p + Vec2{float(r.uni(0, 3)), float(r.uni(0, 3))}} : x;
            }
            else
            {
                Vec2 p{float(r.uni(-10, 10)), float(r.uni(-10, 10))};
                b = point ? BoundingBox{p, p} : BoundingBox{p, p + Vec2{float(r.uni(0, 6)), float(r.uni(0, 6))}};
            }
            std::map<int, int> got;
            auto               f = [&](It it) {
                SimScope sc2;
                ++got[it->id];
            };
            {
                EngineScope e2;
                if (point)
                    t.forEachAt(b.min(), f);
                else
                    t.forEachIn(b, f);
            }
            for (Item& x : s.items)
            {
                int want = overlap(x.box, b) ? 1 : 0;
                if (got[x.id] != want)
                    ctx.violate("tree:query", fmt("a %s query (after %s) reports a value %d times instead of %d (%zu values)", point ? "point" : "region", after, got[x.id], want, s.items.size()));
                ctx.count(want ? "query.hit" : "query.miss");
            }
            for (auto& [k, c] : got)
                if (std::none_of(s.items.begin(), s.items.end(), [&, k = k](const Item& x) { return x.id == k; }))
                    ctx.violate("tree:query", fmt("a query (after %s) reports a value that is not in the tree", after));
        }
        if (!s.items.empty())
        {
            Item&              x = s.items[r.below(s.items.size())];
            std::map<int, int> got;
            {
                EngineScope e2;
                t.forEachOverlapping(x.it, [&](It it) {
                    SimScope sc2;
                    ++got[it->id];
                });
            }
            for (Item& y : s.items)
            {
                int want = y.id != x.id && overlap(x.box, y.box);
                if (got[y.id] != want)
                    ctx.violate("tree:others", fmt("the query for what overlaps a value (after %s) reports %d times instead of %d", after, got[y.id], want));
            }
            // for some values at once
            std::vector<It>  its;
            std::vector<Item*> sel;
            for (Item& y : s.items)
                if (r.chance(0.3))
                {
                    its.push_back(y.it);
                    sel.push_back(&y);
                }
            std::map<std::pair<int, int>, int> pairs;
            {
                EngineScope e2;
                t.forEachOverlapping(simu::makeView(its.data(), its.data() + its.size()), [&](It a, It b) {
                    SimScope sc2;
                    ++pairs[{a->id, b->id}];
                });
            }
            for (Item* y : sel)
                for (Item& z : s.items)
                {
                    if (z.id == y->id)
                        continue;
                    int want = overlap(z.box, y->box), got2 = pairs[{z.id, y->id}];
                    if (got2 != want)
                        ctx.violate("tree:others", fmt("the query for what overlaps a set of values (after %s) reports a pair %d times instead of %d", after, got2, want));
                }
        }
        ctx.count("checks");
    }

    void add(Slot& s, const BoundingBox& b, It it, int id) { s.items.push_back(Item{id, b, it, &*it}); }

    void run()
    {
        for (Slot& s : slots)
        {
            EngineScope e;
            s.tree = std::make_unique<Tree>();
        }
        int peak = 0;
        for (std::size_t i = 0; i < plan.ops.size(); ++i)
        {
            const Op& op = plan.ops[i];
            ctx.opIndex  = int(i);
            Slot&     s  = slots[int(op.arg(0)) & 1];
            Tree&     t  = *s.tree;
            Rng       r{u64(i) * 7919 + u64(op.arg(1)) + 3};
            ctx.ev(op.kind.c_str(), i64(s.items.size()));
            if (op.kind == "ins")
            {
                BoundingBox b = box(op, 2);
                int         id = nextId++;
                It          it;
                {
                    EngineScope e;
                    it = op.arg(1) > 0.5 ? t.emplace(b, id) : t.insert(b, Value{id});
                }
                add(s, b, it, id);
            }
            else if (op.kind == "era")
            {
                if (s.items.empty())
                    continue;
                std::size_t k = op.pick(1) % s.items.size();
                It          it = s.items[k].it;
                const Value* at = s.items[k].at;
                {
                    EngineScope e;
                    t.erase(it);
                }
                if (g_alive->count(at))
                    ctx.violate("tree:erase", "an erased value was not destroyed");
                s.items.erase(s.items.begin() + i64(k));
            }
            else if (op.kind == "eraAll") // erase while iterating
            {
                i64                mod = i64(op.arg(2));
                std::map<int, int> visited;
                EngineScope        e;
                auto               it = t.begin();
                std::size_t        steps = 0, n = s.items.size();
                while (it != t.end())
                {
                    int id = it->id;
                    {
                        SimScope sc;
                        ++visited[id];
                        if (++steps > 2 * n + 10)
                            ctx.violate("tree:erase-loop", "erasing while iterating does not end");
                    }
                    if (mod == 0 || id % (mod + 1) == 0)
                    {
                        it = t.erase(it);
                        SimScope sc;
                        std::erase_if(s.items, [&](const Item& x) { return x.id == id; });
                    }
                    else
                        ++it;
                }
                SimScope sc;
                for (Item& x : s.items)
                    if (visited[x.id] != 1)
                        ctx.violate("tree:erase-loop", fmt("erasing some values while iterating visits a value %d times", visited[x.id]));
                if (mod == 0 && !s.items.empty())
                    ctx.violate("tree:erase-loop", "erasing every value while iterating leaves some");
            }
            else if (op.kind == "upd")
            {
                if (s.items.empty())
                    continue;
                Item& x = s.items[op.pick(1) % s.items.size()];
                It    it;
                x.box = box(op, 2);
                {
                    EngineScope e;
                    it = t.update(x.it, x.box);
                }
                if (it != x.it)
                    ctx.violate("tree:iterator", "updating a box gives the iterator of another value");
            }
            else if (op.kind == "rebuild")
            {
                Rng                   rr{u64(op.arg(1)) + 1};
                double                pMove = op.arg(2), far = op.arg(3);
                std::map<int, Item*>  byId;
                for (Item& x : s.items)
                {
                    byId[x.id] = &x;
                    if (rr.chance(pMove))
                    {
                        Vec2 d{float(rr.uni(-far, far)), float(rr.uni(-far, far))};
                        if (rr.chance(0.2)) // exactly on another one
                            x.box = s.items[rr.below(s.items.size())].box;
                        else
                            x.box = BoundingBox{x.box.min() + d, x.box.max() + d};
                    }
                }
                std::map<int, int>                 updated;
                std::map<std::pair<int, int>, int> pairs;
                {
                    EngineScope e;
                    t.updateAndCollide(
                        [&](It it) {
                            SimScope sc;
                            if (!byId.count(it->id))
                                ctx.violate("tree:rebuild", "the rebuild asks for the box of a value that is not in the tree");
                            ++updated[it->id];
                            return byId[it->id]->box;
                        },
                        [&](It a, It b) {
                            SimScope sc;
                            ++pairs[{std::min(a->id, b->id), std::max(a->id, b->id)}];
                        }
                    );
                }
                i64 hits = 0;
                for (std::size_t a = 0; a < s.items.size(); ++a)
                    for (std::size_t b = a; b < s.items.size(); ++b)
                    {
                        Item &x = s.items[a], &y = s.items[b];
                        int   want = a != b && overlap(x.box, y.box);
                        int   got  = pairs[{std::min(x.id, y.id), std::max(x.id, y.id)}];
                        if (want != got)
                            ctx.violate("tree:pairs", fmt("collision reporting visits a pair %d times instead of %d (%zu values)", got, want, s.items.size()));
                        hits += want;
                    }
                for (Item& x : s.items)
                    if (updated[x.id] != 1)
                        ctx.violate("tree:rebuild", fmt("a rebuild asks %d times for the box of a value", updated[x.id]));
                ctx.count("pairs", hits);
            }
            else if (op.kind == "clear")
            {
                {
                    EngineScope e;
                    t.clear();
                }
                for (Item& x : s.items)
                    if (g_alive->count(x.at))
                        ctx.violate("tree:clear", "clearing left a value alive");
                s.items.clear();
            }
            else if (op.kind == "move") // move construction; the tree that was moved from is abandoned, cleared or reused
            {
                int how = int(op.arg(1)) % 4;
                EngineScope e;
                if (how == 0)
                {
                    auto n = std::make_unique<Tree>(std::move(t));
                    s.tree = std::move(n);
                }
                else if (how == 1)
                {
                    // moved to the other slot, whose content is dropped
                    Slot& o = slots[1 - (int(op.arg(0)) & 1)];
                    *o.tree = std::move(t);
                    t.clear();
                    SimScope sc;
                    o.items = std::move(s.items);
                    s.items.clear();
                }
                else if (how == 2)
                {
                    std::swap(*slots[0].tree, *slots[1].tree);
                    SimScope sc;
                    std::swap(slots[0].items, slots[1].items);
                }
                else
                {
                    auto n = std::make_unique<Tree>(std::move(t));
                    t.clear();
                    t.insert(BoundingBox{Vec2{0, 0}, Vec2{1, 1}}, Value{nextId++});
                    if (t.size() != 1)
                        ctx.violate("tree:moved-from", "a tree that was moved from and cleared cannot be used");
                    s.tree = std::move(n);
                }
            }
            else if (op.kind == "oom" || op.kind == "ctor") // failed insertions
            {
                std::size_t alive = g_alive->size();
                i64         held  = heapEngine().liveBytes;
                BoundingBox b     = box(op, 2);
                int         id    = nextId++;
                bool        failed = false;
                It          it;
                try
                {
                    EngineScope e;
                    if (op.kind == "oom")
                        heapFailAt(i64(op.arg(1)));
                    else
                        g_throwIn = 1;
                    it = t.emplace(b, id);
                    heapFailAt(0);
                    g_throwIn = 0;
                }
                catch (const std::bad_alloc&)
                {
                    failed = true;
                    ctx.count("fault.oom");
                }
                catch (const CtorError&)
                {
                    failed = true;
                    ctx.count("fault.ctor");
                }
                heapFailAt(0);
                g_throwIn = 0;
                if (failed)
                {
                    if (g_alive->size() != alive)
                        ctx.violate("tree:failed-insert", "a failed insertion left a value");
                    if (plan.get("alloc") < 2 && heapEngine().liveBytes != held)
                        ctx.violate("tree:leak", "a failed insertion leaks " + heapOldestLive());
                }
                else
                    add(s, b, it, id);
            }
            else
                ctx.error("unknown op");
            peak = std::max(peak, int(s.items.size()));
            if (int(plan.get("every", 1)) <= 1 || i % u64(plan.get("every", 1)) == 0 || i + 1 == plan.ops.size())
                for (Slot& x : slots)
                    check(x, r, op.kind.c_str());
            u64 h = 0;
            h     = mixHash(slots[0].tree->height(), slots[1].tree->height());
            h     = mixHash(h, slots[0].items.size() * 1000 + slots[1].items.size());
            ctx.state(mixHash(h, std::hash<std::string>{}(op.kind)));
        }
        ctx.nontrivial = peak >= 3;
        for (Slot& s : slots)
        {
            EngineScope e;
            s.tree.reset();
        }
        if (!g_alive->empty())
            ctx.violate("tree:leak", fmt("%zu values are alive after their tree was destroyed", g_alive->size()));
    }
};

std::vector<double> boxArgs(Rng& r, int grid, double pInvalid)
{
    double cx, cy, hx, hy;
    if (grid == 2) // all the same few places
    {
        cx = double(r.range(0, 1));
        cy = double(r.range(0, 1));
        hx = hy = 0.5;
    }
    else if (grid == 1)
    {
        cx = r.range(-6, 6);
        cy = r.range(-6, 6);
        hx = 0.5 * r.range(0, 4);
        hy = 0.5 * r.range(0, 4);
    }
    else
    {
        cx = r.uni(-10, 10);
        cy = r.uni(-10, 10);
        hx = r.chance(0.1) ? r.uni(3, 15) : r.uni(0, 1.5);
        hy = r.chance(0.1) ? r.uni(3, 15) : r.uni(0, 1.5);
    }
    if (r.chance(0.05))
        hx = 0;
    if (r.chance(0.05))
        hy = 0;
    if (r.chance(pInvalid))
        hx = -1;
    return {cx, cy, hx, hy};
}

Plan treePlan(Rng& r, int tier)
{
    Plan   p;
    bool   big = r.chance(0.12);
    int    n   = big ? r.range(100, tier ? 500 : 250) : r.range(5, tier ? 120 : 70);
    int    grid = int(r.weighted({3, 3, 1, 2})); // 3: mixed
    double pInvalid = r.chance(0.2) ? 0.1 : 0;
    p.cfg["alloc"] = double(r.below(3));
    p.cfg["every"] = big ? 10 : 1;
    p.cfg["heapSeed"] = r.chance(0.5) ? double(r.below(1000000) + 1) : 0;
    double line = r.chance(0.25); // sorted insertion gives lop sided trees
    double wMove = r.chance(0.3) ? 1 : 0, wClear = r.chance(0.3) ? 0.3 : 0, wFail = r.chance(0.4) ? 1.5 : 0, wEra = r.chance(0.3) ? 6 : 2.5;
    double wAll = r.chance(0.4) ? 0.4 : 0;
    double huge = r.chance(0.06) ? std::pow(10.0, r.uni(12, 30)) : 0;
    for (int i = 0; i < n; ++i)
    {
        double slot = r.chance(0.2);
        auto   b    = boxArgs(r, grid == 3 ? int(r.below(3)) : grid, pInvalid);
        if (line && r.chance(0.7))
            b = {double(i), double(i) * (r.chance(0.5) ? 0 : 1), 0.5, 0.5};
        if (huge > 0 && r.chance(0.4)) // areas overflow
            for (double& v : b)
                v *= huge;
        switch (r.weighted({7, wEra, 2.5, 1.5, wClear, wMove, wFail, wFail * 0.5, wAll}))
        {
            case 0: p.add("ins", {slot, double(r.below(2)), b[0], b[1], b[2], b[3]}); break;
            case 1: p.add("era", {slot, double(r.below(1000))}); break;
            case 2: p.add("upd", {slot, double(r.below(1000)), b[0], b[1], b[2], b[3]}); break;
            case 3: p.add("rebuild", {slot, double(r.below(100000)), r.chance(0.2) ? 0 : r.unit(), r.chance(0.5) ? 0.3 : r.uni(0, 12)}); break;
            case 4: p.add("clear", {slot}); break;
            case 5: p.add("move", {slot, double(r.below(4))}); break;
            case 6: p.add("oom", {slot, double(r.range(1, 5)), b[0], b[1], b[2], b[3]}); break;
            case 7: p.add("ctor", {slot, 0, b[0], b[1], b[2], b[3]}); break;
            default: p.add("eraAll", {slot, 0, double(r.below(4))}); break;
        }
    }
    return p;
}

Register c19{Prop{
    "C19", treePlan,
    [](const Plan& plan, Ctx& ctx) {
        std::set<const void*> alive;
        g_alive   = &alive;
        g_throwIn = 0;
        i64 held  = heapEngine().liveBytes;
        switch (int(plan.get("alloc")))
        {
            case 0: TreeSim<std::allocator<Value>>{plan, ctx}.run(); break;
            case 1: TreeSim<CountingAlloc<Value>>{plan, ctx}.run(); break;
            default: TreeSim<simu::FreeListAllocator<Value>>{plan, ctx}.run(); break;
        }
        if (heapEngine().liveBytes != held)
            ctx.violate("tree:leak", "a destroyed tree leaks " + heapOldestLive());
        g_alive = nullptr;
    }}};

// ------------------------------------------------------------------------- C20
struct alignas(1) S1
{
    unsigned char b[1];
};
struct S3
{
    unsigned char b[3];
};
struct alignas(4) S12
{
    unsigned char b[12];
};
struct alignas(8) S24
{
    unsigned char b[24];
};
struct alignas(16) S16
{
    unsigned char b[48];
};
struct alignas(64) S64
{
    unsigned char b[64];
};
struct S500
{
    unsigned char b[500];
};

struct Blk
{
    int            type;
    std::size_t    n, bytes;
    unsigned char* p;
    u64            pattern;
    std::size_t    alloc; // index of the handle it came from
};

// all operations of a pool for one value type
template <std::size_t BS>
struct PoolOps
{
    template <class T>
    using A = simu::FreeListAllocator<T, BS>;
    typedef A<S1> Handle;

    template <class F>
    static auto withType(int t, F f)
    {
        switch (t % 7)
        {
            case 0: return f(S1{});
            case 1: return f(S3{});
            case 2: return f(S12{});
            case 3: return f(S24{});
            case 4: return f(S16{});
            case 5: return f(S64{});
            default: return f(S500{});
        }
    }
    static std::size_t sizeOf(int t)
    {
        return withType(t, [](auto x) { return sizeof x; });
    }
    static std::size_t alignOf(int t)
    {
        return withType(t, [](auto x) { return alignof(decltype(x)); });
    }
    static void* allocate(const Handle& h, int t, std::size_t n)
    {
        return withType(t, [&](auto x) -> void* {
            A<decltype(x)> a{h};
            return std::allocator_traits<A<decltype(x)>>::allocate(a, n);
        });
    }
    static void deallocate(const Handle& h, int t, void* p, std::size_t n)
    {
        withType(t, [&](auto x) {
            A<decltype(x)> a{h};
            std::allocator_traits<A<decltype(x)>>::deallocate(a, static_cast<decltype(x)*>(p), n);
        });
    }
};

template <std::size_t BS>
struct PoolSim
{
    typedef PoolOps<BS>          Ops;
    typedef typename Ops::Handle Handle;

    const Plan& plan;
    Ctx&        ctx;

    struct Pool
    {
        std::vector<std::unique_ptr<Handle>> handles;
        std::vector<Blk>                     blocks;
    };
    std::vector<Pool> pools;
    u64               patterns = 1;
    i64               base     = 0;

    void fill(Blk& b)
    {
        b.pattern = ++patterns;
        for (std::size_t i = 0; i < b.bytes; ++i)
            b.p[i] = (unsigned char)(mixHash(b.pattern, i >> 3) >> (8 * (i & 7)));
    }
    void verify(const Blk& b, const char* when)
    {
        for (std::size_t i = 0; i < b.bytes; ++i)
            if (b.p[i] != (unsigned char)(mixHash(b.pattern, i >> 3) >> (8 * (i & 7))))
                ctx.violate("pool:content", fmt("the content of a block of %zu bytes changed before it was returned (%s)", b.bytes, when));
    }

    // storage that the pools hold: engine allocations big enough to be blocks of the pool
    i64 storage()
    {
        i64 n = 0;
        for (auto& [seq, size] : heapLive())
            if (size >= 200)
                n += i64(size);
        return n;
    }

    void addPool()
    {
        pools.emplace_back();
        EngineScope e;
        pools.back().handles.push_back(std::make_unique<Handle>());
    }

    // every gap between the live blocks of the storage
    bool fits(const Pool& pool, std::size_t bytes, std::size_t align)
    {
        for (auto& [start, size] : heapLiveAt())
        {
            if (size < 200)
                continue;
            bool ours = false;
            std::vector<std::pair<u64, u64>> used;
            for (const Blk& b : pool.blocks)
                if (u64(b.p) >= start && u64(b.p) < start + size)
                {
                    ours = true;
                    used.push_back({u64(b.p), u64(b.p) + b.bytes});
                }
            if (!ours)
                continue;
            std::sort(used.begin(), used.end());
            used.push_back({start + size, start + size});
            u64 at = start;
            for (auto& [lo, hi] : used)
            {
                u64 al = (at + align - 1) / align * align;
                if (al + bytes <= lo)
                    return true;
                at = hi;
            }
        }
        return false;
    }

    void run()
    {
        base = heapEngine().liveBytes;
        addPool();
        addPool();
        bool any = false;
        for (std::size_t i = 0; i < plan.ops.size(); ++i)
        {
            const Op& op = plan.ops[i];
            ctx.opIndex  = int(i);
            Pool&     P  = pools[op.pick(0) % pools.size()];
            if (op.kind == "alloc" || op.kind == "oom")
            {
                int         t = int(op.arg(1)) % 7;
                std::size_t n = std::size_t(op.arg(2));
                std::size_t h = op.pick(3) % P.handles.size();
                bool        hadRoom = n > 0 && fits(P, n * Ops::sizeOf(t), Ops::alignOf(t));
                i64         before  = storage(), bytes = heapEngine().liveBytes;
                void*       p = nullptr;
                bool        failed = false;
                try
                {
                    EngineScope e;
                    if (op.kind == "oom")
                        heapFailAt(i64(op.arg(4, 1)));
                    p = Ops::allocate(*P.handles[h], t, n);
                    heapFailAt(0);
                }
                catch (const std::bad_alloc&)
                {
                    heapFailAt(0);
                    failed = true;
                }
                ctx.ev(op.kind.c_str(), t, i64(n), failed);
                if (failed)
                {
                    ctx.count("fault.oom");
                    if (op.kind != "oom")
                        ctx.violate("pool:spurious-failure", "an allocation failed although memory was available");
                    if (storage() != before || heapEngine().liveBytes > bytes + 128)
                        ctx.violate("pool:leak", "a failed allocation keeps memory");
                    for (Pool& x : pools)
                        for (Blk& b : x.blocks)
                            verify(b, "a failed allocation");
                    continue;
                }
                if (n == 0)
                {
                    P.blocks.push_back(Blk{t, 0, 0, static_cast<unsigned char*>(p), 0, h});
                    continue;
                }
                if (p == nullptr)
                    ctx.violate("pool:null", "an allocation returned nothing");
                Blk b{t, n, n * Ops::sizeOf(t), static_cast<unsigned char*>(p), 0, h};
                if (u64(p) % Ops::alignOf(t) != 0)
                    ctx.violate("pool:alignment", fmt("an allocation for a type aligned to %zu is misaligned", Ops::alignOf(t)));
                bool inside = false;
                for (auto& [start, size] : heapLiveAt())
                    inside = inside || (u64(p) >= start && u64(p) + b.bytes <= start + size);
                if (!inside)
                    ctx.violate("pool:outside", "an allocation lies outside of the memory that the pool holds");
                for (Pool& x : pools)
                    for (Blk& o : x.blocks)
                        if (o.bytes > 0 && b.p < o.p + o.bytes && o.p < b.p + b.bytes)
                            ctx.violate("pool:overlap", fmt("a block of %zu bytes overlaps a live block of %zu bytes", b.bytes, o.bytes));
                if (hadRoom && storage() != before)
                    ctx.violate("pool:not-reused", fmt("the pool asked for new storage for %zu bytes although it had room", b.bytes));
                if (hadRoom)
                    ctx.count("reach.reused");
                fill(b);
                P.blocks.push_back(b);
                any = any || P.blocks.size() > 3;
            }
            else if (op.kind == "free")
            {
                if (P.blocks.empty())
                    continue;
                std::size_t k = op.pick(1) % P.blocks.size();
                Blk         b = P.blocks[k];
                verify(b, "until its deallocation");
                std::size_t h = op.pick(2) % P.handles.size();
                {
                    EngineScope e;
                    if (op.arg(3) > 0) // out of memory while deallocating
                        heapFailAt(1);
                    Ops::deallocate(*P.handles[h], b.type, b.p, b.n);
                    heapFailAt(0);
                }
                ctx.ev("free", b.type, i64(b.n));
                P.blocks.erase(P.blocks.begin() + i64(k));
            }
            else if (op.kind == "freeAll")
            {
                Rng r{u64(op.arg(1)) + 5};
                while (!P.blocks.empty())
                {
                    std::size_t k = op.arg(2) == 0 ? 0 : op.arg(2) == 1 ? P.blocks.size() - 1 : r.below(P.blocks.size());
                    Blk         b = P.blocks[k];
                    verify(b, "until its deallocation");
                    EngineScope e;
                    Ops::deallocate(*P.handles[b.alloc % P.handles.size()], b.type, b.p, b.n);
                    SimScope sc;
                    P.blocks.erase(P.blocks.begin() + i64(k));
                }
                ctx.ev("freeAll");
                // another pool may hold storage
                bool others = false;
                for (Pool& x : pools)
                    others = others || !x.blocks.empty();
                if (!others && storage() != 0)
                    ctx.violate("pool:kept-storage", fmt("a pool keeps %lld bytes of storage after everything was returned", (long long)storage()));
                ctx.count("checks.emptied");
            }
            else if (op.kind == "copy")
            {
                EngineScope e;
                auto        h = std::make_unique<Handle>(*P.handles[op.pick(1) % P.handles.size()]);
                SimScope    sc;
                P.handles.push_back(std::move(h));
                if (P.handles.size() > 6)
                {
                    P.handles.erase(P.handles.begin());
                }
                for (auto& x : P.handles)
                    if (!(*x == *P.handles[0]) || *x != *P.handles[0])
                        ctx.violate("pool:equality", "copies of an allocator do not compare equal");
                for (Pool& o : pools)
                    if (&o != &P && *o.handles[0] == *P.handles[0])
                        ctx.violate("pool:equality", "allocators of different pools compare equal");
            }
            else if (op.kind == "container")
                containers(op);
            else if (op.kind == "unique")
                unique(op);
            else if (op.kind == "huge")
            {
                bool threw = false;
                try
                {
                    EngineScope e;
                    int         t    = int(op.arg(1)) % 7;
                    std::size_t most = std::size_t(-1) / Ops::sizeOf(t);
                    i64         d    = i64(op.arg(2));
                    void* p = Ops::allocate(*P.handles[0], t, d > 0 && Ops::sizeOf(t) > 1 ? most + std::size_t(d) : most - std::size_t(d < 0 ? -d : d));
                    (void)p;
                }
                catch (const std::bad_alloc&)
                {
                    threw = true;
                }
                if (!threw)
                    ctx.violate("pool:huge", "an allocation of more bytes than exist succeeded");
                ctx.count("fault.huge");
            }
            else
                ctx.error("unknown op");
            std::size_t n = 0;
            for (Pool& x : pools)
                n += x.blocks.size();
            ctx.state(mixHash(mixHash(n, u64(storage())), std::hash<std::string>{}(op.kind)));
        }
        for (Pool& P : pools)
        {
            for (Blk& b : P.blocks)
            {
                verify(b, "until the end");
                EngineScope e;
                Ops::deallocate(*P.handles[0], b.type, b.p, b.n);
            }
            P.blocks.clear();
        }
        if (storage() != 0)
            ctx.violate("pool:kept-storage", fmt("a pool keeps %lld bytes of storage after everything was returned", (long long)storage()));
        pools.clear();
        ctx.nontrivial = any;
        if (heapEngine().liveBytes != base)
            ctx.violate("pool:leak", "a destroyed pool leaks " + heapOldestLive());
    }

    static std::vector<std::pair<u64, std::size_t>> heapLiveAt() { return sim::heapLiveAddresses(); }

    // containers of the standard library on pools of their own
    void containers(const Op& op)
    {
        typedef simu::FreeListAllocator<u64, BS> A;
        Rng r{u64(op.arg(1)) * 31 + 7};
        {
            EngineScope                    e;
            A                              a0, a1;
            std::vector<std::vector<u64, A>> v;
            v.emplace_back(a0);
            v.emplace_back(a0);
            v.emplace_back(a1);
            std::vector<std::list<u64, A>> l;
            l.emplace_back(a0);
            l.emplace_back(a1);
            std::unordered_map<u64, u64, std::hash<u64>, std::equal_to<u64>, simu::FreeListAllocator<std::pair<const u64, u64>, BS>> m{a1}, n{a0};

            std::vector<std::vector<u64>> mv(3);
            std::vector<std::list<u64>>   ml(2);
            std::map<u64, u64>            mm, mn;
            u64                           x = 1;
            for (int k = 0, ops = r.range(5, 60); k < ops; ++k)
            {
                std::size_t i = r.below(3), j = r.below(3), c = r.below(2);
                switch (r.below(14))
                {
                    case 0:
                    case 1:
                        for (int q = 0; q < 5; ++q)
                        {
                            v[i].push_back(++x);
                            mv[i].push_back(x);
                        }
                        break;
                    case 2:
                        if (!mv[i].empty())
                        {
                            v[i].pop_back();
                            mv[i].pop_back();
                            v[i].shrink_to_fit();
                        }
                        break;
                    case 3: v[i] = v[j]; mv[i] = mv[j]; break;
                    case 4:
                        if (i != j)
                        {
                            v[i] = std::move(v[j]);
                            mv[i] = std::move(mv[j]);
                            v[j].clear();
                            mv[j].clear();
                        }
                        break;
                    case 5: std::swap(v[i], v[j]); std::swap(mv[i], mv[j]); break;
                    case 6: simu::replaceAllocator(v[i], r.chance(0.5) ? a0 : a1); break;
                    case 7:
                    case 8: l[c].push_front(++x); ml[c].push_front(x); break;
                    case 9:
                        if (!ml[c].empty())
                        {
                            l[c].pop_back();
                            ml[c].pop_back();
                        }
                        break;
                    case 10: std::swap(l[0], l[1]); std::swap(ml[0], ml[1]); break;
                    case 11: simu::replaceAllocator(l[c], r.chance(0.5) ? a0 : a1); break;
                    case 12: ++x; m[x % 37] = x; mm[x % 37] = x; n.erase(x % 11); mn.erase(x % 11); n[x % 7] = x; mn[x % 7] = x; break;
                    default: std::swap(m, n); std::swap(mm, mn); break;
                }
                SimScope sc;
                for (int q = 0; q < 3; ++q)
                    if (!std::equal(v[q].begin(), v[q].end(), mv[q].begin(), mv[q].end()))
                        ctx.violate("pool:container", "a vector with a pooled allocator lost its content");
                for (int q = 0; q < 2; ++q)
                    if (!std::equal(l[q].begin(), l[q].end(), ml[q].begin(), ml[q].end()))
                        ctx.violate("pool:container", "a list with a pooled allocator lost its content");
                for (auto& [k2, y] : mm)
                    if (m.count(k2) == 0 || m[k2] != y)
                        ctx.violate("pool:container", "a map with a pooled allocator lost its content");
                if (m.size() != mm.size() || n.size() != mn.size())
                    ctx.violate("pool:container", "a map with a pooled allocator lost its content");
            }
        }
        ctx.ev("container");
        ctx.count("checks.container");
    }

    struct Tracked
    {
        explicit Tracked(i64* n, int throwAt = -1) : n{n}
        {
            if (*n == throwAt)
                throw CtorError{1};
            ++*n;
        }
        ~Tracked() { --*n; }
        i64*   n;
        double pad[5];
    };

    // pointers may outlive the allocator they were made with
    void unique(const Op& op)
    {
        Rng r{u64(op.arg(1)) * 131 + 17};
        i64 alive = 0, held = heapEngine().liveBytes;
        {
            EngineScope                              e;
            std::vector<simu::UniquePtr<Tracked>>    ptrs;
            auto a = std::make_unique<simu::FreeListAllocator<int, BS>>();
            int  n = r.range(1, 12);
            for (int k = 0; k < n; ++k)
            {
                bool fail = r.chance(0.3), oom = r.chance(0.2);
                try
                {
                    if (oom)
                        heapFailAt(r.range(1, 4));
                    auto p = simu::makeUnique<Tracked>(*a, &alive, fail ? int(alive) : -1);
                    heapFailAt(0);
                    if (p)
                        ptrs.push_back(std::move(p));
                }
                catch (const CtorError&)
                {
                    ctx.count("fault.ctor");
                }
                catch (const std::bad_alloc&)
                {
                    ctx.count("fault.oom");
                }
                heapFailAt(0);
                if (r.chance(0.2) && !ptrs.empty())
                    ptrs.erase(ptrs.begin() + i64(r.below(ptrs.size())));
                if (r.chance(0.2) && ptrs.size() > 1)
                    ptrs[0] = std::move(ptrs.back()), ptrs.pop_back();
                SimScope sc;
                if (alive != i64(ptrs.size()))
                    ctx.violate("pool:unique", fmt("%lld objects are alive, %zu pointers own one", (long long)alive, ptrs.size()));
                if (r.chance(0.2))
                {
                    EngineScope e2;
                    a = std::make_unique<simu::FreeListAllocator<int, BS>>();
                }
            }
            a.reset();
        }
        if (alive != 0)
            ctx.violate("pool:unique", "an owned object was not destroyed");
        if (heapEngine().liveBytes != held)
            ctx.violate("pool:leak", "owned objects leak " + heapOldestLive());
        ctx.ev("unique");
    }
};

Plan poolPlan(Rng& r, int tier)
{
    Plan p;
    p.cfg["bs"] = double(r.below(4));
    p.cfg["heapSeed"] = r.chance(0.5) ? double(r.below(1000000) + 1) : 0;
    int    n     = r.range(10, tier ? 300 : 120);
    double wFree = r.uni(0.5, 1.2), wOom = r.chance(0.4) ? 0.2 : 0, pOne = r.chance(0.5) ? 0.9 : 0.4;
    double oneType = r.chance(0.3) ? double(r.below(7)) : -1;
    for (int i = 0; i < n; ++i)
    {
        double pool = r.chance(0.2), type = oneType >= 0 ? oneType : double(r.below(7));
        double count = r.chance(0.02) ? 0 : r.chance(pOne) ? 1 : r.chance(0.95) ? double(r.range(1, 12)) : double(r.range(12, 150));
        switch (r.weighted({1, wFree, wOom, 0.03, 0.08, 0.02, 0.03, 0.01}))
        {
            case 0: p.add("alloc", {pool, type, count, double(r.below(8))}); break;
            case 1: p.add("free", {pool, r.chance(0.3) ? 0 : double(r.below(1000)), double(r.below(8)), double(r.chance(0.2))}); break;
            case 2: p.add("oom", {pool, type, count, double(r.below(8)), double(r.range(1, 4))}); break;
            case 3: p.add("freeAll", {pool, double(r.below(1000)), double(r.below(3))}); break;
            case 4: p.add("copy", {pool, double(r.below(8))}); break;
            case 5: p.add("container", {pool, double(r.below(100000))}); break;
            case 6: p.add("unique", {pool, double(r.below(100000))}); break;
            default: p.add("huge", {pool, double(r.below(7)), double(r.range(-3, 3))}); break;
        }
    }
    return p;
}

Register c20{Prop{
    "C20", poolPlan,
    [](const Plan& plan, Ctx& ctx) {
        switch (int(plan.get("bs")))
        {
            case 0: PoolSim<256>{plan, ctx}.run(); break;
            case 1: PoolSim<1024>{plan, ctx}.run(); break;
            case 2: PoolSim<simu::defaultBlockSize < 200 ? 4096 : simu::defaultBlockSize>{plan, ctx}.run(); break;
            default: PoolSim<777>{plan, ctx}.run(); break;
        }
    }}};

} // namespace
} // namespace sim
