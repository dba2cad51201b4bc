// C16 failed creations, C17 exceptions within steps, C18 memory
#include "wsim.hpp"
#include "gen.hpp"

#include <algorithm>

namespace sim
{
namespace
{

const std::vector<int> createHooks{HBodyConstruct, HConConstruct, HFFConstruct, HBodyCtor, HConCtor, HFFCtor};
const std::vector<int> safeHooks{HBodyPre, HBodyPost, HConPre, HConPost, HFFPre, HFFPost, HCtPre, HCtPost, HBodyDestruct, HConDestruct, HFFDestruct, HBodyConstruct, HConConstruct};

// --------------------------------------------------------------------- snapshots
// What a user can see of a world through its interface
struct Snap
{
    std::vector<std::pair<std::string, std::vector<u64>>> parts;

    template <class F>
    void part(const std::string& name, F f)
    {
        parts.push_back({name, {}});
        std::vector<u64>& v = parts.back().second;
        f(v);
    }
};

u64 bitsOf(float f)
{
    std::uint32_t u;
    std::memcpy(&u, &f, 4);
    return u;
}
void put(std::vector<u64>& v, Vec2 x)
{
    v.push_back(bitsOf(x[0]));
    v.push_back(bitsOf(x[1]));
}

Snap snapshot(WSim& s)
{
    Snap        p;
    simu::World& w = *s.world;
    p.part("the list of bodies", [&](auto& v) {
        for (simu::Body& b : w.bodies())
            v.push_back(u64(&b));
    });
    p.part("the list of constraints", [&](auto& v) {
        for (simu::Constraint& c : w.constraints())
            v.push_back(u64(&c));
    });
    p.part("the list of force fields", [&](auto& v) {
        for (simu::ForceField& f : w.forceFields())
            v.push_back(u64(&f));
    });
    p.part("the set of contacts", [&](auto& v) {
        for (simu::ContactConstraint& c : w.contacts())
        {
            v.push_back(u64(&c));
            v.push_back(c.isDead());
        }
    });
    p.part("which objects are dead", [&](auto& v) {
        for (simu::Body& b : w.bodies())
            v.push_back(b.isDead());
        for (simu::Constraint& c : w.constraints())
            v.push_back(c.isDead());
        for (simu::ForceField& f : w.forceFields())
            v.push_back(f.isDead());
    });
    p.part("a body's list of constraints", [&](auto& v) {
        for (simu::Body& b : w.bodies())
        {
            for (simu::Constraint* c : b.constraints())
                v.push_back(u64(c));
            v.push_back(0);
        }
    });
    p.part("a body's list of contacts", [&](auto& v) {
        for (simu::Body& b : w.bodies())
        {
            for (simu::ContactConstraint* c : b.contacts())
                v.push_back(u64(c));
            v.push_back(0);
        }
    });
    p.part("a body's colliders", [&](auto& v) {
        for (simu::Body& b : w.bodies())
        {
            for (const simu::Collider& c : b.colliders())
            {
                v.push_back(u64(&c));
                put(v, c.boundingBox().min());
                put(v, c.boundingBox().max());
                for (Vec2 x : c)
                    put(v, x);
            }
            v.push_back(0);
        }
    });
    p.part("a body's mass, inertia or centroid", [&](auto& v) {
        for (simu::Body& b : w.bodies())
        {
            v.push_back(bitsOf(b.mass()));
            v.push_back(bitsOf(b.inertia()));
            put(v, b.localCentroid());
        }
    });
    p.part("a body's position or velocity", [&](auto& v) {
        for (simu::Body& b : w.bodies())
        {
            put(v, b.position());
            put(v, b.centroid());
            put(v, b.velocity());
            v.push_back(bitsOf(b.orientation()));
            v.push_back(bitsOf(b.angularVelocity()));
        }
    });
    p.part("the result of a query", [&](auto& v) {
        std::vector<BoundingBox> boxes{BoundingBox{Vec2{-1e7f, -1e7f}, Vec2{1e7f, 1e7f}}, BoundingBox{Vec2{-1, -1}, Vec2{0, 0}}};
        int                      n = 0;
        for (simu::Body& b : w.bodies())
            for (const simu::Collider& c : b.colliders())
                if (n++ < 6)
                    boxes.push_back(c.boundingBox());
        for (const BoundingBox& b : boxes)
        {
            std::map<u64, u64> got;
            w.forEachIn(b, [&](simu::Body* x) { ++got[u64(x)]; });
            for (auto& [k, c] : got)
            {
                v.push_back(k);
                v.push_back(c);
            }
            v.push_back(0);
        }
    });
    return p;
}

std::string difference(const Snap& a, const Snap& b)
{
    for (std::size_t i = 0; i < a.parts.size(); ++i)
        if (a.parts[i].second != b.parts[i].second)
            return a.parts[i].first;
    return {};
}

// ------------------------------------------------------------------ failing calls
enum Outcome
{
    Returned,
    OutOfMemory,
    UserThrew,
    EngineThrew,
    OtherThrew
};

struct Failer
{
    WSim& s;
    Ctx&  ctx;

    template <class F>
    Outcome attempt(F f)
    {
        try
        {
            f();
            return Returned;
        }
        catch (const std::bad_alloc&)
        {
            return OutOfMemory;
        }
        catch (const UserError& e)
        {
            if (e.tag != 4242)
                ctx.violate("creation:other-error", "the error that reached the caller is not the one that was thrown");
            return UserThrew;
        }
        catch (const simu::Exception&)
        {
            return EngineThrew;
        }
        catch (...)
        {
            return OtherThrew;
        }
    }

    std::size_t nObjs = 0; // known before the attempt

    void checkUnchanged(const Snap& before, const std::string& what)
    {
        std::string d = difference(before, snapshot(s));
        if (!d.empty())
            ctx.violate("creation:changed", fmt("%s changed %s", what.c_str(), d.c_str()));
        for (std::size_t i = nObjs; i < s.objs.size(); ++i)
            if (s.objs[i].exists && s.objs[i].kind != KContact)
                ctx.violate("creation:left-object", fmt("%s left the object (kind %d) alive", what.c_str(), s.objs[i].kind));
        ctx.count("checks.unchanged");
    }

    // repeated failures may leave some spare capacity behind, but not more and more
    struct Growth
    {
        i64 last = -1;
        int grew = 0;
        bool leaks(i64 now)
        {
            bool g = last >= 0 && now > last;
            grew   = g ? grew + 1 : 0;
            last   = now;
            return grew >= 6;
        }
    };

    template <class F>
    void outOfMemory(F f, const std::string& name)
    {
        for (i64 k = 1; k < 400; ++k)
        {
            Growth g;
            for (int t = 0; t < 12; ++t)
            {
                Snap before = snapshot(s);
                nObjs       = s.objs.size();
                heapFailAt(k);
                Outcome r     = attempt(f);
                bool    fired = heapFailFired();
                heapFailAt(0);
                ctx.ev("oom", k, int(r), fired);
                if (!fired)
                {
                    if (r != Returned)
                        ctx.violate("creation:spurious-error", fmt("%s fails after a failed attempt although it is valid", name.c_str()));
                    return;
                }
                ctx.count("fault.oom." + name);
                std::string what = fmt("%s with allocation %lld failing", name.c_str(), (long long)k);
                if (r == Returned)
                {
                    if (difference(before, snapshot(s)).empty())
                        ctx.violate("creation:swallowed", what + " reported success but did nothing");
                    return;
                }
                checkUnchanged(before, what);
                if (g.leaks(heapEngine().liveBytes))
                    ctx.violate("creation:leak", what + " leaks: " + fmt("%lld bytes are held after %d failed attempts, ", (long long)heapEngine().liveBytes, t) + heapOldestLive());
            }
        }
        ctx.error("more allocations than expected");
    }

    template <class F>
    void repeatFailing(F f, const std::string& name, Outcome want)
    {
        Growth g;
        for (int t = 0; t < 10; ++t)
        {
            Snap before = snapshot(s);
            nObjs       = s.objs.size();
            Outcome r   = attempt(f);
            ctx.ev("fail", int(r));
            if (r == Returned)
            {
                // nothing was attempted, or the hook did not run
                if (difference(before, snapshot(s)).empty() || want == UserThrew)
                    return;
                ctx.violate("creation:accepted", name + " succeeded");
            }
            if (r != want)
                ctx.violate("creation:other-error", name + fmt(": unexpected kind of error %d", int(r)));
            ctx.count("fault." + name);
            checkUnchanged(before, name);
            if (g.leaks(heapEngine().liveBytes))
                ctx.violate("creation:leak", name + " leaks: " + heapOldestLive());
        }
    }

    // fail mode sub args...
    void run(const Op& op)
    {
        static const char* const subs[] = {"mkBody", "addCol", "mkCon", "mkFF"};
        int                      mode = int(op.arg(0)) % 4, sub = int(op.arg(1)) % 4;
        Op                       t{subs[sub], {}};
        for (std::size_t i = 2; i < op.a.size(); ++i)
            t.a.push_back(op.a[i]);

        std::vector<Script> saved;
        std::swap(saved, s.scripts);
        if (mode == 0)
            outOfMemory([&] { s.exec(t); }, subs[sub]);
        else if (mode == 1)
        {
            // the constructor or the construction hook throws
            static const int hooks[4][2] = {
                {HBodyCtor, HBodyConstruct}, {HBodyCtor, HBodyConstruct}, {HConCtor, HConConstruct}, {HFFCtor, HFFConstruct}};
            int  h    = hooks[sub][int(op.arg(2) * 7919) & 1];
            auto call = [&] {
                s.scripts.clear();
                s.scripts.push_back(Script{h, 1, Op{"throw", {4242}}});
                s.exec(t);
            };
            if (sub != 1)
                repeatFailing(call, std::string("throw.") + hookNames[h], UserThrew);
        }
        else if (mode == 2)
            invalid(op);
        else
            newWorld();
        s.scripts = saved;
    }

    void newWorld()
    {
        for (i64 k = 1; k < 100; ++k)
        {
            i64  before = heapEngine().liveBytes;
            auto f      = s.factory();
            bool fired  = false;
            try
            {
                EngineScope e;
                heapFailAt(k);
                auto w = std::make_unique<simu::World>(f);
                fired  = heapFailFired();
                heapFailAt(0);
            }
            catch (const std::bad_alloc&)
            {
                heapFailAt(0);
                fired = true;
                ctx.count("fault.oom.world");
            }
            if (heapEngine().liveBytes != before)
                ctx.violate("creation:leak", fmt("a world whose construction failed at allocation %lld keeps memory: ", (long long)k) + heapOldestLive());
            if (!fired)
                return;
        }
    }

    void invalid(const Op& op)
    {
        std::vector<int> cand;
        for (int id : s.living(KBody))
            if (s.solid(id))
                cand.push_back(id);
        int i0 = s.pickOf(cand, op.pick(3));
        if (i0 < 0)
            return;
        simu::Body* b0 = s.o(i0).body;
        int         kind = int(op.arg(2)) % 8;
        if (kind <= 3)
        {
            simu::ColliderDescriptor cd{
                WSim::shape(0, 1, 1, 0, 0.3, 0.2), WSim::material(kind == 0 ? 0 : kind == 1 ? -1.5 : kind == 2 ? NAN : 1, 0, 0)};
            if (kind == 3) // no surface
                cd.polygon = simu::Polygon{Vec2{0, 0}, Vec2{1, 1}, Vec2{2, 2}};
            repeatFailing(
                [&] {
                    EngineScope e;
                    b0->addCollider(cd);
                },
                fmt("invalid.collider%d", kind), EngineThrew
            );
            return;
        }
        std::erase(cand, i0);
        bool structural = kind == 7;
        if (structural != s.o(i0).structural)
            return;
        if (structural)
            std::erase_if(cand, [&](int id) { return !s.o(id).structural; });
        int i1 = s.pickOf(cand, op.pick(4));
        if (i1 < 0)
            return;
        simu::Bodies bodies{b0, s.o(i1).body};
        std::array<Vec2, 2> pts{b0->centroid(), s.o(i1).body->centroid()};
        repeatFailing(
            [&] {
                EngineScope e;
                switch (kind)
                {
                    case 4: makeDist(s, bodies, pts, std::nullopt, std::nullopt, true); break;
                    case 5: makeDist(s, bodies, pts, 2.f, 1.f, true); break;
                    case 6: makeDist(s, bodies, pts, std::nullopt, -1.f, false); break;
                    default: makeHinge(s, bodies, pts[0], true); break;
                }
            },
            fmt("invalid.constraint%d", kind), EngineThrew
        );
    }
};

std::vector<double> failArgs(Rng& r, const HistoryCfg& c)
{
    int mode = int(r.weighted({6, 2.5, 2, 0.3}));
    int sub  = int(r.weighted({2, 3, 3, 1}));
    if (mode == 2)
        return {2, 0, double(r.below(8)), double(r.below(64)), double(r.below(64))};
    std::vector<double> a{double(mode), double(sub)}, x;
    switch (sub)
    {
        case 0:
            x    = bodyArgs(r, c);
            x[5] = 0; // the colliders are added by calls of their own
            break;
        case 1: x = addColArgs(r); break;
        case 2: x = conArgs(r); break;
        default: x = ffArgs(r); break;
    }
    a.insert(a.end(), x.begin(), x.end());
    return a;
}

Register c16{Prop{
    "C16",
    [](Rng& r, int tier) {
        HistoryCfg c;
        c.minOps = 8;
        c.maxOps = tier ? 40 : 20;
        c.wRm = 2.5;
        Plan p = history(r, c, safeHooks, false);
        // failing calls anywhere in the history, and within callbacks
        std::vector<Op> ops;
        for (Op& op : p.ops)
        {
            if (op.kind == "step" && r.chance(0.2))
            {
                std::vector<double> a{double(r.pick(safeHooks)), double(r.range(1, 4)), 12};
                for (double x : failArgs(r, c))
                    a.push_back(x);
                ops.push_back(Op{"on", a});
            }
            ops.push_back(op);
            if (r.chance(0.3))
                ops.push_back(Op{"fail", failArgs(r, c)});
        }
        p.ops = ops;
        return p;
    },
    [](const Plan& plan, Ctx& ctx) {
        WSim s{plan, ctx};
        s.tolerateDivergence = true;
        s.oracleQueries      = true;
        Failer failer{s, ctx};
        s.onFail = [&](const Op& op) { failer.run(op); };
        i64 held = heapEngine().liveBytes;
        s.makeWorld();
        bool any = false;
        for (std::size_t i = 0; i < plan.ops.size(); ++i)
        {
            const Op& op = plan.ops[i];
            ctx.opIndex  = int(i);
            s.exec(op);
            if (s.ended)
                break;
            if (op.kind == "on")
                continue;
            any = any || op.kind == "fail";
            s.checkRefs();
            if (op.kind == "step")
            {
                if (op.arg(0) > 0)
                    s.checkContacts();
                Rng r{u64(i) * 977 + 13};
                s.checkQueriesDense(r, 2);
                s.signature();
            }
        }
        ctx.nontrivial = any;
        s.destroyWorld();
        if (heapEngine().liveBytes != held)
            ctx.violate("memory:leak", fmt("%lld bytes are held after the world was destroyed: ", (long long)(heapEngine().liveBytes - held)) + heapOldestLive());
    }}};

// ------------------------------------------------------------------------- C17
const std::vector<int> throwHooks{
    HBodyPre, HBodyPost, HBodyDestruct, HConPre, HConPost, HConDestruct, HFFPre, HFFPost, HFFDestruct,
    HCtPre, HCtPost, HCtDestruct, HCtConstruct, HCtCtor, HApply, HActive, HInit, HWarm, HVel, HPos, HFactory,
    HBodyConstruct, HConConstruct, HFFConstruct, HBodyCtor, HConCtor};

Register c17{Prop{
    "C17",
    [](Rng& r, int tier) {
        HistoryCfg c;
        c.minOps = 10;
        c.maxOps = tier ? 90 : 45;
        c.wOn    = 6;
        c.pThrow = r.chance(0.3) ? 0.8 : 0.4;
        Plan p = history(r, c, throwHooks, false);
        for (int i = 0; i < 3; ++i)
            p.add("step", {1.0 / 60});
        return p;
    },
    [](const Plan& plan, Ctx& ctx) {
        WSim s{plan, ctx};
        s.tolerateDivergence = true;
        s.oracleLifecycle    = false;
        s.oracleQueries      = false;
        s.makeWorld();
        int  clean = 2; // regular steps since the last exception
        bool any   = false;
        for (std::size_t i = 0; i < plan.ops.size(); ++i)
        {
            const Op& op = plan.ops[i];
            ctx.opIndex  = int(i);
            std::vector<int> bodies;
            if (op.kind == "step")
                bodies = s.living(KBody);
            bool threw  = false;
            s.lastThrow = -1;
            s.oracleQueries = clean >= 2;
            try
            {
                s.exec(op);
            }
            catch (const UserError& e)
            {
                threw = true;
                if (e.tag != s.lastThrow)
                    ctx.violate("exception:changed", "the exception that reached the caller is not the one that was thrown");
            }
            if (s.lastThrow >= 0)
            {
                if (!threw)
                    ctx.violate("exception:swallowed", fmt("an exception thrown by a callback within %s did not reach the caller", op.kind.c_str()));
                any   = true;
                clean = 0;
                ctx.count(op.kind == "step" ? "fault.exceptionInStep" : "fault.exceptionInCall");
                s.scripts.clear();
            }
            else if (op.kind == "step" && op.arg(0) > 0)
                ++clean;
            if (s.ended)
                break;
            if (op.kind == "step")
                for (int id : bodies)
                    if (!s.o(id).exists)
                        ctx.violate("exception:lost-body", fmt("body %d was alive and disappeared in a step%s", id, threw ? " that threw" : ""));
            if (clean >= 2 && op.kind != "on")
            {
                s.checkRefs();
                s.oracleQueries = true;
                Rng r{u64(i) * 977 + 13};
                s.checkQueriesDense(r, 3);
                if (op.kind == "step" && op.arg(0) > 0)
                    s.checkContacts();
                ctx.count("checks.recovered");
            }
            if (op.kind == "step")
                s.signature();
        }
        ctx.nontrivial = any;
        i64 held = 0;
        s.destroyWorld();
        if (heapEngine().liveBytes != held)
            ctx.violate("memory:leak", fmt("%lld bytes are held after the world was destroyed: ", (long long)heapEngine().liveBytes) + heapOldestLive());
    }}};

// ------------------------------------------------------------------------- C18
Register c18{Prop{
    "C18",
    [](Rng& r, int tier) {
        HistoryCfg c;
        c.minOps  = 4;
        c.maxOps  = tier ? 40 : 18;
        c.wOn     = 2;
        c.wNewWorld = r.chance(0.1) ? 0.5 : 0;
        c.wClear  = r.chance(0.2) ? 1 : 0;
        c.pThrow  = r.chance(0.4) ? 0.5 : 0;
        Plan p    = history(r, c, throwHooks, r.chance(0.5));
        std::vector<Op> ops;
        for (Op& op : p.ops)
        {
            ops.push_back(op);
            if (r.chance(0.1)) // a creation that fails
            {
                std::vector<double> a = failArgs(r, c);
                a[0]                  = double(r.range(1, 14));
                ops.push_back(Op{"oom", a});
            }
        }
        p.ops           = ops;
        p.cfg["cycles"] = 9;
        return p;
    },
    [](const Plan& plan, Ctx& ctx) {
        WSim s{plan, ctx};
        s.tolerateDivergence = true;
        s.oracleLifecycle    = false;
        i64 base = heapEngine().liveBytes;
        s.makeWorld();
        i64              fresh = heapEngine().liveBytes - base;
        int              cycles = int(plan.get("cycles", 9));
        std::vector<i64> held;
        i64              peakContacts = 0, fails = 0;
        bool             any = false;

        auto guarded = [&](auto f) {
            try
            {
                f();
            }
            catch (const UserError&)
            {
                ctx.count("fault.exception");
            }
            catch (const std::bad_alloc&)
            {
                ctx.count("fault.oom");
                ++fails;
            }
        };
        for (int c = 0; c < cycles && !s.ended; ++c)
        {
            for (std::size_t i = 0; i < plan.ops.size() && !s.ended; ++i)
            {
                const Op& op = plan.ops[i];
                ctx.opIndex  = int(i);
                if (op.kind == "oom")
                {
                    static const char* const subs[] = {"mkBody", "addCol", "mkCon", "mkFF"};
                    Op t{subs[int(op.arg(1)) % 4], {}};
                    for (std::size_t k = 2; k < op.a.size(); ++k)
                        t.a.push_back(op.a[k]);
                    heapFailAt(i64(op.arg(0)));
                    guarded([&] { s.exec(t); });
                    heapFailAt(0);
                }
                else
                    guarded([&] { s.exec(op); });
                peakContacts = std::max<i64>(peakContacts, i64(s.alive(KContact).size()));
                any          = any || s.alive(KBody).size() > 1;
            }
            // everything dies
            for (int t = 0; t < 8; ++t)
            {
                s.scripts.clear();
                bool left = false;
                for (int kind : {KBody, KCon, KFF})
                    for (int id : s.alive(kind))
                    {
                        left = true;
                        if (!s.o(id).killed)
                            s.killObj(id);
                    }
                guarded([&] { s.step(0); });
                if (!left)
                    break;
            }
            s.ended = false;
            if (!s.alive(KBody).empty() || !s.alive(KContact).empty())
                ctx.violate("memory:not-empty", "objects that were killed stay in the world");
            s.objs.clear();
            held.push_back(heapEngine().liveBytes - base);
            ctx.ev("held", held.back());
            ctx.count("cycles");
            ctx.state(mixHash(u64(held.back()), u64(peakContacts)));
        }
        int grew = 0;
        for (std::size_t i = 1; i < held.size(); ++i)
            grew = held[i] > held[i - 1] ? grew + 1 : 0;
        if (grew >= 5)
            ctx.violate("memory:growth", fmt("the memory held by the emptied world grows with every cycle: %lld, %lld, %lld, %lld bytes", (long long)held[held.size() - 4], (long long)held[held.size() - 3], (long long)held[held.size() - 2], (long long)held.back()));
        // an empty world holds the root of its tree, the buckets of its contact map, and what pools round up to
        i64 block = i64(simu::defaultBlockSize) > 1024 ? 3 * (i64(simu::defaultBlockSize) + 512) : 1024;
        i64 bound = fresh + block + 40 * peakContacts;
        for (std::size_t i = 0; i < held.size(); ++i)
            if (held[i] > bound)
                ctx.violate("memory:unbounded", fmt("the emptied world holds %lld bytes after cycle %zu, a fresh one held %lld (at most %lld contacts existed)", (long long)held[i], i, (long long)fresh, (long long)peakContacts));
        ctx.nontrivial = any;
        s.destroyWorld();
        if (heapEngine().liveBytes != base)
            ctx.violate("memory:leak", fmt("%lld bytes are held after the world was destroyed: ", (long long)(heapEngine().liveBytes - base)) + heapOldestLive());
    }}};

} // namespace
} // namespace sim
