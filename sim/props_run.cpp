// C21 profiler, C22 steps complete, C28 sleeping
#include "phys.hpp"

#include <algorithm>

namespace sim
{
namespace
{

// ------------------------------------------------------------------------------- C21
struct EntryModel
{
    double last = 0, max = 0, sum = 0;
    i64    n    = 0;
    void   add(double x)
    {
        last = x;
        max  = std::max(max, x);
        sum += x;
        ++n;
    }
};

bool nearTime(double a, double b) { return std::abs(a - b) <= 1e-9 * (std::abs(a) + std::abs(b)) + 1e-15; }

void compareEntry(Ctx& ctx, const char* name, const simu::TimeEntry& e, const EntryModel& m, bool last = true)
{
    if (last && !nearTime(e.last(), m.last))
        ctx.violate("profiler:last", fmt("%s: the last measure is %.12g, the clock advanced by %.12g in that phase", name, e.last(), m.last));
    if (!nearTime(e.max(), m.max))
        ctx.violate("profiler:max", fmt("%s: the maximum is %.12g, the largest measure was %.12g", name, e.max(), m.max));
    if (!nearTime(e.average(), m.n == 0 ? 0 : m.sum / double(m.n)))
        ctx.violate("profiler:average", fmt("%s: the average is %.12g, that of the %lld measures is %.12g", name, e.average(), (long long)m.n, m.n == 0 ? 0 : m.sum / double(m.n)));
    if (e.nMeasures() != m.n)
        ctx.violate("profiler:count", fmt("%s: %lld measures are counted, %lld were made", name, (long long)e.nMeasures(), (long long)m.n));
    ctx.count("checks.entries");
}

enum Phase { PNone, PNarrow, PTree, PIsland, PVel, PPos, Phases };

int phaseOf(int h)
{
    switch (h)
    {
        case HCtPre: return PNarrow;
        case HFactory:
        case HCtCtor:
        case HCtConstruct: return PTree;
        case HActive: return PIsland;
        case HInit:
        case HWarm:
        case HVel: return PVel;
        case HPos: return PPos;
        default: return PNone;
    }
}

// advances of the clock: usually small, sometimes a stall or nothing
i64 advance(Rng& r)
{
    switch (r.below(10))
    {
        case 0: return 0;
        case 1: return i64(r.below(20));
        case 2: return i64(r.below(5000000000ull)); // seconds
        default: return i64(r.below(2000000));
    }
}

std::vector<u64> runC21(const Plan& plan, Ctx& ctx, u64 clockSeed, bool check)
{
    std::vector<u64> trace;
    WSim             s{plan, ctx};
    s.tolerateDivergence = true;
    s.oracleLifecycle    = false;
    Rng clock{clockSeed};
    g_clockTick = 0;
    EntryModel m[Phases];
    double     spent[Phases] = {};
    int        outer         = 0;
    s.onHook = [&](int h, int) {
        if (s.depth == 0)
            outer = h;
        i64 d = advance(clock);
        g_clockNs += d;
        if (d > 100000000)
            ctx.count("fault.clockStall");
        if (s.inStep)
            spent[phaseOf(outer)] += double(d) * 1e-9;
    };
    s.makeWorld();
    if (ctx.seed != 0) {}
    auto compare = [&](bool stepped) {
        const simu::Profiler& p = s.world->profiler();
        (void)stepped;
        compareEntry(ctx, "narrowPhaseCollision", p.narrowPhaseCollision, m[PNarrow]);
        compareEntry(ctx, "treeUpdateAndCollision", p.treeUpdateAndCollision, m[PTree]);
        compareEntry(ctx, "islandConstruction", p.islandConstruction, m[PIsland]);
        compareEntry(ctx, "solveVelocities", p.solveVelocities, m[PVel]);
        compareEntry(ctx, "solvePositions", p.solvePositions, m[PPos]);
    };
    for (std::size_t i = 0; i < plan.ops.size() && !s.ended; ++i)
    {
        const Op& op = plan.ops[i];
        ctx.opIndex  = int(i);
        if (op.kind == "resetProf")
        {
            ctx.count("op.resetProf");
            s.world->profiler().reset();
            for (EntryModel& e : m)
                e = EntryModel{};
            if (check)
                compare(false);
        }
        else if (op.kind == "step")
        {
            std::fill(spent, spent + Phases, 0.0);
            s.exec(op);
            if (s.ended)
                break;
            m[PNarrow].add(spent[PNarrow]);
            if (op.arg(0) > 0)
            {
                for (int p : {PTree, PIsland, PVel, PPos})
                    m[p].add(spent[p]);
                s.signature();
            }
            for (int p = 1; p < Phases; ++p)
                if (spent[p] > 0)
                {
                    ctx.nontrivial = true;
                    ctx.count(fmt("reach.phase%d", p));
                }
            if (check)
                compare(true);
        }
        else if (op.kind == "clock")
        {
            i64 d = i64(op.arg(0));
            g_clockNs += d;
            if (check)
                compare(false);
        }
        else if (op.kind == "newWorld" || op.kind == "clear")
        {
            s.exec(op);
            if (op.kind == "newWorld")
                for (EntryModel& e : m)
                    e = EntryModel{};
            if (check)
                compare(false);
        }
        else
            s.exec(op);
        u64 h = mixHash(u64(s.objs.size()), 1);
        for (const Obj& x : s.objs)
            if (x.kind == KBody && x.exists && x.body != nullptr)
            {
                BodyState b = observe(s, x.id);
                for (float f : b.raw)
                {
                    std::uint32_t u;
                    std::memcpy(&u, &f, 4);
                    h = mixHash(h, u);
                }
            }
        trace.push_back(h);
    }
    s.scripts.clear();
    s.onHook = nullptr;
    s.destroyWorld();
    return trace;
}

// timers used directly
void timers(const Plan& plan, Ctx& ctx)
{
    Rng             r{u64(plan.get("timers")) + 3};
    simu::TimeEntry e;
    EntryModel      m;
    g_clockTick = 0;
    auto moved = [&](simu::ScopedTimer t) {
        i64 d = advance(r);
        g_clockNs += d;
        simu::ScopedTimer u{std::move(t)};
        i64               d2 = advance(r);
        g_clockNs += d2;
        return double(d + d2) * 1e-9;
    };
    for (int i = 0; i < 12; ++i)
    {
        switch (r.below(4))
        {
            case 0:
            {
                double d = 0;
                {
                    auto t = e.time();
                    i64  k = advance(r);
                    g_clockNs += k;
                    d = double(k) * 1e-9;
                }
                m.add(d);
                break;
            }
            case 1:
            {
                double d = 0;
                {
                    simu::ScopedTimer t = e.time();
                    d                   = moved(std::move(t));
                    g_clockNs += advance(r); // what was moved measures no more
                }
                m.add(d);
                break;
            }
            default:
            {
                e.startPartial();
                double sum = 0;
                for (u64 k = r.below(4); k-- > 0;)
                {
                    g_clockNs += advance(r);
                    if (r.chance(0.3))
                        sum += moved(e.timePartial());
                    else
                    {
                        auto t = e.timePartial();
                        i64  d = advance(r);
                        g_clockNs += d;
                        sum += double(d) * 1e-9;
                    }
                }
                g_clockNs += advance(r);
                e.commitPartial();
                m.add(sum);
            }
        }
        compareEntry(ctx, "a timer", e, m);
        ctx.count("checks.timers");
    }
}

Register c21{Prop{
    "C21",
    [](Rng& r, int tier) {
        HistoryCfg c;
        c.minOps = 15;
        c.maxOps = tier ? 90 : 45;
        c.wCon   = 4;
        c.wFactory = 0;
        c.wNewWorld = 0.1;
        c.wQuery = 0;
        Plan p = history(r, c, {HBodyPre, HConPre, HFFPre, HBodyPost, HConPost, HInit, HVel}, false);
        for (int k = int(r.below(4)); k-- > 0;)
            p.ops.insert(p.ops.begin() + long(r.below(p.ops.size())), Op{"resetProf", {}});
        for (int k = int(r.below(5)); k-- > 0;)
            p.ops.insert(p.ops.begin() + long(r.below(p.ops.size())), Op{"clock", {double(r.below(4000000000ull))}});
        p.cfg["clockA"] = double(1 + r.below(1000000));
        p.cfg["clockB"] = double(1 + r.below(1000000));
        p.cfg["timers"] = double(r.below(1000000));
        return p;
    },
    [](const Plan& plan, Ctx& ctx) {
        timers(plan, ctx);
        auto a = runC21(plan, ctx, u64(plan.get("clockA")), true);
        auto b = runC21(plan, ctx, u64(plan.get("clockB")), true);
        for (std::size_t i = 0; i < std::min(a.size(), b.size()); ++i)
            if (a[i] != b[i])
            {
                ctx.opIndex = int(i);
                ctx.violate("profiler:disturbs", fmt("after operation %zu, bodies differ between two runs whose only difference is the clock", i));
            }
        if (a.size() != b.size())
            ctx.violate("profiler:disturbs", "two runs whose only difference is the clock do not end at the same operation");
    }}};

// ------------------------------------------------------------------------------- C28
void execC28(const Plan& plan, Ctx& ctx)
{
    WSim s{plan, ctx};
    s.tolerateDivergence = true;
    s.oracleLifecycle    = false;
    s.logApply           = true;
    s.makeWorld();
    Watch w{s};

    struct Calm
    {
        double lo = 0, hi = 0; // how long the body was calm, measured in step time
    };
    std::map<int, Calm> calm;

    auto settings = [&]() -> const simu::World::Settings& { return s.world->settings(); };
    auto asleep   = [&](int id) { return s.o(id).body->isAsleep(); };
    auto concerns = [&](int id, const char* what) {
        if (s.o(id).exists && s.o(id).body != nullptr && asleep(id))
            ctx.violate("sleep:not-woken", fmt("body %d sleeps although %s", id, what));
        ctx.count("checks.woken");
    };
    // whose contacts and joints end with this step
    std::vector<std::pair<int, const char*>> ending;
    std::set<int>                            touched; // bodies that have a contact with contact points
    std::set<int>                            quiet; // bodies all of whose neighbourhood sleeps

    w.before = [&] {
        s.applications.clear();
        for (auto [id, what] : ending)
            concerns(id, what);
        for (auto& [id, b] : w.pre)
            if (b.asleep && !settings().enableSleeping)
                ctx.violate("sleep:disabled", fmt("body %d sleeps although sleeping is disabled", id));
        // a contact of bodies that do not touch: nothing is solved with it, it concerns nobody
        touched.clear();
        for (const Obj& x : s.objs)
            if (x.kind == KContact && x.exists && (!x.atStart || x.contact == nullptr || x.contact->contactInfo().nContacts > 0))
                touched.insert({x.b[0], x.b[1]});
        // neighbourhoods
        quiet.clear();
        std::map<int, int> group;
        std::function<int(int)> find = [&](int x) { return group[x] == x ? x : group[x] = find(group[x]); };
        for (auto& [id, b] : w.pre)
            group[id] = id;
        for (const Obj& x : s.objs)
            if ((x.kind == KCon || x.kind == KContact) && x.exists && x.b[0] >= 0 && x.b[1] >= 0 && group.count(x.b[0]) && group.count(x.b[1]))
                group[find(x.b[0])] = find(x.b[1]);
        std::map<int, bool> all;
        for (auto& [id, b] : w.pre)
        {
            auto [it, fresh] = all.insert({find(id), true});
            it->second       = it->second && b.asleep;
        }
        for (auto& [id, b] : w.pre)
            if (all[find(id)])
                quiet.insert(id);
    };
    w.after = [&] {
        double dt = s.stepDt;
        std::set<int> met;
        for (const Obj& x : s.objs)
            if (x.kind == KContact && x.exists && !x.atStart)
            {
                for (int b : x.b)
                    if (b >= 0)
                    {
                        met.insert(b);
                        concerns(b, "it has a new contact");
                    }
                ctx.count("reach.newContacts");
            }
        for (const Applied& a : s.applications)
            for (auto& [id, b] : w.pre)
            {
                if (!b.asleep)
                    continue;
                const Obj& x = s.o(id);
                if (!x.exists)
                    continue;
                for (const simu::Collider& c : x.body->colliders())
                    if (&c == a.c)
                        ctx.violate("sleep:force", fmt("force field %d was applied to body %d, which sleeps", a.ff, id));
            }
        if (dt <= 0)
            return;
        // what is solved with an awake body is awake, and then only sleeps if it is calm
        std::set<int> partner;
        for (const Obj& x : s.objs)
            if ((x.kind == KCon || x.kind == KContact) && x.exists && x.init > 0 && x.b[0] >= 0 && x.b[1] >= 0 && !s.o(x.b[0]).structural
                && !s.o(x.b[1]).structural && w.pre.count(x.b[0]) && w.pre.count(x.b[1]))
                for (int k = 0; k < 2; ++k)
                    if (w.pre[x.b[k]].asleep && !w.pre[x.b[1 - k]].asleep)
                        partner.insert(x.b[k]);
        for (int id : partner)
            if (auto it = w.post.find(id); it != w.post.end() && settings().enableSleeping)
            {
                const BodyState& b = it->second;
                bool fast = b.speed() > 1.001 * settings().velocitySleepThreshold || std::abs(b.w) > 1.001 * settings().angularVelocitySleepThreshold;
                ctx.count("reach.sleeperSolvedWithAwake");
                if (fast)
                    ctx.count("reach.sleeperSetInMotion");
                if (fast && b.asleep)
                    ctx.violate("sleep:dragged", fmt("body %d is moved by an awake body (speed %g, angular %g) and still sleeps", id, b.speed(), b.w));
            }
        // awake bodies do get them
        std::set<const simu::Collider*> got;
        for (const Applied& a : s.applications)
            got.insert(a.c);
        bool global = false;
        for (const Obj& f : s.objs)
            if (f.kind == KFF && f.exists && f.listed && f.atStart && !s.dead(f.id) && f.ff->domain().type == simu::ForceField::DomainType::global)
                global = true;
        for (auto& [id, a] : w.pre)
        {
            auto it = w.post.find(id);
            if (it == w.post.end() || s.o(id).body == nullptr)
                continue;
            const BodyState& b = it->second;
            if (global && !a.asleep && !a.structural && s.o(id).atStart)
                for (const simu::Collider& c : s.o(id).body->colliders())
                    if (got.count(&c) == 0)
                        ctx.violate("sleep:awake-without-force", fmt("body %d is awake but no force is applied to it", id));

            const auto& st = settings();
            if (!st.enableSleeping)
            {
                calm[id] = Calm{};
                if (b.asleep)
                    ctx.violate("sleep:disabled", fmt("body %d sleeps although sleeping is disabled", id));
                continue;
            }
            double v = b.speed(), om = std::abs(b.w), tv = st.velocitySleepThreshold, tw = st.angularVelocitySleepThreshold;
            Calm&  k = calm[id];
            bool   surely = v < tv * 0.999 && om < tw * 0.999, possibly = v < tv * 1.001 && om < tw * 1.001;
            k.lo = surely ? k.lo + dt : 0;
            k.hi = possibly ? k.hi + dt : 0;
            double delay = st.inactivitySleepDelay, eps = 1e-4 * (delay + k.hi) + 1e-6;

            if (b.asleep && !a.asleep)
            {
                ctx.count("reach.fellAsleep");
                ctx.nontrivial = true;
                if (k.hi < delay - eps)
                    ctx.violate("sleep:too-early", fmt("body %d fell asleep, but it was calm for %g only (delay %g; speed %g of %g, angular %g of %g)", id, k.hi, delay, v, tv, b.w, tw));
            }
            bool alone = a.nContacts == b.nContacts && a.nCons == 0 && b.nCons == 0 && !met.count(id) && (a.nContacts == 0 || !touched.count(id));
            if (alone && a.nContacts > 0)
                ctx.count(a.asleep ? "reach.sleeperWithoutTouch" : "reach.awakeWithoutTouch");
            if (alone && !b.asleep && k.lo >= delay + eps)
                ctx.violate("sleep:never", fmt("body %d is calm since %g (delay %g) and does not sleep", id, k.lo, delay));
            if (a.asleep && !b.asleep)
            {
                ctx.count("reach.wokeInStep");
                if (alone)
                    ctx.violate("sleep:woke", fmt("body %d, which sleeps and nothing concerns, woke up", id));
            }
            if (alone && a.asleep && b.asleep && !(a.sameVel(b)))
                ctx.violate("sleep:accelerated", fmt("body %d, which sleeps alone, changed velocity", id));
            if (b.asleep)
                ctx.count("reach.asleep");
        }
    };
    w.other = [&](int h, int id) {
        if (h == HInit && s.depth == 0)
            for (int b : s.o(id).b)
                if (b >= 0 && quiet.count(b) && s.o(b).exists && !asleep(b) && s.o(id).atStart)
                    ctx.violate("sleep:woken-by-island", fmt("body %d and all that it interacts with sleep, it was woken to be solved", b));
    };
    auto willEnd = [&] {
        ending.clear();
        for (const Obj& x : s.objs)
            if ((x.kind == KCon || x.kind == KContact) && x.exists && x.listed && s.dead(x.id))
                for (int b : x.b)
                    if (b >= 0 && s.o(b).exists && !s.dead(b))
                        ending.push_back({b, x.kind == KCon ? "a constraint that acted on it was removed" : "a contact it had was removed"});
    };

    auto known = [&](const Op& op) {
        if (op.kind == "slow") // body fx fy fw: velocity as fractions of the thresholds
        {
            int id = s.pickOf(s.living(KBody), op.pick(0));
            if (id < 0 || !s.solid(id))
                return true;
            float tv = settings().velocitySleepThreshold, tw = settings().angularVelocitySleepThreshold;
            s.o(id).body->setVelocity(Vec2{float(op.arg(1)) * tv, float(op.arg(2)) * tv});
            concerns(id, "its velocity was set");
            s.o(id).body->setAngularVelocity(float(op.arg(3)) * tw);
            concerns(id, "its angular velocity was set");
            return true;
        }
        return false;
    };
    auto one = [&](const Op& op) {
        if (known(op))
            return true;
        std::size_t nObjs = s.objs.size();
        std::vector<int> linked;
        if (op.kind == "factory")
            for (const Obj& x : s.objs)
                if (x.kind == KContact && x.exists)
                    for (int b : x.b)
                        if (b >= 0 && s.o(b).exists)
                            linked.push_back(b);
        bool was = settings().enableSleeping;
        if (op.kind == "vel" || op.kind == "imp")
        {
            int  id = s.pickOf(s.living(KBody), op.pick(0));
            bool on = id >= 0 && s.solid(id) && !(op.kind == "imp" && s.o(id).structural);
            w.one(op);
            if (on)
                concerns(id, "its velocity was set");
            return !s.ended;
        }
        if (op.kind == "step")
        {
            willEnd();
            quiet.clear();
        }
        if (!w.one(op))
            return false;
        if (op.kind == "step" && (!w.gotBefore || !w.gotAfter)) // nothing was observed
            for (int id : s.alive(KBody))
                calm[id] = Calm{0, 1e9};
        if (op.kind == "settings")
        {
            if (op.a.size() > 5)
            {
                auto st = settings();
                st.velocitySleepThreshold        = float(op.arg(5));
                st.angularVelocitySleepThreshold = float(op.arg(6));
                s.world->updateSettings(st);
            }
            if (was && !settings().enableSleeping)
            {
                ctx.count("op.disableSleeping");
                calm.clear();
                for (int id : s.alive(KBody))
                    concerns(id, "sleeping was disabled");
            }
        }
        for (int id : linked)
            concerns(id, "a contact it had was removed");
        if (op.kind == "mkCon" || op.kind == "mkFF")
            for (std::size_t i = nObjs; i < s.objs.size(); ++i)
            {
                const Obj& x = s.objs[i];
                if (!x.exists || !x.listed)
                    continue;
                if (x.kind == KCon)
                {
                    for (int b : x.b)
                        if (b >= 0)
                            concerns(b, "a constraint was created for it");
                }
                else if (x.kind == KFF)
                {
                    auto d = x.ff->domain();
                    for (int id : s.alive(KBody))
                    {
                        bool in = d.type == simu::ForceField::DomainType::global;
                        for (const simu::Collider& c : s.o(id).body->colliders())
                        {
                            BoundingBox a = c.boundingBox(), b = d.region;
                            in = in || (a.min()[0] < b.max()[0] && b.min()[0] < a.max()[0] && a.min()[1] < b.max()[1] && b.min()[1] < a.max()[1]);
                        }
                        if (in)
                            concerns(id, "a force field was created around it");
                    }
                }
            }
        return !s.ended;
    };
    bool go = true;
    for (std::size_t i = 0; go && i < plan.ops.size(); ++i)
    {
        ctx.opIndex    = int(i);
        const Op& op   = plan.ops[i];
        if (op.kind == "run") // dt n
            for (int k = int(op.arg(1)); go && k-- > 0;)
                go = one(Op{"step", {op.arg(0)}});
        else
            go = one(op);
    }
    s.scripts.clear();
    s.onHook = nullptr;
    s.destroyWorld();
}

Op sleepSettings(Rng& r, bool on)
{
    double t = r.pick(std::vector<double>{1e-3, 1e-2, 0.1, 0.1});
    return {"settings", {double(r.range(2, 10)), double(r.range(0, 4)), double(r.below(2)), on ? 1.0 : 0.0,
                         r.chance(0.3) ? r.uni(0.3, 1) : r.uni(0.01, 0.2), t, r.chance(0.5) ? t : r.pick(std::vector<double>{1e-3, 1e-2, 0.1})}};
}

Op slowOp(Rng& r)
{
    auto f = [&] {
        switch (r.below(5))
        {
            case 0: return r.uni(-3, 3);
            case 1: return r.chance(0.5) ? -2.0 : 2.0;
            case 2: return r.uni(-0.7, 0.7);
            default: return 0.0;
        }
    };
    return {"slow", {double(r.below(64)), f(), f(), f()}};
}

Register c28{Prop{
    "C28",
    [](Rng& r, int tier) {
        HistoryCfg c;
        c.minOps = 12;
        c.maxOps = tier ? 70 : 40;
        c.wCon   = 1.5;
        c.wNewWorld = 0;
        c.wClear = 0;
        c.wQuery = 0;
        c.pZero  = 0.04;
        c.wSettings = 0;
        c.wOn    = 1;
        c.wFF    = 0.5;
        c.wBody  = 1;
        c.wKill  = 1.5;
        c.wVel   = 0.7;
        c.gravity = false;
        c.pSleep  = 0;
        double wSlow = 3, wRun = 6;
        Plan p = history(r, c, {HBodyPre, HConPre, HBodyPost, HConPost}, false);
        Plan q;
        q.cfg = p.cfg;
        q.ops.push_back(sleepSettings(r, true));
        q.add("mkFF", {r.chance(0.6) ? 4.0 : 0.0, 0, -9.81, 0, 0, 0, 0});
        for (Op& op : p.ops)
        {
            if (op.kind == "mkBody" && r.chance(0.7))
                op.a[11] = op.a[12] = op.a[13] = 0;
            q.ops.push_back(op);
            while (r.chance(wSlow / (wSlow + 10)))
                q.ops.push_back(slowOp(r));
            if (r.chance(wRun / (wRun + 6)))
                q.add("run", {r.chance(0.8) ? 1.0 / 60 : r.uni(0.002, 0.05), double(r.range(2, 25))});
            if (r.chance(0.06))
                q.ops.push_back(sleepSettings(r, r.chance(0.6)));
        }
        return q;
    },
    execC28}};

// ------------------------------------------------------------------------------- C22
// Well posed worlds: bodies whose sizes and masses are within two orders of magnitude, joined by trees of
// joints; but with every degenerate placement that a user can ask for.
double grid(Rng& r, double step, int n) { return step * double(r.range(-n, n)); }

std::vector<double> degenerateBody(Rng& r, const std::vector<std::vector<double>>& before, double step, double extreme)
{
    if (!before.empty() && r.chance(0.25))
    {
        std::vector<double> a = before[r.below(before.size())]; // coincident with another one
        if (r.chance(0.5))
            a[2] = grid(r, 1.5707963267948966, 4);
        if (r.chance(0.3))
            a[5] *= r.uni(0.3, 0.9); // nested
        if (r.chance(0.3))
            a[0] += r.pick(std::vector<double>{1e-6, 1e-4, 1e-3, -1e-5, a[5], a[5] + 1e-6, a[5] - 1e-6});
        return a;
    }
    bool   box = r.chance(0.6);
    double sz  = r.chance(0.7) ? step : step * r.pick(std::vector<double>{0.5, 2, extreme, 1 / extreme});
    double asp = r.chance(0.7) ? 1 : r.pick(std::vector<double>{0.5, 2, 0.1, 10});
    std::vector<double> a{grid(r, step / 2, 6), grid(r, step / 2, 6), r.chance(0.6) ? 0 : (r.chance(0.5) ? grid(r, 0.7853981633974483, 4) : r.uni(-3, 3)),
                          r.chance(0.25) ? 0.0 : 1.0, box ? 0.0 : double(r.range(3, 8)), sz, asp, double(r.below(1000)),
                          r.chance(0.6) ? 1 : r.uni(0.3, 3), r.chance(0.5) ? 0 : (r.chance(0.3) ? 1 : r.uni(0, 1)), r.chance(0.3) ? 0 : (r.chance(0.3) ? 1 : r.uni(0, 1)),
                          0, 0, 0, 0, 0};
    if (r.chance(0.4))
    {
        auto v = velocity(r, 0);
        a[11] = v[0], a[12] = v[1], a[13] = v[2];
    }
    return a;
}

// mkTip x y theta dom w h e density bounce friction vx vy w: a trapezoid whose lower edge is as short as e
void mkTip(WSim& s, const Op& op)
{
    simu::BodyDescriptor d;
    d.position    = Vec2{float(op.arg(0)), float(op.arg(1))};
    d.orientation = float(op.arg(2));
    d.dominance   = op.arg(3) > 0 ? 1.f : 0.f;
    float w = float(std::max(0.1, op.arg(4))), h = float(std::max(0.1, op.arg(5))), e = float(std::max(1e-6, op.arg(6)));
    simu::Vertices v{Vec2{-w / 2, h / 2}, Vec2{-e / 2, -h / 2}, Vec2{e / 2, -h / 2}, Vec2{w / 2, h / 2}};
    simu::ColliderDescriptor cd{simu::Polygon{v.begin(), v.end()}, WSim::material(std::max(0.1, op.arg(7)), op.arg(8), op.arg(9))};
    EngineScope sc;
    SimBody*    b = s.world->makeBody<SimBody>(&s, d);
    s.o(b->id).listed = true;
    b->addCollider(cd);
    b->setVelocity(Vec2{float(op.arg(10)), float(op.arg(11))});
    b->setAngularVelocity(float(op.arg(12)));
    s.ctx.count("op.mkTip");
}

void execC22(const Plan& plan, Ctx& ctx)
{
    WSim s{plan, ctx};
    s.oracleLifecycle = false;
    s.makeWorld();
    double before = 0;
    // joints never contradict each other: they form trees in which structural bodies are leaves, over bodies of comparable masses
    // that are not much further apart than they are large
    auto reach = [&](int id) {
        simu::BoundingBox box;
        for (const simu::Collider& c : s.o(id).body->colliders())
            box = box.combined(c.boundingBox());
        return double(simu::norm(box.max() - box.min()));
    };
    s.allowJoint = [&](int a, int b) {
        double apart = simu::norm(s.o(a).body->centroid() - s.o(b).body->centroid());
        if (!(apart <= 3 * std::min(reach(a), reach(b))))
            return false;
        std::map<int, int>      group;
        std::function<int(int)> find = [&](int x) { return group[x] == x ? x : group[x] = find(group[x]); };
        for (const Obj& x : s.objs)
            if (x.kind == KBody && x.exists)
                group[x.id] = x.id;
        double lo = 1e30, hi = 0;
        for (const Obj& x : s.objs)
            if (x.kind == KCon && x.exists && x.b[0] >= 0 && x.b[1] >= 0 && group.count(x.b[0]) && group.count(x.b[1]))
                group[find(x.b[0])] = find(x.b[1]);
        if (find(a) == find(b))
            return false;
        for (const Obj& x : s.objs)
            if (x.kind == KBody && x.exists && !x.structural && s.solid(x.id) && (find(x.id) == find(a) || find(x.id) == find(b)))
            {
                lo = std::min(lo, double(x.body->mass()));
                hi = std::max(hi, double(x.body->mass()));
            }
        return hi <= 10 * lo;
    };
    for (std::size_t i = 0; i < plan.ops.size(); ++i)
    {
        ctx.opIndex  = int(i);
        Op op = plan.ops[i];
        if (op.kind == "mkBody" && op.a.size() > 8) // minimised plans stay valid
            op.a[8] = std::max(op.a[8], 0.1);
        if (op.kind == "addCol" && op.a.size() > 5)
            op.a[5] = std::max(op.a[5], 0.1), op.a[2] = std::max(op.a[2], 0.1), op.a[3] = std::max(op.a[3], 0.1);
        int       n  = op.kind == "run" ? int(op.arg(1)) : 1;
        for (int k = 0; k < n; ++k)
        {
            try
            {
                if (op.kind == "run")
                    s.exec(Op{"step", {op.arg(0)}});
                else if (op.kind == "mkTip")
                    mkTip(s, op);
                else
                    s.exec(op);
            }
            catch (const simu::Exception& e)
            {
                ctx.violate("step:throws", fmt("%s threw: %.300s", op.kind.c_str(), e.what()));
            }
            s.checkFinite();
            double wild = s.wildness();
            bool   tame = before < 1;
            before      = wild;
            if (tame && wild > 20 && (op.kind == "run" || op.kind == "step"))
                ctx.violate("step:diverges", "a body left the scene at an impossible speed");
        }
        s.signature();
        ctx.nontrivial = ctx.nontrivial || !s.alive(KContact).empty();
        ctx.count("reach.contacts", i64(s.alive(KContact).size()));
    }
    s.scripts.clear();
    s.destroyWorld();
}

Register c22{Prop{
    "C22",
    [](Rng& r, int tier) {
        Plan p;
        heapCfg(r, p, r.chance(0.5));
        double step = r.pick(std::vector<double>{1, 1, 0.5, 2, 10});
        double extreme = r.pick(std::vector<double>{2, 4});
        std::vector<std::vector<double>> bodies;
        if (r.chance(0.5))
            p.add("mkFF", {0, 0, r.pick(std::vector<double>{-9.81, -1, -30})});
        if (r.chance(0.3))
            p.add("settings", {double(r.pick(std::vector<int>{0, 1, 4, 8, 20})), double(r.pick(std::vector<int>{0, 1, 2, 8})), double(r.below(2))});
        int n = r.range(2, tier ? 14 : 9);
        for (int i = 0; i < n; ++i)
        {
            if (r.chance(0.2))
            {
                p.add("mkTip", {grid(r, step / 2, 6), grid(r, step / 2, 6), r.chance(0.6) ? 0 : r.uni(-3, 3), r.chance(0.15) ? 0.0 : 1.0,
                                step * r.pick(std::vector<double>{0.5, 1, 2}), step * r.pick(std::vector<double>{0.5, 1, 2}), step * std::pow(10.0, -r.uni(0.5, 6)),
                                r.uni(0.3, 3), r.chance(0.5) ? 0 : r.uni(0, 1), r.uni(0, 1), 0, r.chance(0.5) ? 0 : -r.uni(0, 5), 0});
                continue;
            }
            auto a = degenerateBody(r, bodies, step, extreme);
            bodies.push_back(a);
            p.add("mkBody", a);
        }
        int    m      = r.range(4, tier ? 30 : 14);
        double wJoint = r.chance(0.5) ? 0 : r.uni(0.3, 3);
        for (int i = 0; i < m; ++i)
        {
            switch (r.weighted({8, 1, 1, 0.7, 0.5, 0.5, 0.5, 0.3, wJoint}))
            {
                case 8:
                {
                    auto a = conArgs(r);
                    a[7] = 1, a[8] = 0;
                    p.ops.push_back({"mkCon", a});
                    break;
                }
                case 0:
                    p.add("run", {r.chance(0.7) ? 1.0 / 60 : r.pick(std::vector<double>{1e-4, 1e-6, 0.005, 0.04, 0.1, 0.25, 0}), double(r.range(1, 12))});
                    break;
                case 1:
                {
                    auto a = degenerateBody(r, bodies, step, extreme);
                    bodies.push_back(a);
                    p.add("mkBody", a);
                    break;
                }
                case 2:
                {
                    Op op{"vel", {double(r.below(64))}};
                    for (double v : velocity(r, 0.2))
                        op.a.push_back(v * r.pick(std::vector<double>{1, 1, 5, 1e-6}));
                    p.ops.push_back(op);
                    break;
                }
                case 3: p.add("imp", {double(r.below(64)), r.uni(-4, 4), r.uni(-4, 4), grid(r, 0.5, 2), grid(r, 0.5, 2)}); break;
                case 4: p.add("kill", {double(r.weighted({3, 2, 1, 1.5})), double(r.below(64))}); break;
                case 5:
                {
                    auto a = addColArgs(r);
                    if (r.chance(0.6))
                        a[1] = 0, a[2] = step, a[3] = 1, a[8] = grid(r, step / 2, 2), a[9] = grid(r, step / 2, 2);
                    p.ops.push_back({"addCol", a});
                    break;
                }
                case 6: p.add("rmCol", {double(r.below(64)), double(r.below(8))}); break;
                default: p.add("settings", {double(r.range(0, 20)), double(r.range(0, 8)), double(r.below(2))}); break;
            }
        }
        p.add("run", {1.0 / 60, double(r.range(5, tier ? 200 : 40))});
        return p;
    },
    execC22}};

} // namespace
} // namespace sim
