// C11 motors, C12 determinism, C13 pauses, C14 mass properties and collider edits
#include "phys.hpp"

#include <algorithm>

namespace sim
{
namespace
{

Op marker() { return {"mkFF", {4, 0, 0, 0, 0, 0, 0}}; }

const std::vector<int> bodyHooks{HBodyPre, HConPre, HBodyPost, HConPost, HFFPre, HFFPost, HBodyConstruct, HConConstruct};

// ------------------------------------------------------------------------------- C11
struct MotorRun
{
    double v0[3] = {}, vb[3] = {}, sum[3] = {}, v1[3] = {}, scale = 0;
    bool   seen = false;
    int    calls = 0;
};

void execC11(const Plan& plan, Ctx& ctx)
{
    WSim s{plan, ctx};
    s.tolerateDivergence = true;
    s.oracleLifecycle    = false;
    s.makeWorld();
    Watch                   w{s};
    std::map<int, MotorRun> runs;
    int                     nVel = 8;

    auto isMotor = [&](const Obj& x) { return x.kind == KCon && (x.sub == CRotMotor || x.sub == CTransMotor); };

    s.onProxies = [&](int h, int id, bool after, const simu::Proxies& p) {
        const Obj& x = s.o(id);
        if (!isMotor(x))
            return;
        MotorRun& m   = runs[id];
        auto      vel = p.velocity();
        double    v[3] = {vel[0], vel[1], vel[2]};
        if (!after)
        {
            if (h == HInit)
            {
                m      = MotorRun{};
                m.seen = true;
                std::copy(v, v + 3, m.v0);
            }
            std::copy(v, v + 3, m.vb);
            return;
        }
        ++m.calls;
        bool   rot = x.sub == CRotMotor;
        double d[3] = {};
        if (rot)
            d[2] = x.par[3];
        else
            d[0] = x.par[3], d[1] = x.par[4];
        double along = 0, before = 0, perp = 0, big = 0;
        for (int i = 0; i < 3; ++i)
        {
            m.sum[i] += v[i] - m.vb[i];
            m.v1[i] = v[i];
            along += d[i] * v[i];
            before += d[i] * m.vb[i];
            big = std::max({big, std::abs(v[i]), std::abs(m.vb[i])});
        }
        m.scale = std::max(m.scale, big);
        for (int i = 0; i < 3; ++i)
            perp += std::abs(v[i] - m.vb[i] - d[i] * (along - before));
        double eps = 3e-6 * (big + x.par[0]) + 1e-7;
        if (perp > eps * 2)
            ctx.violate("motor:direction", fmt("motor %d with direction (%g %g %g) changed its body's velocity by (%g %g %g)", id, d[0], d[1], d[2], v[0] - m.vb[0], v[1] - m.vb[1], v[2] - m.vb[2]));
        if (h == HVel && along > before + eps && along > x.par[0] + 1e-4 * (x.par[0] + big))
            ctx.violate("motor:overspeed", fmt("motor %d of maximal speed %g accelerated its body from %g to %g", id, x.par[0], before, along));
    };
    w.before = [&] { runs.clear(); };
    w.after  = [&] {
        if (s.stepDt <= 0)
            return;
        for (auto& [id, m] : runs)
        {
            Obj& x = s.o(id);
            if (!m.seen || !x.exists)
                continue;
            auto it = w.pre.find(x.b[0]);
            if (it == w.pre.end() || w.post.count(x.b[0]) == 0 || it->second.nCols == 0)
                continue;
            const BodyState& a  = it->second;
            const BodyState& b  = w.post[x.b[0]];
            bool             rot = x.sub == CRotMotor;
            double           mass = rot ? a.I : a.m;
            double           d[3] = {rot ? 0 : x.par[3], rot ? 0 : x.par[4], rot ? x.par[3] : 0};
            double           J = 0, v0 = 0, v1 = 0;
            for (int i = 0; i < 3; ++i)
            {
                J += mass * m.sum[i] * d[i];
                v0 += m.v0[i] * d[i];
                v1 += (i == 0 ? b.vx : i == 1 ? b.vy : b.w) * d[i];
            }
            double limit = x.par[2] * x.par[1] * s.stepDt;
            double eps   = mass * (2e-6 * m.scale * m.calls + 1e-6);
            if (J > limit * 1.002 + eps)
                ctx.violate("motor:force", fmt("motor %d changed the momentum of body %d by %g in one step, its throttle and force allow %g in %g s", id, x.b[0], J, limit, s.stepDt));
            if (J < -eps)
                ctx.violate("motor:brake", fmt("motor %d pushed body %d against its direction by %g", id, x.b[0], J));
            ctx.count("checks.motor");
            if (J > eps)
                ctx.nontrivial = true;

            if (a.nContacts == 0 && a.nCons == 1 && nVel > 0 && b.nContacts == 0)
            {
                bool   none = d[0] == 0 && d[1] == 0 && d[2] == 0;
                double want = v0;
                if (!none && v0 < x.par[0])
                    want = std::min(x.par[0], v0 + limit / mass);
                double tol = 2e-4 * (std::abs(want) + std::abs(v0)) + 3e-6 * m.scale * 10 + 1e-5;
                // the engine may have had contacts that appeared in this step only afterwards: none act now
                if (!(std::abs(v1 - want) <= tol))
                    ctx.violate("motor:speed", fmt("motor %d (maximal speed %g, may change the speed by %g in this step) took its unopposed body %d from %g to %g, not %g", id, x.par[0], limit / mass, x.b[0], v0, v1, want));
                ctx.count("checks.unopposed");
                if (want >= x.par[0] * 0.999 && v0 < x.par[0] * 0.99)
                    ctx.count("reach.full-speed");
            }
        }
    };
    for (std::size_t i = 0; i < plan.ops.size(); ++i)
    {
        const Op& op = plan.ops[i];
        ctx.opIndex  = int(i);
        if (op.kind == "settings")
            nVel = int(op.arg(0));
        if (op.kind == "throttle" || op.kind == "dir")
        {
            std::vector<int> v;
            for (int id : s.living(KCon))
                if (isMotor(s.o(id)))
                    v.push_back(id);
            int id = s.pickOf(v, op.pick(0));
            if (id < 0)
                continue;
            Obj&        x = s.o(id);
            EngineScope e;
            if (op.kind == "throttle")
            {
                x.setThrottle(float(op.arg(1)));
                x.par[2] = std::min(1.0, std::max(0.0, double(float(op.arg(1)))));
            }
            else
            {
                double ang = op.arg(1), len = op.arg(2, 1);
                double dx = len * std::cos(ang), dy = len * std::sin(ang);
                if (len == 0)
                    dx = dy = 0;
                x.setDirection(Vec2{float(dx), float(dy)});
                if (x.sub == CRotMotor)
                    x.par[3] = float(dx) > 0 ? 1 : float(dx) < 0 ? -1 : 0;
                else
                {
                    x.par[3] = len == 0 ? 0 : std::cos(ang);
                    x.par[4] = len == 0 ? 0 : std::sin(ang);
                }
            }
            ctx.ev("motor", id);
            continue;
        }
        if (!w.one(op))
            break;
    }
    s.scripts.clear();
    s.destroyWorld();
}

Register c11{Prop{
    "C11",
    [](Rng& r, int tier) {
        Plan p;
        heapCfg(r, p, true);
        HistoryCfg c;
        bool       free = r.chance(0.6);
        c.area          = free ? 60 : 3;
        c.pStructural   = free ? 0 : 0.3;
        p.ops.push_back(marker());
        if (r.chance(0.3))
            p.add("mkFF", {0, r.chance(0.7) ? 0 : r.uni(-3, 3), r.uni(-9.81, 0)});
        if (r.chance(0.5))
            p.add("settings", {double(r.range(1, 12)), double(r.range(0, 3)), double(r.below(2))});
        int  nb    = r.range(1, free ? 3 : 7);
        auto motor = [&] {
            bool rot = r.chance(0.4);
            p.add("mkCon", {rot ? 4.0 : 5.0, double(r.below(64)), 0, r.uni(0.3, 8), r.chance(0.1) ? 0 : r.uni(0.2, 40), r.uni(0, 1), r.uni(-3.2, 3.2), 0, 0, r.chance(0.5) ? 0 : double(r.below(4))});
        };
        for (int i = 0; i < nb; ++i)
        {
            auto a = bodyArgs(r, c);
            if (a[5] == 0)
                a[5] = 1;
            p.add("mkBody", a);
            if (r.chance(0.8))
                motor();
        }
        int n = r.range(15, tier ? 150 : 70);
        for (int i = 0; i < n; ++i)
        {
            switch (r.weighted({10, 2, 2, 0.8, 0.6, 0.5, 0.6, 0.3, 0.3, free ? 0.0 : 0.6}))
            {
                case 0:
                {
                    double dt = r.chance(0.4) ? 1.0 / 60 : r.chance(0.3) ? r.uni(0.0001, 0.005) : r.chance(0.3) ? r.uni(0.1, 0.5) : r.uni(0.005, 0.1);
                    if (r.chance(0.05))
                        dt = 0;
                    int k = r.chance(0.2) ? r.range(2, 8) : 1;
                    for (int j = 0; j < k; ++j)
                        p.add("step", {dt});
                    break;
                }
                case 1: p.add("throttle", {double(r.below(64)), r.chance(0.2) ? r.uni(-0.5, 1.5) : r.chance(0.3) ? 1.0 : r.unit()}); break;
                case 2: p.add("dir", {double(r.below(64)), r.chance(0.3) ? double(r.range(-2, 2)) * 1.5707963267948966 : r.uni(-3.2, 3.2), r.chance(0.1) ? 0.0 : r.chance(0.3) ? r.uni(0.1, 5) : 1.0}); break;
                case 3: p.add("vel", {double(r.below(64)), r.uni(-9, 9), r.uni(-9, 9), r.uni(-9, 9)}); break;
                case 4: p.add("imp", {double(r.below(64)), r.uni(-4, 4), r.uni(-4, 4), r.uni(-1, 1), r.uni(-1, 1)}); break;
                case 5: motor(); break;
                case 6: p.add("addCol", addColArgs(r)); break;
                case 7: p.add("rmCol", {double(r.below(64)), double(r.below(8))}); break;
                case 8: p.add("kill", {1, double(r.below(64))}); break;
                default: p.add("mkCon", conArgs(r)); break;
            }
        }
        return p;
    },
    execC11}};

// ------------------------------------------------------------------------- traces
typedef std::vector<std::uint32_t> Trace;

std::uint32_t bits(float f)
{
    std::uint32_t u;
    std::memcpy(&u, &f, sizeof u);
    return u;
}

Trace trace(const WSim& s)
{
    Trace                                t{0}; // starts with the size of the bodies' part
    std::map<const simu::Collider*, int> index;
    for (const Obj& x : s.objs)
    {
        if (x.kind != KBody || !x.exists || x.body == nullptr || s.dead(x.id))
            continue;
        t.push_back(std::uint32_t(x.id));
        for (float f : observe(s, x.id).raw)
            t.push_back(bits(f));
        int i = 0;
        for (const simu::Collider& c : x.body->colliders())
            index[&c] = x.id * 64 + i++;
    }
    t[0] = std::uint32_t(t.size());
    std::map<std::pair<int, int>, Trace> cts;
    for (const Obj& x : s.objs)
    {
        if (x.kind != KContact || !x.exists || s.dead(x.id) || x.contact == nullptr)
            continue;
        auto cs = x.contact->colliders();
        auto i0 = index.find(cs[0]), i1 = index.find(cs[1]);
        if (i0 == index.end() || i1 == index.end())
            continue;
        auto  info = x.contact->contactInfo();
        Trace k{info.nContacts};
        for (simu::Uint32 c = 0; c < info.nContacts && c < 2; ++c)
            for (int e = 0; e < 2; ++e)
            {
                k.push_back(bits(info.refContacts[c][simu::Uint32(e)]));
                k.push_back(bits(info.incContacts[c][simu::Uint32(e)]));
            }
        if (info.nContacts > 0)
        {
            k.push_back(bits(info.normal[0]));
            k.push_back(bits(info.normal[1]));
        }
        cts[{i0->second, i1->second}] = k;
    }
    for (auto& [k, v] : cts)
    {
        t.push_back(std::uint32_t(k.first));
        t.push_back(std::uint32_t(k.second));
        t.insert(t.end(), v.begin(), v.end());
    }
    return t;
}

bool closeTraces(const Trace& a, const Trace& b)
{
    if (a[0] != b[0])
        return false;
    for (std::size_t i = 1; i < a[0]; ++i)
    {
        float x, y;
        std::memcpy(&x, &a[i], 4);
        std::memcpy(&y, &b[i], 4);
        if (a[i] != b[i] && !(std::abs(x - y) <= 3e-3f * (1 + std::abs(x) + std::abs(y))))
            return false;
    }
    return true;
}

std::string describe(const Trace& a, const Trace& b)
{
    std::string r;
    int         n = 0;
    for (std::size_t i = 0; i < std::min(a.size(), b.size()); ++i)
        if (a[i] != b[i])
        {
            float x, y;
            std::memcpy(&x, &a[i], 4);
            std::memcpy(&y, &b[i], 4);
            if (n++ < 12)
                r += fmt("%svalue %zu: %.9g and %.9g", n > 1 ? ", " : "", i, x, y);
        }
    if (n > 0)
        return r + fmt(" (%d values)", n);
    return fmt("%zu and %zu values", a.size(), b.size());
}

// ------------------------------------------------------------------------------- C12
void execC12(const Plan& plan, Ctx& ctx)
{
    auto one = [&](int which, std::vector<Trace>& out) {
        Rng noise{u64(plan.get("noise")) * 2 + u64(which)};
        if (which == 1)
            heapReseed(u64(plan.get("heapSeed2")), int(plan.get("heapFill2")));
        std::vector<std::unique_ptr<WSim>> others;
        auto                               other = [&] {
            auto o             = std::make_unique<WSim>(plan, ctx);
            o->oracleLifecycle = false;
            o->tolerateDivergence = true;
            o->makeWorld();
            HistoryCfg c;
            int        n = noise.range(1, 4);
            o->exec({"mkFF", {0, 0, -9.81}});
            for (int i = 0; i < n; ++i)
                o->exec({"mkBody", bodyArgs(noise, c)});
            others.push_back(std::move(o));
        };
        if (which == 1 && plan.get("others") > 0)
            other();

        WSim s{plan, ctx};
        s.tolerateDivergence = true;
        s.oracleLifecycle    = false;
        s.tracked            = plan.get("untracked") == 0;
        s.makeWorld();
        u64 savedHash = ctx.hash;
        for (std::size_t i = 0; i < plan.ops.size(); ++i)
        {
            const Op& op = plan.ops[i];
            ctx.opIndex  = int(i);
            if (which == 1)
            {
                if (noise.chance(0.1))
                {
                    g_clockNs += i64(noise.below(5000000000ull)) - 1000000000;
                    ctx.count("fault.clockJump");
                }
                if (plan.get("others") > 0 && noise.chance(0.08))
                {
                    ctx.count("fault.other-world");
                    if (!others.empty() && noise.chance(0.4))
                    {
                        others.back()->destroyWorld();
                        others.pop_back();
                    }
                    else
                        other();
                }
                for (auto& o : others)
                    if (!o->ended && noise.chance(0.2))
                        o->exec({"step", {noise.uni(0.001, 0.05)}});
            }
            s.exec(op);
            if (op.kind == "step")
            {
                out.push_back(trace(s));
                if (which == 0)
                    s.signature();
            }
            if (s.ended)
                break;
            if (which == 0)
                for (const Obj& x : s.objs)
                    if (x.kind == KContact && x.exists)
                        ctx.nontrivial = true;
        }
        (void)savedHash;
        s.scripts.clear();
        s.destroyWorld();
        for (auto& o : others)
            if (o->world)
                o->destroyWorld();
    };
    std::vector<Trace> a, b;
    one(0, a);
    one(1, b);
    for (std::size_t i = 0; i < std::min(a.size(), b.size()); ++i)
        if (a[i] != b[i])
            ctx.violate("determinism:diverged", fmt("the same history gave another state after step %zu (%s)", i + 1, describe(a[i], b[i]).c_str()));
    if (a.size() != b.size())
        ctx.violate("determinism:diverged", fmt("the same history ended after %zu and %zu steps", a.size(), b.size()));
    ctx.count("checks.steps", i64(a.size()));
}

Register c12{Prop{
    "C12",
    [](Rng& r, int tier) {
        HistoryCfg c;
        c.maxOps = tier ? 200 : 80;
        c.wOn    = r.chance(0.5) ? 1 : 0;
        c.wSettings = 0.4;
        c.wCond  = 0.5;
        Plan p   = history(r, c, bodyHooks, true);
        // contacts are only reachable in an order that the engine does not specify
        for (Op& o : p.ops)
        {
            if ((o.kind == "kill" || o.kind == "cond" || o.kind == "rekill") && int(o.a[0]) % 4 == 3)
                o.a[0] = double(r.below(2));
            if (o.kind == "on" && (int(o.a[2]) <= 1 || int(o.a[2]) == 10) && int(o.a[3]) % 4 == 3)
                o.a[3] = double(r.below(2));
        }
        if (r.chance(0.5))
        {
            // everything falls on a ground
            p.ops.insert(p.ops.begin(), Op{"mkBody", {0, -4, 0, 0, 0, 14, 0.1, 0, 1, 0.2, 0.5, 0, 0, 0, 0, 0}});
            p.ops.insert(p.ops.begin(), Op{"mkFF", {0, 0, -9.81}});
            int n = r.range(5, 40);
            for (int i = 0; i < n; ++i)
                p.add("step", {1.0 / 60});
        }
        p.cfg["heapSeed2"] = double(1 + r.below(1000000));
        p.cfg["heapFill2"] = double(r.below(4));
        p.cfg["noise"]     = double(r.below(1000000));
        p.cfg["others"]    = r.chance(0.5) ? 1 : 0;
        return p;
    },
    execC12}};

// ------------------------------------------------------------------------------- C13
// A pause right before a step, or right after one when no collider is edited until the next step. (Elsewhere a
// pause moves removals or contact updates before edits that they would otherwise follow.)
bool admissiblePause(const Plan& p, std::size_t at)
{
    auto isPause = [&](std::size_t i) { return p.ops[i].kind == "step" && !(p.ops[i].arg(0) > 0); };
    auto isStep  = [&](std::size_t i) { return p.ops[i].kind == "step" && p.ops[i].arg(0) > 0; };
    std::size_t i = at;
    while (i < p.ops.size() && isPause(i))
        ++i;
    if (i < p.ops.size() && isStep(i))
        return true;
    std::size_t j = at;
    while (j > 0 && isPause(j - 1))
        --j;
    if (j == 0 || !isStep(j - 1))
        return false;
    for (; i < p.ops.size() && !isStep(i); ++i)
        if (p.ops[i].kind == "addCol" || p.ops[i].kind == "rmCol")
            return false;
    return true;
}

void execC13(const Plan& plan, Ctx& ctx)
{
    bool compare = plan.get("compare") > 0;
    auto one = [&](bool pauses, std::vector<Trace>& out) {
        WSim s{plan, ctx};
        s.tolerateDivergence = true;
        s.logCons            = true;
        s.logApply           = true;
        s.makeWorld();
        Watch w{s};
        w.before = [&] {
            s.conLog.clear();
            s.applications.clear();
        };
        w.after = [&] {
            if (s.stepDt > 0)
                return;
            if (!s.applications.empty())
                ctx.violate("pause:force", "a force field was applied by a step of no duration");
            if (!s.conLog.empty())
                ctx.violate("pause:solve", "a constraint was solved by a step of no duration");
            for (auto& [id, a] : w.pre)
            {
                auto it = w.post.find(id);
                if (it == w.post.end())
                    ctx.violate("pause:lost", fmt("body %d disappeared during a step of no duration", id));
                if (!a.samePose(it->second) || !a.sameVel(it->second))
                    ctx.violate("pause:moved", fmt("a step of %g s moved body %d from (%.9g %.9g %.9g) to (%.9g %.9g %.9g), velocity from (%.9g %.9g %.9g) to (%.9g %.9g %.9g)", s.stepDt, id, a.px, a.py, a.th, it->second.px, it->second.py, it->second.th, a.vx, a.vy, a.w, it->second.vx, it->second.vy, it->second.w));
            }
            ctx.count("checks.pause");
        };
        for (std::size_t i = 0; i < plan.ops.size(); ++i)
        {
            const Op& op = plan.ops[i];
            ctx.opIndex  = int(i);
            bool pause   = op.kind == "step" && !(op.arg(0) > 0);
            if (pause && (!pauses || (compare && !admissiblePause(plan, i))))
                continue;
            // contacts: the bodies they join survive a pause
            std::map<int, std::pair<int, int>> cts;
            if (pause)
                for (const Obj& x : s.objs)
                    if (x.kind == KContact && x.exists && !s.dead(x.id))
                        cts[x.id] = {x.b[0], x.b[1]};
            Snap start = pause && s.scripts.empty() ? snapshot(s) : Snap{};
            bool go    = w.one(op);
            if (pause)
            {
                for (auto& [id, b] : cts)
                    if (!s.o(id).exists && s.o(b.first).exists && s.o(b.second).exists && s.scripts.empty())
                        ctx.violate("pause:contact", fmt("contact %d between surviving bodies was removed by a step of no duration", id));
                for (auto& [id, a] : start)
                {
                    if (!s.o(id).exists)
                        continue;
                    BodyState b = observe(s, id);
                    if (!a.samePose(b) || !a.sameVel(b))
                        ctx.violate("pause:moved", fmt("a step of no duration changed the state of body %d", id));
                }
                ctx.nontrivial = ctx.nontrivial || !cts.empty();
            }
            if (op.kind == "step" && !pause)
                out.push_back(trace(s));
            if (!go)
                break;
        }
        s.scripts.clear();
        s.onHook = nullptr;
        s.destroyWorld();
    };
    std::vector<Trace> a, b;
    one(true, a);
    if (!compare)
        return;
    one(false, b);
    for (std::size_t i = 0; i < std::min(a.size(), b.size()); ++i)
        if (a[i] != b[i])
        {
            // A contact that is found anew by a pause may be found anew again by the step, starting from
            // another search direction: that may list its points in another order and change the last bits of the motion, and nothing else.
            if (closeTraces(a[i], b[i]))
            {
                ctx.count("ended.rounding");
                return;
            }
            ctx.violate("pause:diverged", fmt("with pauses in between, the state after step %zu differs from the one without pauses (%s)", i + 1, describe(a[i], b[i]).c_str()));
        }
    if (a.size() != b.size())
        ctx.violate("pause:diverged", fmt("the history ended after %zu steps with and %zu without pauses", a.size(), b.size()));
    ctx.count("checks.steps", i64(a.size()));
}

Register c13{Prop{
    "C13",
    [](Rng& r, int tier) {
        HistoryCfg c;
        c.maxOps      = tier ? 160 : 60;
        bool compare  = r.chance(0.7);
        c.wOn         = compare ? 0 : 3;
        c.pZero       = 0;
        c.wCond       = 0.5;
        c.wRekill     = 0;
        c.wSettings   = 0.4;
        Plan base     = history(r, c, compare ? bodyHooks : std::vector<int>{HBodyPre, HConPre, HCtPre, HBodyPost, HConPost, HCtPost}, true);
        Plan p;
        p.cfg            = base.cfg;
        p.cfg["compare"] = compare ? 1 : 0;
        p.ops.push_back(marker());
        double pp = r.chance(0.3) ? 0.7 : 0.25;
        for (Op& o : base.ops)
        {
            if (compare && (o.kind == "kill" || o.kind == "cond") && (int(o.a[0]) % 4 == 3 || int(o.a[0]) % 4 == 2))
                o.a[0] = double(r.below(2));
            if (compare && o.kind == "mkCon")
                o.a[8] = 0; // what a pause removes cannot be joined afterwards
            p.ops.push_back(o);
            if (r.chance(pp))
            {
                int n = r.chance(0.3) ? r.range(2, 5) : 1;
                for (int i = 0; i < n; ++i)
                    p.add("step", {r.chance(0.6) ? 0.0 : r.chance(0.2) ? -1e30 : -r.uni(1e-6, 1)});
            }
        }
        return p;
    },
    execC13}};

// ------------------------------------------------------------------------------- C14
struct LocalCol
{
    std::vector<std::array<double, 2>> v;
    double                             density = 0;
};

struct MassModel
{
    double m = 0, I = 0, x = 0, y = 0, Iorigin = 0, extent = 0;
};

MassModel massOf(const std::vector<LocalCol>& cols)
{
    MassModel r;
    for (const LocalCol& c : cols)
    {
        double      A = 0, X = 0, Y = 0, J = 0;
        std::size_t n = c.v.size();
        // relative to the first vertex, for precision
        double ox = c.v[0][0], oy = c.v[0][1];
        for (std::size_t i = 0; i < n; ++i)
        {
            double ax = c.v[i][0] - ox, ay = c.v[i][1] - oy, bx = c.v[(i + 1) % n][0] - ox, by = c.v[(i + 1) % n][1] - oy;
            double k = ax * by - bx * ay;
            A += k / 2;
            X += (ax + bx) * k / 6;
            Y += (ay + by) * k / 6;
            J += k * (ax * ax + ax * bx + bx * bx + ay * ay + ay * by + by * by) / 12;
            r.extent = std::max(r.extent, std::hypot(c.v[i][0], c.v[i][1]));
        }
        if (A < 0)
            A = -A, X = -X, Y = -Y, J = -J;
        double cx = X / A, cy = Y / A;
        double Jc = J - A * (cx * cx + cy * cy);
        cx += ox;
        cy += oy;
        double m = A * c.density;
        r.m += m;
        r.x += m * cx;
        r.y += m * cy;
        r.Iorigin += c.density * Jc + m * (cx * cx + cy * cy);
    }
    if (r.m > 0)
    {
        r.x /= r.m;
        r.y /= r.m;
    }
    r.I = r.Iorigin - r.m * (r.x * r.x + r.y * r.y);
    return r;
}

void execC14(const Plan& plan, Ctx& ctx)
{
    WSim s{plan, ctx};
    s.tolerateDivergence = true;
    s.oracleLifecycle    = false;
    s.makeWorld();

    typedef std::vector<std::pair<const simu::Collider*, LocalCol>> Cols;
    std::map<int, Cols>                                             model;
    struct Before
    {
        BodyState                                                                st;
        std::vector<std::pair<const simu::Collider*, std::vector<Vec2>>> geo;
    };
    Before bef;
    bool   dbg = false;
    (void)dbg;

    auto geometry = [&](int id) {
        std::vector<std::pair<const simu::Collider*, std::vector<Vec2>>> g;
        for (const simu::Collider& c : s.o(id).body->colliders())
            g.push_back({&c, std::vector<Vec2>(c.begin(), c.end())});
        return g;
    };

    auto check = [&](int id) {
        simu::Body* b    = s.o(id).body;
        Cols&       cols = model[id];
        auto        g    = geometry(id);
        if (g.size() != cols.size())
            ctx.violate("mass:colliders", fmt("body %d lists %zu colliders, %zu were added and not removed", id, g.size(), cols.size()));
        std::vector<LocalCol> lc;
        for (auto& c : cols)
            lc.push_back(c.second);
        MassModel m = massOf(lc);
        if (cols.empty())
        {
            if (b->mass() != 0 || b->inertia() != 0)
                ctx.violate("mass:empty", fmt("body %d has no collider but mass %g and inertia %g", id, b->mass(), b->inertia()));
            return;
        }
        double me = std::abs(b->mass() - m.m) / m.m;
        double Ie = std::abs(b->inertia() - m.I);
        double ce = std::hypot(b->localCentroid()[0] - m.x, b->localCentroid()[1] - m.y);
        double sc = double(cols.size());
        // what single precision may lose on slivers far from the origin
        double e2 = 0;
        for (const LocalCol& c : lc)
            e2 += 2e-6 * c.density * m.extent * m.extent;
        if (!(me <= 1e-5 * sc + e2 / m.m))
            ctx.violate("mass:mass", fmt("body %d has mass %.9g, its %zu colliders weigh %.9g", id, b->mass(), cols.size(), m.m));
        if (!(Ie <= 2e-5 * sc * (m.Iorigin + m.m * m.extent * m.extent) + e2 * m.extent * m.extent))
            ctx.violate("mass:inertia", fmt("body %d has inertia %.9g, its %zu colliders have %.9g", id, b->inertia(), cols.size(), m.I));
        if (!(ce <= (1e-5 * sc + e2 / m.m) * (m.extent + 0.1)))
            ctx.violate("mass:centroid", fmt("body %d has its centroid at (%.9g %.9g), that of its colliders is (%.9g %.9g)", id, b->localCentroid()[0], b->localCentroid()[1], m.x, m.y));

        // the geometry shown is the colliders' own, turned around the centroid
        double th = b->orientation(), px = b->position()[0], py = b->position()[1];
        double cx = b->localCentroid()[0], cy = b->localCentroid()[1];
        if (std::abs(px) + std::abs(py) > 1000)
            return;
        for (auto& [c, lcol] : cols)
        {
            auto it = std::find_if(g.begin(), g.end(), [&, c = c](auto& q) { return q.first == c; });
            if (it == g.end())
                ctx.violate("mass:colliders", fmt("body %d does not list a collider that it was given", id));
            if (it->second.size() != lcol.v.size())
                ctx.violate("mass:geometry", fmt("a collider of body %d has %zu vertices instead of %zu", id, it->second.size(), lcol.v.size()));
            double tol = 4e-6 * (std::abs(px) + std::abs(py) + (m.extent + 1) * (2 + 0.1 * std::abs(th)));
            BoundingBox bb = c->boundingBox();
            double lx = 1e30, ly = 1e30, hx = -1e30, hy = -1e30;
            for (std::size_t i = 0; i < lcol.v.size(); ++i)
            {
                double ux = lcol.v[i][0] - cx, uy = lcol.v[i][1] - cy;
                double wx = px + cx + std::cos(th) * ux - std::sin(th) * uy, wy = py + cy + std::sin(th) * ux + std::cos(th) * uy;
                Vec2   v = it->second[i];
                if (!(std::hypot(v[0] - wx, v[1] - wy) <= tol))
                    ctx.violate("mass:geometry", fmt("vertex %zu of a collider of body %d is at (%.9g %.9g) instead of (%.9g %.9g)", i, id, v[0], v[1], wx, wy));
                lx = std::min(lx, double(v[0]));
                ly = std::min(ly, double(v[1]));
                hx = std::max(hx, double(v[0]));
                hy = std::max(hy, double(v[1]));
            }
            if (bb.min()[0] != float(lx) || bb.min()[1] != float(ly) || bb.max()[0] != float(hx) || bb.max()[1] != float(hy))
                ctx.violate("mass:bounds", fmt("the bounding box of a collider of body %d is not that of its vertices", id));
        }
        ctx.count("checks.mass");
    };

    s.onEdit = [&](int id, bool after, bool add, simu::Collider* c, const simu::ColliderDescriptor* d) {
        if (!after)
        {
            bef.st  = observe(s, id);
            bef.geo = geometry(id);
            if (!add)
            {
                std::erase_if(bef.geo, [&](auto& g) { return g.first == c; });
                std::erase_if(model[id], [&](auto& g) { return g.first == c; });
            }
            return;
        }
        bool first = add && model[id].empty();
        if (add)
        {
            LocalCol l;
            l.density = d->material.density;
            for (simu::Vertex v : d->polygon)
                l.v.push_back({v[0], v[1]});
            model[id].push_back({c, l});
        }
        check(id);
        if (first)
            return;
        BodyState st = observe(s, id);
        if (st.raw[2] != bef.st.raw[2])
            ctx.violate("edit:orientation", fmt("editing the colliders of body %d turned it from %.9g to %.9g", id, bef.st.th, st.th));
        if (st.raw[5] != bef.st.raw[5])
            ctx.violate("edit:spin", fmt("editing the colliders of body %d changed its spin from %.9g to %.9g", id, bef.st.w, st.w));
        auto g = geometry(id);
        for (auto& [col, vs] : bef.geo)
        {
            auto it = std::find_if(g.begin(), g.end(), [&, col = col](auto& q) { return q.first == col; });
            if (it == g.end())
                continue; // judged by check
            for (std::size_t i = 0; i < vs.size(); ++i)
            {
                double far = std::abs(st.px) + std::abs(st.py) + st.reach + bef.st.reach + 1;
                Vec2   a = vs[i], b = it->second[i];
                if (!(std::hypot(a[0] - b[0], a[1] - b[1]) <= 6e-6 * far))
                    ctx.violate("edit:moved", fmt("editing the colliders of body %d moved a remaining vertex from (%.9g %.9g) to (%.9g %.9g)", id, a[0], a[1], b[0], b[1]));
                double vx0 = bef.st.vx - bef.st.w * (a[1] - bef.st.cy), vy0 = bef.st.vy + bef.st.w * (a[0] - bef.st.cx);
                double vx1 = st.vx - st.w * (b[1] - st.cy), vy1 = st.vy + st.w * (b[0] - st.cx);
                if (!(std::hypot(vx1 - vx0, vy1 - vy0) <= 1e-5 * (bef.st.speed() + st.speed() + std::abs(st.w) * far) + 1e-6))
                    ctx.violate("edit:velocity", fmt("editing the colliders of body %d changed the velocity of a remaining point from (%.9g %.9g) to (%.9g %.9g)", id, vx0, vy0, vx1, vy1));
            }
        }
        ctx.count(add ? "checks.added" : "checks.removed");
        ctx.nontrivial = true;
    };

    for (std::size_t i = 0; i < plan.ops.size(); ++i)
    {
        ctx.opIndex = int(i);
        s.exec(plan.ops[i]);
        if (s.ended)
            break;
        if (plan.ops[i].kind == "step")
            s.signature();
        for (const Obj& x : s.objs)
            if (x.kind == KBody && x.exists && x.body != nullptr && x.listed)
                check(x.id);
    }
    s.scripts.clear();
    s.onEdit = nullptr;
    s.destroyWorld();
}

Register c14{Prop{
    "C14",
    [](Rng& r, int tier) {
        HistoryCfg c;
        c.maxOps      = tier ? 120 : 50;
        c.wAdd        = 6;
        c.wRm         = 6;
        c.wVel        = 3;
        c.wKill       = 0.8;
        c.wCond       = 0.3;
        c.wClear      = 0;
        Plan p = history(r, c, {HBodyPre, HConPre, HCtPre, HBodyPost, HConPost, HCtPost, HFFPre, HBodyConstruct, HBodyDestruct, HConDestruct}, true);
        for (Op& o : p.ops)
            if (o.kind == "on" && r.chance(0.6) && int(o.a[2]) != 3 && int(o.a[2]) != 4)
            {
                double h = o.a[0], n = o.a[1];
                if (r.chance(0.5))
                {
                    o.a = addColArgs(r);
                    o.a.insert(o.a.begin(), {h, n, 3});
                }
                else
                    o.a = {h, n, 4, double(r.below(64)), double(r.below(8))};
            }
        return p;
    },
    execC14}};

} // namespace
} // namespace sim
