// C05 force fields, C06 momentum, C07 structural bodies, C11 motors, C15 solving schedule
#include "phys.hpp"

#include <algorithm>

namespace sim
{
namespace
{

const std::vector<int> preHooks{HBodyPre, HConPre, HCtPre};
const std::vector<int> prePostHooks{HBodyPre, HConPre, HCtPre, HBodyPost, HConPost, HCtPost, HFFPost};

// a field that acts on nothing real (it marks the moment when all preStep notifications were given)
Op marker() { return {"mkFF", {4, 0, 0, 0, 0, 0, 0}}; }

bool markerAlive(WSim& s) { return !s.living(KFF).empty(); }

// ------------------------------------------------------------------------------- C05
void execC05(const Plan& plan, Ctx& ctx)
{
    WSim s{plan, ctx};
    s.tolerateDivergence = true;
    s.oracleLifecycle    = false;
    s.logApply           = true;
    s.makeWorld();
    Watch w{s};

    struct Want
    {
        bool optional;
        int  body;
    };
    typedef std::pair<int, const simu::Collider*> Key;
    std::map<Key, Want>                           want;
    std::map<int, std::array<double, 3>>          dv;

    w.before = [&] {
        want.clear();
        dv.clear();
        s.applications.clear();
        for (const Obj& f : s.objs)
        {
            if (f.kind != KFF || !f.exists || f.ff == nullptr || !f.listed)
                continue;
            auto d = f.ff->domain();
            for (const Obj& x : s.objs)
            {
                if (x.kind != KBody || !x.exists || x.body == nullptr || x.structural || x.body->isAsleep())
                    continue;
                for (const simu::Collider& c : x.body->colliders())
                {
                    BoundingBox a = c.boundingBox(), b = d.region;
                    bool in = d.type == simu::ForceField::DomainType::global
                              || (a.min()[0] <= b.max()[0] && b.min()[0] <= a.max()[0] && a.min()[1] <= b.max()[1]
                                  && b.min()[1] <= a.max()[1]);
                    if (!in)
                        continue;
                    bool fresh = !f.atStart || !x.atStart;
                    bool dying = s.dead(f.id) || s.dead(x.id);
                    want[{f.id, &c}] = Want{fresh || dying, x.id};
                    const BodyState& st = w.pre[x.id];
                    auto             p  = c.properties();
                    double           fx = f.par[0], fy = f.par[1], k = s.stepDt;
                    if (f.sub == 0) // acceleration
                        k *= p.m;
                    else if (f.sub == 1 || f.sub == 2)
                        k *= p.m / st.m;
                    else
                        continue;
                    Vec2 r = x.body->toWorldSpace() * Vec2{p.centroid} - x.body->centroid();
                    auto& e = dv[x.id];
                    e[0] += fx * k / st.m;
                    e[1] += fy * k / st.m;
                    e[2] += (r[0] * fy - r[1] * fx) * k / st.I;
                }
            }
        }
    };
    w.after = [&] {
        if (s.stepDt <= 0)
        {
            if (!s.applications.empty())
                ctx.violate("force:paused", "a force field was applied by a step of no duration");
            return;
        }
        std::map<Key, int> got;
        for (const Applied& a : s.applications)
        {
            if (a.dt != s.stepDt)
                ctx.violate("force:dt", "a force field was applied with another duration than the step's");
            ++got[{a.ff, a.c}];
        }
        for (auto& [k, n] : got)
        {
            auto it = want.find(k);
            if (it == want.end())
                ctx.violate("force:unexpected", fmt("force field %d was applied to a collider that is not in its domain (or is structural or asleep)", k.first));
            if (n != 1)
                ctx.violate("force:count", fmt("force field %d was applied %d times to one collider of body %d in one step", k.first, n, it->second.body));
        }
        for (auto& [k, e] : want)
            if (!e.optional && got.count(k) == 0)
                ctx.violate("force:missing", fmt("force field %d was not applied to a collider of body %d", k.first, e.body));
        ctx.count("checks.applications", i64(want.size()));

        for (auto& [id, a] : w.pre)
        {
            auto it = w.post.find(id);
            if (it == w.post.end() || a.structural || a.nContacts > 0 || a.nCons > 0 || a.nCols == 0)
                continue;
            bool skip = a.asleep;
            for (auto& [k, e] : want)
                if (e.body == id && e.optional)
                    skip = true;
            if (skip)
                continue;
            const BodyState& b = it->second;
            auto             e = dv[id];
            double           sc = a.speed() + std::hypot(e[0], e[1]) + 1e-3;
            double           rc = std::abs(a.w) + std::abs(e[2]) + 1e-3
                        + sc / std::max(0.05, a.reach); // torques of opposite forces cancel in floats
            if (!(std::hypot(b.vx - a.vx - e[0], b.vy - a.vy - e[1]) <= 1e-4 * sc))
                ctx.violate("force:acceleration", fmt("free body %d changed velocity by (%g %g) in a step, fields prescribe (%g %g)", id, b.vx - a.vx, b.vy - a.vy, e[0], e[1]));
            if (!(std::abs(b.w - a.w - e[2]) <= 1e-3 * rc))
                ctx.violate("force:torque", fmt("free body %d changed angular velocity by %g in a step, fields prescribe %g", id, b.w - a.w, e[2]));
            double dt = s.stepDt;
            double pe = 1e-5 * (std::abs(a.px) + std::abs(a.py) + a.reach + 1) + 1e-4 * b.speed() * dt;
            if (!(std::hypot(b.cx - a.cx - b.vx * dt, b.cy - a.cy - b.vy * dt) <= pe))
                ctx.violate("free:motion", fmt("the centroid of free body %d moved by (%g %g), its velocity is (%g %g) and the step's duration %g", id, b.cx - a.cx, b.cy - a.cy, b.vx, b.vy, dt));
            if (!(std::abs(b.th - a.th - b.w * dt) <= 1e-5 * (1 + std::abs(a.th) + std::abs(b.w) * dt)))
                ctx.violate("free:rotation", fmt("free body %d turned by %g, its angular velocity is %g and the step's duration %g", id, b.th - a.th, b.w, dt));
            ctx.count("checks.freeBodies");
            ctx.nontrivial = true;
        }
    };
    w.run(plan, ctx);
    s.scripts.clear();
    s.destroyWorld();
}

Register c05{Prop{
    "C05",
    [](Rng& r, int tier) {
        HistoryCfg c;
        c.maxOps = tier ? 140 : 60;
        c.wFF    = 2.5;
        c.wAdd   = 2.5;
        c.wCon   = 0.6;
        c.wSettings = r.chance(0.3) ? 1.0 : 0.1;
        Plan p = history(r, c, preHooks, true);
        p.ops.insert(p.ops.begin(), marker());
        // several fields from the start, far apart bodies too
        int n = r.range(1, 3);
        for (int i = 0; i < n; ++i)
            p.ops.insert(p.ops.begin() + 1, Op{"mkFF", ffArgs(r)});
        return p;
    },
    execC05}};

// ------------------------------------------------------------------------------- C06
void execC06(const Plan& plan, Ctx& ctx)
{
    WSim s{plan, ctx};
    s.tolerateDivergence = true;
    s.oracleLifecycle    = false;
    s.makeWorld();
    Watch w{s};

    w.after = [&] {
        if (s.stepDt <= 0 || s.wildness() > 0.2)
            return;
        double dt = s.stepDt;
        double P0x = 0, P0y = 0, P1x = 0, P1y = 0, M = 0, Cx = 0, Cy = 0, scale = 0, moved = 0, far = 0, turn = 0;
        int    n = 0;
        for (auto& [id, a] : w.pre)
        {
            auto it = w.post.find(id);
            if (it == w.post.end())
                continue;
            if (a.nCols == 0)
            {
                if (a.nContacts > 0 || a.nCons > 0)
                    return; // it lost its last collider, and with it its mass, while something acts on it
                continue;
            }
            const BodyState& b = it->second;
            if (a.m != b.m)
                return;
            ++n;
            M += a.m;
            P0x += a.m * a.vx;
            P0y += a.m * a.vy;
            P1x += a.m * b.vx;
            P1y += a.m * b.vy;
            Cx += a.m * (b.cx - a.cx);
            Cy += a.m * (b.cy - a.cy);
            scale += a.m * (a.speed() + b.speed() + a.reach * (std::abs(a.w) + std::abs(b.w)));
            moved += a.m * std::hypot(b.cx - a.cx, b.cy - a.cy);
            turn += a.m * a.reach * std::min(1.0, std::abs(b.th - a.th));
            far = std::max(far, std::abs(a.px) + std::abs(a.py) + a.reach + std::abs(b.px) + std::abs(b.py));
        }
        if (n == 0)
            return;
        double tol = 2e-3 * scale + 1e-4 * M;
        if (!(std::hypot(P1x - P0x, P1y - P0y) <= tol))
            ctx.violate("momentum:changed", fmt("a step of %g s changed the linear momentum of %d bodies from (%g %g) to (%g %g)", dt, n, P0x, P0y, P1x, P1y));
        double ex = Cx - P1x * dt, ey = Cy - P1y * dt;
        double ctol = 4e-3 * (moved + turn + scale * dt) + M * (1e-5 + 1e-5 * far);
        if (!(std::hypot(ex, ey) <= ctol))
            ctx.violate("momentum:centre-of-mass", fmt("the centre of mass of %d bodies moved by (%g %g) in %g s, its velocity is (%g %g)", n, Cx / M, Cy / M, dt, P1x / M, P1y / M));
        ctx.count("checks.momentum");
        for (auto& [id, a] : w.pre)
            if (a.nContacts > 0 || a.nCons > 0)
                ctx.nontrivial = true;
    };
    w.run(plan, ctx);
    s.scripts.clear();
    s.destroyWorld();
}

Register c06{Prop{
    "C06",
    [](Rng& r, int tier) {
        HistoryCfg c;
        c.maxOps      = tier ? 140 : 60;
        c.wFF         = 0;
        c.gravity     = false;
        c.area        = 2.5;
        c.wAdd        = 2.5;
        c.wRm         = 2.5;
        c.wOn         = 1.5;
        Plan p        = history(r, c, preHooks, true);
        double dom    = r.chance(0.8) ? 1 : (r.chance(0.5) ? 0.5 : 2.0);
        // everything is free and equally dominant; no motors
        for (Op& o : p.ops)
        {
            if (o.kind == "mkBody")
                o.a[3] = dom;
            if (o.kind == "mkCon" && (int(o.a[0]) % 7 == 4 || int(o.a[0]) % 7 == 5))
                o.a[0] = double(r.below(4));
            if (o.kind == "on")
            {
                int sub = int(o.a[2]);
                if (sub == 2)
                    o.a[6] = dom;
                if (sub == 5 && (int(o.a[3]) % 7 == 4 || int(o.a[3]) % 7 == 5))
                    o.a[3] = double(r.below(4));
                if (sub == 6)
                    o.a[2] = 1, o.a[3] = 0;
            }
            if ((o.kind == "kill" || o.kind == "cond" || o.kind == "rekill") && int(o.a[0]) % 4 == 2)
                o.a[0] = 0;
            if (o.kind == "on" && (int(o.a[2]) <= 1 || int(o.a[2]) == 10) && int(o.a[3]) % 4 == 2)
                o.a[3] = 0;
        }
        p.ops.insert(p.ops.begin(), marker());
        return p;
    },
    execC06}};

// ------------------------------------------------------------------------------- C07
void execC07(const Plan& plan, Ctx& ctx)
{
    WSim s{plan, ctx};
    s.tolerateDivergence = true;
    s.oracleLifecycle    = false;
    s.makeWorld();
    Watch w{s};
    w.after = [&] {
        for (auto& [id, a] : w.pre)
        {
            auto it = w.post.find(id);
            if (it == w.post.end() || !a.structural)
                continue;
            const BodyState& b = it->second;
            if (!a.sameVel(b))
                ctx.violate("structural:velocity", fmt("structural body %d had velocity (%g %g %g) and has (%g %g %g) after a step", id, a.vx, a.vy, a.w, b.vx, b.vy, b.w));
            double dt = std::max(0.f, s.stepDt);
            if (a.vx == 0 && a.vy == 0 && a.w == 0)
            {
                if (!a.samePose(b))
                    ctx.violate("structural:moved", fmt("structural body %d has no velocity and moved from (%g %g %g) to (%g %g %g)", id, a.px, a.py, a.th, b.px, b.py, b.th));
            }
            else
            {
                double e = 4e-6 * (std::abs(a.px) + std::abs(a.py) + std::abs(a.vx * dt) + std::abs(a.vy * dt) + 1);
                if (!(std::abs(b.px - a.px - a.vx * dt) <= e) || !(std::abs(b.py - a.py - a.vy * dt) <= e)
                    || !(std::abs(b.th - a.th - a.w * dt) <= 4e-6 * (std::abs(a.th) + std::abs(a.w * dt) + 1)))
                    ctx.violate("structural:moved", fmt("structural body %d with velocity (%g %g %g) moved by (%g %g %g) in %g s", id, a.vx, a.vy, a.w, b.px - a.px, b.py - a.py, b.th - a.th, dt));
            }
            ctx.count(a.vx == 0 && a.vy == 0 && a.w == 0 ? "checks.still" : "checks.moving");
            if (a.nContacts + a.nCons > 0)
                ctx.nontrivial = true;
        }
    };
    w.run(plan, ctx);
    s.scripts.clear();
    s.destroyWorld();
}

Register c07{Prop{
    "C07",
    [](Rng& r, int tier) {
        HistoryCfg c;
        c.maxOps      = tier ? 140 : 60;
        c.area        = 3;
        c.wFF         = 1.2;
        c.wCon        = 4;
        Plan p        = history(r, c, preHooks, true);
        bool moving   = r.chance(0.5);
        double ps     = r.uni(0.25, 0.6);
        for (Op& o : p.ops)
            if (o.kind == "mkBody" && o.a.size() > 13)
            {
                if (r.chance(ps))
                    o.a[3] = 0;
                if (o.a[3] == 0 && !(moving && r.chance(0.6)))
                    o.a[11] = o.a[12] = o.a[13] = 0;
            }
            else if (o.kind == "vel" && !moving)
                o = Op{"imp", {o.a[0], o.a[1], o.a[2], 0.1, -0.2}};
        p.ops.insert(p.ops.begin(), marker());
        return p;
    },
    execC07}};

// ------------------------------------------------------------------------------- C15
// isolation: the same group with and without strangers around must move alike.
struct GroupTrace
{
    std::vector<std::vector<float>> steps;
};

void execC15(const Plan& plan, Ctx& ctx)
{
    bool isolation = plan.get("isolation") > 0;

    auto one = [&](bool strangers, GroupTrace* tr) {
        WSim s{plan, ctx};
        s.tolerateDivergence = true;
        s.oracleLifecycle    = false;
        s.logCons            = true;
        s.killContacts       = isolation;
        s.checkProxies       = true;
        s.makeWorld();
        Watch             w{s};
        int               nPos = 2, nVel = 8;
        bool              warm = true;
        std::vector<int>  group;
        bool              inGroup = true;
        Snap              pre;

        w.before = [&] {
            s.conLog.clear();
            for (Obj& x : s.objs)
                x.active = x.init = x.warm = x.vel = x.pos = 0;
        };
        w.after = [&] {
            if (s.stepDt <= 0)
            {
                if (!s.conLog.empty())
                    ctx.violate("solve:paused", "a constraint was consulted by a step of no duration");
                return;
            }
            std::map<int, std::vector<int>> seq;
            for (auto& [h, id] : s.conLog)
                seq[id].push_back(h);
            for (const Obj& x : s.objs)
            {
                if (x.kind != KCon || !x.exists || !x.listed)
                    continue;
                bool fresh = !x.atStart || s.dead(x.id);
                auto& q    = seq[x.id];
                // at rest as structural: nothing to solve
                bool needed = false;
                for (int b : x.b)
                    if (b >= 0)
                    {
                        auto it = w.pre.find(b);
                        if (it == w.pre.end())
                            continue;
                        const BodyState& a = it->second;
                        needed = needed || !a.structural || a.vx != 0 || a.vy != 0 || a.w != 0;
                    }
                std::size_t i = 0;
                while (i < q.size() && q[i] == HActive)
                    ++i;
                if (i == 0)
                {
                    if (needed && !fresh)
                        ctx.violate("solve:not-asked", fmt("constraint %d was not asked whether it is active", x.id));
                    if (!q.empty())
                        ctx.violate("solve:order", fmt("constraint %d was solved without being asked whether it is active", x.id));
                    continue;
                }
                std::vector<int> rest(q.begin() + i, q.end()), want;
                if (x.isActive)
                {
                    want.push_back(HInit);
                    if (warm)
                        want.push_back(HWarm);
                    for (int k = 0; k < nVel; ++k)
                        want.push_back(HVel);
                    for (int k = 0; k < nPos; ++k)
                        want.push_back(HPos);
                }
                if (rest != want)
                {
                    std::string g;
                    for (int h : rest)
                        g += std::string(hookNames[h]) + " ";
                    ctx.violate("solve:schedule", fmt("constraint %d (%s; warmstart %d, %d velocity and %d position iterations) saw: %s", x.id, x.isActive ? "active" : "inactive", int(warm), nVel, nPos, g.c_str()));
                }
                ctx.count(x.isActive ? "checks.active" : "checks.inactive");
                ctx.nontrivial = true;
            }
            // warm starts follow all preparations of the group, velocities come before positions
            for (auto& [id, a] : w.pre)
            {
                auto it = w.post.find(id);
                if (it == w.post.end() || (nPos != 0 && a.nContacts + a.nCons > 0))
                    continue;
                const BodyState& b = it->second;
                double           dt = s.stepDt;
                double           e  = 4e-6 * (std::abs(a.px) + std::abs(a.py) + 1) + 2e-6 * b.speed() * dt;
                if (!(std::hypot(b.px - a.px - b.vx * dt, b.py - a.py - b.vy * dt) <= e)
                    || !(std::abs(b.th - a.th - b.w * dt) <= 4e-6 * (1 + std::abs(a.th) + std::abs(b.w * dt))))
                    ctx.violate("solve:advance", fmt("body %d with solved velocity (%g %g %g) moved by (%g %g %g) in %g s", id, b.vx, b.vy, b.w, b.px - a.px, b.py - a.py, b.th - a.th, dt));
                ctx.count("checks.advance");
            }
        };
        for (std::size_t i = 0; i < plan.ops.size(); ++i)
        {
            const Op& op = plan.ops[i];
            ctx.opIndex  = int(i);
            if (op.kind == "others")
            {
                inGroup = false;
                continue;
            }
            if (op.kind == "group")
            {
                inGroup = true;
                continue;
            }
            if (op.kind == "settings")
            {
                nVel = int(op.arg(0));
                nPos = int(op.arg(1));
                warm = op.arg(2) > 0;
            }
            if (isolation && !inGroup && !strangers)
                continue;
            std::size_t before = s.objs.size();
            bool        go     = true;
            if (isolation && op.kind != "step" && op.kind != "mkBody" && op.kind != "mkFF" && op.kind != "settings")
            {
                // operate on the own group only
                std::vector<int> saved;
                for (Obj& x : s.objs)
                    if (x.kind == KBody && x.exists && x.listed
                        && inGroup != (std::find(group.begin(), group.end(), x.id) != group.end()))
                    {
                        x.listed = false;
                        saved.push_back(x.id);
                    }
                s.exec(op);
                for (int id : saved)
                    s.o(id).listed = true;
            }
            else
                go = w.one(op);
            if (op.kind == "mkBody" && inGroup)
                for (std::size_t k = before; k < s.objs.size(); ++k)
                    if (s.objs[k].kind == KBody)
                        group.push_back(int(k));
            if (op.kind == "mkCon" && s.objs.size() > before && !isolation && op.arg(9) > 0)
                s.objs.back().par[7] = 1; // inactive
            if (op.kind == "step" && tr != nullptr)
            {
                std::vector<float> v;
                for (int id : group)
                    if (s.o(id).exists)
                        for (float f : observe(s, id).raw)
                            v.push_back(f);
                tr->steps.push_back(v);
            }
            if (!go)
                break;
        }
        s.scripts.clear();
        s.onHook = nullptr;
        s.destroyWorld();
    };
    if (!isolation)
    {
        one(true, nullptr);
        return;
    }
    GroupTrace a, b;
    one(true, &a);
    one(false, &b);
    ctx.nontrivial = true;
    for (std::size_t i = 0; i < std::min(a.steps.size(), b.steps.size()); ++i)
        if (a.steps[i].size() != b.steps[i].size()
            || std::memcmp(a.steps[i].data(), b.steps[i].data(), a.steps[i].size() * sizeof(float)) != 0)
            ctx.violate("solve:isolation", fmt("after step %zu, bodies that interact with nobody else moved differently because other bodies exist", i));
    ctx.count("checks.isolation");
}

Register c15{Prop{
    "C15",
    [](Rng& r, int tier) {
        Plan p;
        if (r.chance(0.35))
        {
            p.cfg["isolation"] = 1;
            heapCfg(r, p, true);
            HistoryCfg c;
            c.area = 3;
            bool g = r.chance(0.5);
            if (g)
                p.add("mkFF", {0, 0, -9.81});
            p.add("mkFF", {4, 0, 0, 0, 0, 0, 0});
            int n = r.range(8, tier ? 60 : 30);
            bool others = false;
            for (int i = 0; i < n; ++i)
            {
                bool want = r.chance(0.45);
                if (want != others)
                {
                    p.add(want ? "others" : "group");
                    others = want;
                }
                switch (r.below(4))
                {
                    case 0: p.add("mkBody", bodyArgs(r, c)); break;
                    case 1:
                    {
                        auto a = conArgs(r);
                        p.add("mkCon", a);
                        break;
                    }
                    case 2: p.add("vel", {double(r.below(64)), r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)}); break;
                    default:
                        if (others)
                        {
                            p.add("group");
                            others = false;
                        }
                        p.add("step", {stepArg(r, c)});
                }
            }
            if (others)
                p.add("group");
            for (int i = 0; i < 5; ++i)
                p.add("step", {1.0 / 60});
            return p;
        }
        HistoryCfg c;
        c.maxOps    = tier ? 140 : 60;
        c.wCon      = 4;
        c.wFF       = 0.3;
        c.wSettings = 1.5;
        p           = history(r, c, preHooks, true);
        for (Op& o : p.ops)
        {
            if (o.kind == "mkCon")
                o.a.push_back(r.chance(0.2) ? 1 : 0);
            if (o.kind == "settings")
            {
                if (r.chance(0.5))
                    o.a[1] = 0;
                if (r.chance(0.1))
                    o.a[0] = 0;
            }
        }
        p.ops.insert(p.ops.begin(), marker());
        if (r.chance(0.7))
            p.ops.insert(p.ops.begin(), Op{"settings", {double(r.range(0, 12)), double(r.chance(0.5) ? 0 : r.range(0, 4)), double(r.below(2))}});
        return p;
    },
    execC15}};

} // namespace
} // namespace sim
