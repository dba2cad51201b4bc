// C08: joints recover from any disturbance
#include "phys.hpp"

#include <algorithm>
#include <functional>

namespace sim
{
namespace
{

struct Joint
{
    int    id = 0, type = 0, b[2] = {-1, -1};
    double l[2][2] = {}; // anchors, relative to each body's centroid
    double angle = 0, lo = -1, hi = -1;
};

struct Err
{
    double gap = 0, angle = 0;
};

Vec2 toLocal(const simu::Body* b, Vec2 p)
{
    double c = std::cos(double(b->orientation())), s = std::sin(double(b->orientation()));
    double x = double(p[0]) - b->centroid()[0], y = double(p[1]) - b->centroid()[1];
    return Vec2{float(c * x + s * y), float(-s * x + c * y)};
}

std::array<double, 2> toWorld(const simu::Body* b, const double l[2])
{
    double c = std::cos(double(b->orientation())), s = std::sin(double(b->orientation()));
    return {double(b->centroid()[0]) + c * l[0] - s * l[1], double(b->centroid()[1]) + s * l[0] + c * l[1]};
}

Err error(const WSim& s, const Joint& j)
{
    const simu::Body *b0 = s.o(j.b[0]).body, *b1 = s.o(j.b[1]).body;
    Err               e;
    auto              p = toWorld(b0, j.l[0]), q = toWorld(b1, j.l[1]);
    double            d = std::hypot(p[0] - q[0], p[1] - q[1]);
    if (j.type == CHinge || j.type == CWeld)
        e.gap = d;
    if (j.type == CDist)
        e.gap = std::max({0.0, j.lo >= 0 ? j.lo - d : 0, j.hi >= 0 ? d - j.hi : 0});
    if (j.type == CRot || j.type == CWeld)
        e.angle = std::abs(double(b1->orientation()) - double(b0->orientation()) - j.angle);
    return e;
}

// How much joints may be off at the end of a step: what one step of motion along straight lines leaves to the
// next step to correct, and rounding.
struct Worst
{
    bool        fast = false; // faster than the frame time can follow: nothing is judged
    double      ratio = 0;
    std::string what, cls;
};

Worst judge(WSim& s, Ctx& ctx, const std::vector<Joint>& joints, double dt)
{
    Worst  r;
    double far = 0, spin = 0, slide = 0;
    for (const Obj& x : s.objs)
        if (x.kind == KBody && x.exists)
        {
            BodyState b = observe(s, x.id);
            far   = std::max({far, std::abs(b.px), std::abs(b.py)});
            spin  = std::max(spin, std::abs(b.w));
        }
    for (const Joint& j : joints)
        if (s.o(j.id).exists)
        {
            BodyState a = observe(s, j.b[0]), b = observe(s, j.b[1]);
            slide = std::max(slide, std::hypot(a.vx - b.vx, a.vy - b.vy));
        }
    double turn = spin * dt, shift = slide * dt;
    if (turn > 0.3 || shift > 0.3 || far > 2000)
    {
        r.fast = true;
        return r;
    }
    for (const Joint& j : joints)
    {
        if (!s.o(j.id).exists || s.dead(j.id))
            continue;
        Err    e   = error(s, j);
        double arm = 1;
        for (int i = 0; i < 2; ++i)
            arm = std::max(arm, std::hypot(j.l[i][0], j.l[i][1]));
        double tolGap   = 0.05 + 3 * arm * turn * turn + 2 * shift * shift + 1e-5 * far;
        double tolAngle = 0.05 + 3 * turn * turn + 2 * shift * shift;
        ctx.count("checks.joint");
        ctx.count("reach.type" + std::to_string(j.type));
        auto take = [&](double off, double tol, const char* cls) {
            double q = off / tol;
            if (!(q <= r.ratio))
            {
                r.ratio = q;
                r.cls   = cls;
                r.what  = fmt("joint %d (type %d) between bodies %d and %d is off by %g (allowed %g)", j.id, j.type, j.b[0], j.b[1], off, tol);
            }
        };
        if (j.type == CDist && j.lo != j.hi)
            tolGap += 1.5 * shift; // limits act one step after they are passed
        take(e.gap, tolGap, "joint:gap");
        take(e.angle, tolAngle, "joint:angle");
    }
    return r;
}

void execC08(const Plan& plan, Ctx& ctx)
{
    WSim s{plan, ctx};
    s.oracleLifecycle = false;
    s.killContacts    = true;
    s.makeWorld();
    std::vector<Joint> joints;
    // a distance joint that is strictly inside its limits when it is solved is left alone, even if it was at a
    // limit one step earlier
    struct Change
    {
        bool                inside = false;
        double              sum    = 0;
        std::vector<double> was;
    };
    std::map<int, Change> changes;
    s.onProxies = [&](int h, int id, bool after, const simu::Proxies& p) {
        auto it = changes.find(id);
        if (it == changes.end() || (h != HVel && h != HWarm))
            return;
        auto                vel = p.velocity();
        std::vector<double> v;
        for (int i = 0; i < 6; ++i)
            v.push_back(vel[i]);
        if (after)
            for (std::size_t i = 0; i < 6; ++i)
                it->second.sum += std::abs(v[i] - it->second.was[i]);
        else
            it->second.was = v;
    };
    Watch w{s};
    w.before = [&] {
        changes.clear();
        if (s.stepDt <= 0)
            return;
        for (const Joint& j : joints)
        {
            if (j.type != CDist || !s.o(j.id).exists || s.dead(j.id))
                continue;
            auto   a = toWorld(s.o(j.b[0]).body, j.l[0]), b = toWorld(s.o(j.b[1]).body, j.l[1]);
            double d = std::hypot(a[0] - b[0], a[1] - b[1]), margin = 1e-3 * (1 + d);
            if ((j.lo < 0 || d > j.lo + margin) && (j.hi < 0 || d < j.hi - margin))
                changes[j.id].inside = true;
        }
    };
    w.after = [&] {
        for (auto& [id, c] : changes)
        {
            ctx.count("checks.inside");
            if (c.sum > 0)
                ctx.violate("joint:inside", fmt("distance joint %d changed velocities by %g although the distance is strictly inside its limits", id, c.sum));
        }
    };
    double dt    = 1.0 / 60;
    int    quiet = 0;
    for (std::size_t i = 0; i < plan.ops.size(); ++i)
    {
        Op op       = plan.ops[i];
        ctx.opIndex = int(i);
        if (op.kind == "joint") // type a b ox oy lo hi
        {
            std::vector<int> cand = s.living(KBody);
            int              a = s.pickOf(cand, op.pick(1));
            std::erase(cand, a);
            int b = s.pickOf(cand, op.pick(2));
            if (a < 0 || b < 0)
                continue;
            // an open chain: fixed bodies count as one
            std::map<int, int>      group;
            std::function<int(int)> find = [&](int x) { return group[x] == x ? x : group[x] = find(group[x]); };
            int                     fixed = -1;
            for (int id : s.living(KBody))
            {
                group[id] = id;
                if (s.o(id).structural)
                {
                    if (fixed < 0)
                        fixed = id;
                    group[id] = fixed;
                }
            }
            for (const Joint& j : joints)
                if (s.o(j.id).exists && group.count(j.b[0]) && group.count(j.b[1]))
                    group[find(j.b[0])] = find(j.b[1]);
            if (find(a) == find(b) || !(simu::norm(s.o(a).body->centroid() - s.o(b).body->centroid()) <= 3)
                || !s.solid(a) || !s.solid(b))
                continue;
            int size = 0;
            for (auto& g : group)
                size += find(g.first) == find(a) || find(g.first) == find(b);
            // rows of welds only converge after very many steps
            bool weld = op.pick(0) % 4 == 1;
            for (const Joint& j : joints)
                weld = weld || (j.type == CWeld && s.o(j.id).exists && group.count(j.b[0]) && (find(j.b[0]) == find(a) || find(j.b[0]) == find(b)));
            if (size > (weld ? 3 : 5))
                continue;
            double mlo = 1e30, mhi = 0, ilo = 1e30, ihi = 0; // of comparable masses
            for (auto& g : group)
                if ((find(g.first) == find(a) || find(g.first) == find(b)) && !s.o(g.first).structural)
                {
                    const simu::Body* x = s.o(g.first).body;
                    mlo = std::min(mlo, double(x->mass())), mhi = std::max(mhi, double(x->mass()));
                    ilo = std::min(ilo, double(x->inertia())), ihi = std::max(ihi, double(x->inertia()));
                }
            if (mhi > 4 * mlo || ihi > 12 * ilo)
                continue;
            simu::Body *  b0 = s.o(a).body, *b1 = s.o(b).body;
            simu::Bodies  bodies{b0, b1};
            Joint         j;
            j.type = std::vector<int>{CHinge, CWeld, CRot, CDist}[op.pick(0) % 4];
            j.b[0] = a, j.b[1] = b;
            Vec2 off{float(op.arg(3)), float(op.arg(4))};
            Vec2 p0 = 0.5f * (b0->centroid() + b1->centroid()) + off, p1 = p0;
            if (j.type == CWeld)
                p0 = p1 = 0.5f * (b0->centroid() + b1->centroid());
            if (j.type == CDist)
            {
                p0       = b0->centroid() + off;
                p1       = b1->centroid() - off;
                double d = simu::norm(p1 - p0);
                if (d < 0.3)
                {
                    p0 = b0->centroid(), p1 = b1->centroid();
                    d  = simu::norm(p1 - p0);
                }
                if (d < 0.3)
                    continue;
                if (op.arg(5) > 0)
                    j.lo = d * op.arg(5);
                if (op.arg(6) > 0)
                    j.hi = d * op.arg(6);
                if (j.lo < 0 && j.hi < 0)
                    j.lo = j.hi = d;
                if (j.lo >= 0 && j.hi >= 0 && j.lo > j.hi)
                    std::swap(j.lo, j.hi);
            }
            Vec2 l0 = toLocal(b0, p0), l1 = toLocal(b1, p1);
            j.l[0][0] = l0[0], j.l[0][1] = l0[1], j.l[1][0] = l1[0], j.l[1][1] = l1[1];
            j.angle = double(b1->orientation()) - double(b0->orientation());
            {
                EngineScope e;
                bool        dis = op.arg(7) > 0;
                if (j.type == CHinge)
                    j.id = makeHinge(s, bodies, p0, dis);
                else if (j.type == CWeld)
                    j.id = makeWeld(s, bodies, dis);
                else if (j.type == CRot)
                    j.id = makeRot(s, bodies, dis);
                else
                    j.id = makeDist(s, bodies, {p0, p1}, j.lo < 0 ? std::optional<float>{} : float(j.lo), j.hi < 0 ? std::optional<float>{} : float(j.hi), dis);
            }
            Obj& o   = s.o(j.id);
            o.b[0] = a, o.b[1] = b;
            o.listed = true;
            joints.push_back(j);
            ctx.count("op.joint");
            continue;
        }
        if (op.kind == "quiet")
        {
            dt = std::max(0.004, std::min(0.02, op.arg(0)));
            quiet = int(op.arg(1));
            for (const Obj& x : s.objs) // fixed bodies that move drive what is attached to them
                if (x.kind == KBody && x.exists && x.structural)
                {
                    x.body->setVelocity(Vec2{});
                    x.body->setAngularVelocity(0.f);
                }
            bool torn = false; // further than linearised corrections reach
            for (const Joint& j : joints)
                if (s.o(j.id).exists && !s.dead(j.id))
                {
                    Err e = error(s, j);
                    torn  = torn || e.gap > 1 || e.angle > 1;
                }
            if (torn)
            {
                ctx.count("ended.torn");
                break;
            }
            // all joints hold together, for a while, within 1000 steps; and from then on
            int since = -1, held = 0;
            for (int k = 0; (since < 0 ? k < 1000 : k < since + quiet) && !s.ended; ++k)
            {
                if (!w.one(Op{"step", {dt}}))
                    break;
                s.checkFinite();
                Worst x = judge(s, ctx, joints, dt);
                if (x.fast)
                {
                    ctx.count("skip.fast");
                    since = -1, held = 0;
                    if (k > 100)
                        break;
                    continue;
                }
                held = x.ratio <= 1 ? held + 1 : 0;
                if (since >= 0 && x.ratio > 4)
                    ctx.violate(x.cls + "-again", fmt("%s, %d steps after the last disturbance and although all joints held for 60 steps before step %d", x.what.c_str(), k + 1, since));
                else if (since < 0 && held >= 60)
                {
                    since = k;
                    ctx.count("reach.recovered");
                    ctx.count("reach.recovery-steps", k);
                }
                else if (since < 0 && k >= 999)
                    ctx.violate(x.cls.empty() ? "joint:gap" : x.cls, fmt("%s, %d steps after the last disturbance", x.what.c_str(), k + 1));
            }
            ctx.nontrivial = ctx.nontrivial || !joints.empty();
            continue;
        }
        if (!w.one(op))
            break;
        s.checkFinite();
    }
    s.scripts.clear();
    s.destroyWorld();
}

Register c08{Prop{
    "C08",
    [](Rng& r, int tier) {
        Plan p;
        heapCfg(r, p, r.chance(0.5));
        bool warm = r.chance(0.75); // without warm starting, a few iterations do not support much weight
        p.add("mkFF", {0, 0, r.chance(0.3) ? 0 : warm ? -r.uni(0.5, 10) : 0});
        if (!warm || r.chance(0.4))
            p.add("settings", {double(r.range(8, 20)), double(r.range(2, 8)), warm ? 1.0 : 0.0});
        int    nb   = r.range(2, 6);
        double size = r.uni(0.6, 1.5);
        bool   gap  = r.chance(0.5); // spaced out
        auto   body = [&](int i) {
            double n = r.chance(0.5) ? 0 : double(r.range(3, 7));
            double sz = size * r.uni(0.8, 1.25);
            std::vector<double> a{i * size * (gap ? 1.6 : 1.0) + r.uni(-0.3, 0.3), r.uni(-0.5, 0.5), r.chance(0.5) ? 0 : r.uni(-3, 3), i == 0 && r.chance(0.6) ? 0.0 : 1.0,
                                  n, sz, r.uni(0.7, 1.4), double(r.below(1000)), r.uni(0.8, 1.3), 0, 0.3, 0, 0, 0, 0, 0};
            if (r.chance(0.3))
            {
                auto v = velocity(r, 0.2);
                a[11] = v[0], a[12] = v[1], a[13] = v[2];
            }
            return a;
        };
        for (int i = 0; i < nb; ++i)
            p.add("mkBody", body(i));
        auto joint = [&](int a, int b) {
            double lo = r.chance(0.4) ? 0 : r.uni(0.5, 1.05), hi = r.chance(0.4) ? 0 : r.uni(0.95, 1.5);
            p.add("joint", {double(r.below(4)), double(a), double(b), r.chance(0.5) ? 0 : r.uni(-0.4, 0.4), r.chance(0.5) ? 0 : r.uni(-0.4, 0.4), lo, hi, double(r.below(2))});
        };
        for (int i = 1; i < nb; ++i)
            joint(i, r.chance(0.7) ? i - 1 : r.range(0, i - 1)); // the second index skips the first body picked
        int rounds = r.range(1, tier ? 4 : 2);
        for (int k = 0; k < rounds; ++k)
        {
            int m = r.range(2, tier ? 40 : 20);
            for (int i = 0; i < m; ++i)
            {
                switch (r.weighted({10, 2, 2, 1, 0.5, 0.5, 0.4, 0.3}))
                {
                    case 0: p.add("step", {r.chance(0.7) ? 1.0 / 60 : r.chance(0.5) ? r.uni(0.001, 0.03) : r.uni(0.03, 0.1)}); break;
                    case 1:
                    {
                        Op op{"vel", {double(r.below(64))}};
                        for (double v : velocity(r, 0.1))
                            op.a.push_back(v);
                        p.ops.push_back(op);
                        break;
                    }
                    case 2: p.add("imp", {double(r.below(64)), r.uni(-0.6, 0.6), r.uni(-0.6, 0.6), r.uni(-0.7, 0.7), r.uni(-0.7, 0.7)}); break;
                    case 3: p.add("step", {r.uni(0.1, 0.25)}); break;
                    case 4: p.add("kill", {1, double(r.below(64))}); break;
                    case 5: joint(r.range(0, nb), r.range(0, nb)); break;
                    case 6: p.add("step", {0}); break;
                    default: p.add("kill", {0, double(r.below(64))}); break;
                }
            }
            p.add("quiet", {r.chance(0.8) ? 1.0 / 60 : r.uni(0.006, 0.018), double(r.range(5, 60))});
        }
        return p;
    },
    execC08}};

} // namespace
} // namespace sim
