// C09: supported bodies come to rest; C10: contacts push, rub within friction and never create energy
#include "phys.hpp"

#include <algorithm>

namespace sim
{
namespace
{

typedef std::vector<std::array<double, 2>> Hull;

std::vector<Hull> hulls(const simu::Body* b)
{
    std::vector<Hull> r;
    for (const simu::Collider& c : b->colliders())
    {
        Hull h;
        for (const simu::Vertex& v : c)
            h.push_back({double(v[0]), double(v[1])});
        r.push_back(h);
    }
    return r;
}

// How deep two convex shapes overlap (negative: how far apart they are, along the best of their edges)
double overlap(const Hull& a, const Hull& b)
{
    double best = 1e30;
    auto   side = [&](const Hull& p, const Hull& q) {
        double cx = 0, cy = 0;
        for (auto& v : p)
            cx += v[0] / double(p.size()), cy += v[1] / double(p.size());
        for (std::size_t i = 0; i < p.size(); ++i)
        {
            auto&  u = p[i];
            auto&  v = p[(i + 1) % p.size()];
            double nx = v[1] - u[1], ny = u[0] - v[0], len = std::hypot(nx, ny);
            if (len < 1e-6)
                continue;
            nx /= len, ny /= len;
            if (nx * (cx - u[0]) + ny * (cy - u[1]) > 0)
                nx = -nx, ny = -ny;
            double lo = 1e30;
            for (auto& w : q)
                lo = std::min(lo, nx * (w[0] - u[0]) + ny * (w[1] - u[1]));
            best = std::min(best, -lo);
        }
    };
    side(a, b);
    side(b, a);
    return best;
}

double overlap(const simu::Body* a, const simu::Body* b)
{
    double best = -1e30;
    for (auto& h : hulls(a))
        for (auto& k : hulls(b))
            best = std::max(best, overlap(h, k));
    return best;
}

// ------------------------------------------------------------------------------- C09
void execC09(const Plan& plan, Ctx& ctx)
{
    WSim s{plan, ctx};
    s.oracleLifecycle = false;
    s.tracked = plan.get("tracked", 1) > 0; // else the contacts are the library's own
    s.makeWorld();
    int ground = -1;

    struct Scene
    {
        double speed = 0, spin = 0, deep = 0, gap = 0;
        int    fast = -1, sunk[2] = {-1, -1}, hovering = -1;
    };
    auto look = [&] {
        Scene            r;
        std::vector<int> v = s.living(KBody);
        for (int id : v)
        {
            if (s.o(id).structural)
                continue;
            BodyState b = observe(s, id);
            double    q = std::max(b.speed(), std::abs(b.w) * b.reach);
            if (!(q <= r.speed))
                r.speed = q, r.fast = id;
            double nearest = -1e30;
            for (int other : v)
                if (other != id)
                {
                    double d = overlap(s.o(id).body, s.o(other).body);
                    nearest  = std::max(nearest, d);
                    if (d > r.deep)
                        r.deep = d, r.sunk[0] = id, r.sunk[1] = other;
                }
            if (-nearest > r.gap)
                r.gap = -nearest, r.hovering = id;
        }
        return r;
    };
    auto fell = [&] {
        if (ground < 0)
            return;
        double top = s.o(ground).par[0], half = s.o(ground).par[1];
        for (int id : s.living(KBody))
        {
            if (s.o(id).structural)
                continue;
            BodyState b = observe(s, id);
            if (std::abs(b.cx) < half - 2 && b.cy < top - 1)
                ctx.violate("rest:fell-through", fmt("body %d went through the ground: its centre is %g below the surface", id, top - b.cy));
        }
    };
    for (std::size_t i = 0; i < plan.ops.size(); ++i)
    {
        const Op& op = plan.ops[i];
        ctx.opIndex  = int(i);
        if (op.kind == "ground") // top half bounce friction
        {
            if (ground >= 0)
                continue;
            simu::BodyDescriptor d;
            double               half = std::max(20.0, op.arg(1)), thick = 4;
            d.position  = Vec2{0, float(op.arg(0) - thick / 2)};
            d.dominance = 0.f;
            simu::ColliderDescriptor cd{simu::Polygon{Vec2{float(-half), float(-thick / 2)}, Vec2{float(half), float(-thick / 2)}, Vec2{float(half), float(thick / 2)}, Vec2{float(-half), float(thick / 2)}},
                                        WSim::material(1, op.arg(2), op.arg(3))};
            SimBody* b = nullptr;
            {
                EngineScope e;
                b = s.world->makeBody<SimBody>(&s, d);
                b->addCollider(cd);
            }
            ground          = b->id;
            Obj& o          = s.o(ground);
            o.listed        = true;
            o.structural    = true;
            o.par[0]        = op.arg(0);
            o.par[1]        = half;
            continue;
        }
        if (op.kind == "quiet") // limit more
        {
            if (ground < 0)
                continue;
            int  limit = 1500, more = int(op.arg(0)), since = -1;
            bool off   = false;
            std::map<int, BodyState> from; // where bodies were when they may have come to rest
            int                      fromStep = 0, toppled = 0, sunkFor = 0, hoversFor = 0;
            for (int k = 0; since < 0 ? k < limit : k < since + more; ++k)
            {
                s.exec(Op{"step", {1.0 / 60}});
                s.checkFinite();
                fell();
                for (int id : s.living(KBody))
                    off = off || std::abs(double(s.o(id).body->position()[0])) > s.o(ground).par[1] - 3;
                if (off)
                    break;
                Scene  x     = look();
                double moved = from.empty() ? 1e30 : 0;
                int    who   = -1;
                for (auto& [id, b] : from)
                {
                    BodyState n = observe(s, id);
                    double    d = std::hypot(n.cx - b.cx, n.cy - b.cy) + std::abs(n.th - b.th) * b.reach;
                    if (!(d <= moved))
                        moved = d, who = id;
                }
                if (since < 0)
                {
                    if (!(moved <= 0.1))
                        from = snapshot(s), fromStep = k;
                    else if (k - fromStep >= 60)
                    {
                        since = k;
                        ctx.count("reach.rest");
                        ctx.count("reach.rest-steps", k);
                        continue;
                    }
                    if (k == limit - 1)
                        ctx.violate("rest:moving", fmt("body %d still moves at %g, %d steps after the last disturbance", x.fast, x.speed, limit));
                }
                if (since >= 0)
                {
                    ctx.count("checks.rest");
                    if (moved > 0.3 && ++toppled <= 2) // it was balanced on a corner
                    {
                        ctx.count("reach.toppled");
                        since = -1, from.clear(), limit = k + 1500;
                        continue;
                    }
                    if (moved > 0.3)
                        ctx.violate("rest:drifts", fmt("body %d moved by %g although everything had been at rest for 60 steps", who, moved));
                    if (x.speed > 1.5)
                        ctx.violate("rest:restless", fmt("body %d moves at %g although everything had been at rest for 60 steps", x.fast, x.speed));
                    sunkFor    = x.deep > 0.05 ? sunkFor + 1 : 0;
                    hoversFor  = x.gap > 0.02 ? hoversFor + 1 : 0;
                    if (sunkFor > 20)
                        ctx.violate("rest:sinks", fmt("bodies %d and %d overlap by %g at rest", x.sunk[0], x.sunk[1], x.deep));
                    if (hoversFor > 20)
                        ctx.violate("rest:hovers", fmt("body %d rests although the nearest body is %g away", x.hovering, x.gap));
                }
            }
            if (off)
            {
                ctx.count("ended.left-the-ground");
                break;
            }
            s.signature();
            ctx.nontrivial = true;
            continue;
        }
        if (op.kind == "take" || op.kind == "push") // one of the bodies that are not the ground
        {
            std::vector<int> v;
            for (int id : s.living(KBody))
                if (!s.o(id).structural)
                    v.push_back(id);
            int id = s.pickOf(v, op.pick(0));
            if (id < 0)
                continue;
            if (op.kind == "take")
                s.killObj(id);
            else
                s.o(id).body->applyImpulse(Vec2{float(op.arg(1)), float(op.arg(2))});
            ctx.count("op." + op.kind);
            continue;
        }
        s.exec(op);
        if (op.kind == "step")
            fell();
        s.checkFinite();
    }
    s.scripts.clear();
    s.destroyWorld();
}

Register c09{Prop{
    "C09",
    [](Rng& r, int tier) {
        Plan p;
        heapCfg(r, p, r.chance(0.5));
        p.cfg["tracked"] = r.chance(0.7);
        p.add("mkFF", {0, 0, -r.uni(3, 12)});
        p.add("ground", {r.chance(0.7) ? 0 : r.uni(-3, 3), 40, r.chance(0.7) ? 0 : r.uni(0, 0.3), r.uni(0.3, 1)});
        if (r.chance(0.4))
            p.add("settings", {double(r.range(8, 20)), double(r.range(2, 6)), 1});
        double top  = p.ops[1].a[0];
        auto   body = [&](double x, double y, bool stacked) {
            bool   box = stacked || r.chance(0.5);
            double sz  = r.uni(0.6, 1.6), aspect = r.uni(0.7, 1.4), density = r.uni(0.6, 1.5) / (sz * sz * aspect); // masses are comparable
            return std::vector<double>{x, y, stacked ? r.uni(-0.05, 0.05) : r.uni(-3, 3), 1, box ? 0.0 : double(r.range(3, 7)), sz, aspect, double(r.below(1000)),
                                       density, r.chance(0.5) ? 0 : r.uni(0, 0.4), r.uni(0.3, 1), r.chance(0.6) ? 0 : r.uni(-1.5, 1.5), r.chance(0.6) ? 0 : r.uni(-3, 1), r.chance(0.6) || stacked ? 0 : r.uni(-3, 3), 0, 0};
        };
        int groups = r.range(1, 3);
        for (int g = 0; g < groups; ++g)
        {
            double x = -8 + 8 * g + r.uni(-1, 1);
            if (r.chance(0.4))
            {
                int    n = r.range(2, 3);
                double y = top, w = r.uni(0.8, 1.6), dens = r.uni(0.5, 2), fric = r.uni(0.4, 1);
                for (int i = 0; i < n; ++i)
                {
                    auto a = body(x + r.uni(-0.1, 0.1) * w, 0, true);
                    w      = w * r.uni(0.85, 1); // nothing overhangs much
                    a[5]   = w;
                    a[8]   = dens;
                    a[10]  = fric;
                    a[6]   = r.uni(0.6, 1);
                    double h = a[5] * a[6];
                    a[1]     = y + h * 0.5 + w * 0.05 + r.uni(0.01, 0.2);
                    y        = a[1] + h * 0.5 + w * 0.05;
                    a[11] = a[12] = 0;
                    p.add("mkBody", a);
                }
            }
            else
            {
                p.add("mkBody", body(x, top + r.uni(1.2, 4), false));
                if (r.chance(0.6)) // lands beside it or slips off it
                    p.add("mkBody", body(x + (r.chance(0.5) ? 1 : -1) * r.uni(0.6, 1.5), top + r.uni(5.5, 7), false));
            }
        }
        int rounds = r.range(1, tier ? 4 : 2);
        for (int k = 0; k < rounds; ++k)
        {
            int m = r.range(1, tier ? 120 : 50);
            for (int i = 0; i < m; ++i)
            {
                switch (r.weighted({12, 0.3, 0.15, 0.15, 1}))
                {
                    case 0: p.add("step", {r.chance(0.6) ? 1.0 / 60 : r.uni(0.004, 1.0 / 30)}); break;
                    case 1: p.add("push", {double(r.below(64)), r.uni(-1, 1), r.uni(-0.5, 1)}); break;
                    case 2: p.add("take", {double(r.below(64))}); break;
                    case 3: p.add("mkBody", body(r.uni(-10, 10), top + r.uni(6, 8), false)); break;
                    default: p.add("step", {1.0 / 30}); break;
                }
            }
            p.add("quiet", {double(r.range(30, 120))});
        }
        return p;
    },
    execC09}};

// ------------------------------------------------------------------------------- C10
double combined(double a, double b, int modeA, int modeB)
{
    switch (std::max(modeA, modeB))
    {
        case 0: return (a + b) / 2;
        case 1: return std::min(a, b);
        case 2: return a * b;
        default: return std::max(a, b);
    }
}

void execC10(const Plan& plan, Ctx& ctx)
{
    WSim s{plan, ctx};
    s.oracleLifecycle = false;
    s.makeWorld();
    struct Mat
    {
        double bounce, friction, dominance;
        int    bounceMode, frictionMode;
        double penetration;
        std::vector<std::array<double, 2>> shape;
    };
    std::map<int, Mat> mats;
    double             gx = 0, gy = 0;
    Watch              w{s};
    bool               moved = false; // at least one step with both

    struct Touch
    {
        bool                                 valid = false;
        int                                  a = 0, b = 0, n = 0;
        double                               nx = 0, ny = 0;
        std::array<std::array<double, 2>, 2> inc{}, ref{};
    } t;
    // the place of a body's shape before it moves
    auto place = [&](int id) {
        BodyState                          b = w.pre[id];
        std::vector<std::array<double, 2>> v = mats[id].shape;
        double                             c = std::cos(b.th), sn = std::sin(b.th);
        for (auto& p : v)
            p = {b.cx + c * p[0] - sn * p[1], b.cy + sn * p[0] + c * p[1]}; // kept relative to its centroid
        return v;
    };
    // how far the point is outside of the (convex, counter-clockwise) shape's nearest side
    auto outside = [](const std::vector<std::array<double, 2>>& v, double x, double y) {
        double far = -1e30;
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            auto   a = v[i], b = v[(i + 1) % v.size()];
            double ex = b[0] - a[0], ey = b[1] - a[1], l = std::hypot(ex, ey);
            if (l > 0)
                far = std::max(far, ((x - a[0]) * ey - (y - a[1]) * ex) / l);
        }
        return far;
    };
    // how far apart they are, negative if they overlap
    auto distance = [](const std::vector<std::array<double, 2>>& A, const std::vector<std::array<double, 2>>& B, double size) {
        double gap = -1e30;
        for (int k = 0; k < 2; ++k)
        {
            auto &P = k ? B : A, &Q = k ? A : B;
            for (std::size_t i = 0; i < P.size(); ++i)
            {
                auto   a = P[i], b = P[(i + 1) % P.size()];
                double ex = b[0] - a[0], ey = b[1] - a[1], l = std::hypot(ex, ey), near = 1e30;
                if (!(l > 1e-4 * size))
                    continue;
                for (auto q : Q)
                    near = std::min(near, ((q[0] - a[0]) * ey - (q[1] - a[1]) * ex) / l);
                gap = std::max(gap, near);
            }
        }
        return gap;
    };
    // the contact is where the two shapes meet
    auto touching = [&] {
        auto   A = place(t.a), B = place(t.b);
        double pen = (mats[t.a].penetration + mats[t.b].penetration) / 2, size = w.pre[t.a].reach + w.pre[t.b].reach;
        double tol = 2 * pen + 1e-4 * size, gap = distance(A, B, size);
        ctx.count("checks.touching");
        if (gap > tol)
            ctx.violate("contact:apart", fmt("bodies %d and %d are in contact at a distance of %g, the tolerance is %g", t.a, t.b, gap, pen));
        for (int c = 0; c < t.n; ++c)
        {
            double i = outside(A, t.inc[c][0], t.inc[c][1]), r = outside(B, t.ref[c][0], t.ref[c][1]);
            if (std::fabs(i) > tol)
                ctx.violate("contact:place", fmt("contact point %d of bodies %d and %d is %g away from the outline of the first", c, t.a, t.b, i));
            if (std::fabs(r) > tol)
                ctx.violate("contact:place", fmt("contact point %d of bodies %d and %d is %g away from the outline of the second", c, t.a, t.b, r));
        }
        if (std::fabs(std::hypot(t.nx, t.ny) - 1) > 1e-3)
            ctx.violate("contact:normal", fmt("the normal of the contact of bodies %d and %d has length %g", t.a, t.b, std::hypot(t.nx, t.ny)));
    };
    w.before = [&] {
        t           = Touch{};
        int touches = 0;
        for (const Obj& x : s.objs)
        {
            if (x.kind != KContact || !x.exists || s.dead(x.id) || x.contact == nullptr)
                continue;
            auto i = x.contact->contactInfo();
            if (i.nContacts == 0)
                continue;
            ++touches;
            auto cs = x.contact->colliders();
            for (const Obj& y : s.objs)
                if (y.kind == KBody && y.exists && y.body != nullptr)
                {
                    if (y.body == cs[0]->body())
                        t.a = y.id;
                    if (y.body == cs[1]->body())
                        t.b = y.id;
                }
            t.n  = int(i.nContacts);
            t.nx = i.normal[0];
            t.ny = i.normal[1];
            for (int c = 0; c < t.n; ++c)
            {
                t.inc[c] = {i.incContacts[c][0], i.incContacts[c][1]};
                t.ref[c] = {i.refContacts[c][0], i.refContacts[c][1]};
            }
        }
        t.valid = touches == 1 && mats.count(t.a) && mats.count(t.b) && t.a != t.b;
        if (t.valid)
            touching();
        else if (touches == 0 && mats.size() == 2 && moved)
        {
            int    a = mats.begin()->first, b = mats.rbegin()->first;
            double size = w.pre[a].reach + w.pre[b].reach, gap = distance(place(a), place(b), size);
            ctx.count("checks.apart");
            if (gap < -(mats[a].penetration + mats[b].penetration) - 1e-4 * size)
                ctx.violate("contact:missed", fmt("bodies %d and %d overlap by %g without touching each other", a, b, -gap));
        }
    };
    w.afterStep = [&](const Op& op) {
        s.checkFinite();
        double dt = op.arg(0);
        if (!(dt > 0) || !w.gotBefore || !w.gotAfter)
            return;
        moved = mats.size() == 2;
        if (!t.valid)
            return;
        BodyState a0 = w.pre[t.a], b0 = w.pre[t.b], a1 = w.post[t.a], b1 = w.post[t.b];
        Mat       ma = mats[t.a], mb = mats[t.b];
        for (auto* x : {&a0, &b0}) // forces act before contacts are solved
            if (mats[x->id].dominance > 0)
                x->vx += gx * dt, x->vy += gy * dt;
        double e  = combined(ma.bounce, mb.bounce, ma.bounceMode, mb.bounceMode);
        double mu = combined(ma.friction, mb.friction, ma.frictionMode, mb.frictionMode);
        double iA = ma.dominance / a0.m, iB = mb.dominance / b0.m, jA = ma.dominance / a0.I, jB = mb.dominance / b0.I;
        // impulse on the first body
        double px = iA > 0 ? (a1.vx - a0.vx) / iA : -(b1.vx - b0.vx) / iB;
        double py = iA > 0 ? (a1.vy - a0.vy) / iA : -(b1.vy - b0.vy) / iB;
        double nx = t.nx, ny = t.ny, tx = -ny, ty = nx;
        double Jn = px * nx + py * ny, Jt = px * tx + py * ty;

        auto rel = [&](const BodyState& a, const BodyState& b, int c, double ux, double uy) {
            double ra[2] = {t.inc[c][0] - a0.cx, t.inc[c][1] - a0.cy}, rb[2] = {t.ref[c][0] - b0.cx, t.ref[c][1] - b0.cy};
            return ux * ((a.vx - a.w * ra[1]) - (b.vx - b.w * rb[1])) + uy * ((a.vy + a.w * ra[0]) - (b.vy + b.w * rb[0]));
        };
        double v = 0.1; // the speeds involved
        for (int c = 0; c < t.n; ++c)
            v = std::max({v, std::abs(rel(a0, b0, c, nx, ny)), std::abs(rel(a0, b0, c, tx, ty)), std::abs(a0.w) * a0.reach, std::abs(b0.w) * b0.reach});
        v            = std::max({v, a0.speed() * 0.1, b0.speed() * 0.1});
        double mass  = 1 / (iA + iB);
        double slack = 0.004 * v, jslack = 0.004 * v * mass;
        ctx.count("checks.contacts");
        ctx.count(t.n == 2 ? "reach.two-points" : "reach.one-point");
        if (Jn < -jslack)
            ctx.violate("contact:pulls", fmt("the contact of bodies %d and %d pulls them together by %g along its normal (mass %g, speed %g)", t.a, t.b, -Jn, mass, v));
        if (std::abs(Jt) > mu * Jn * (t.n == 2 ? 1.25 : 1) + jslack) // the solver shares the limit between two points only approximately
            ctx.violate("contact:friction", fmt("the contact of bodies %d and %d rubs with %g, its normal impulse is %g and the friction coefficient %g (mass %g, speed %g)", t.a, t.b, Jt, Jn, mu, mass, v));
        // two points (nearly) at the same place are solved as one
        bool same = t.n == 2 && std::hypot(t.inc[0][0] - t.inc[1][0], t.inc[0][1] - t.inc[1][1]) < 0.05 * std::min(a0.reach, b0.reach);
        for (int c = 0; c < t.n && !same; ++c)
        {
            double before = rel(a0, b0, c, nx, ny), after = rel(a1, b1, c, nx, ny);
            if (after < -slack)
                ctx.violate("contact:approach", fmt("bodies %d and %d still approach each other with %g at contact point %d after the step (speed %g)", t.a, t.b, -after, c, v));
            bool fast = before < -1 - 0.01 * v, slow = before > -1 + 0.01 * v;
            if (fast)
            {
                ctx.count("reach.fast");
                if (after < -e * before - slack)
                    ctx.violate("contact:bounce", fmt("bodies %d and %d hit each other at %g and separate at %g, with bounciness %g", t.a, t.b, -before, after, e));
            }
            if (t.n == 1 && fast && after > -e * before + slack)
                ctx.violate("contact:bounce", fmt("bodies %d and %d hit each other at %g and separate at %g, with bounciness %g", t.a, t.b, -before, after, e));
            if (t.n == 1 && slow && Jn > jslack && after > slack)
                ctx.violate("contact:bounce-slow", fmt("bodies %d and %d touched at only %g but separate at %g", t.a, t.b, -before, after));
        }
        if (t.n == 1)
        {
            double sliding = rel(a1, b1, 0, tx, ty);
            if (sliding * Jt > 0 && std::abs(sliding) > 2 * slack && std::abs(Jt) > 2 * jslack)
                ctx.violate("contact:drags", fmt("friction between bodies %d and %d (%g) drives their sliding (%g)", t.a, t.b, Jt, sliding));
            // friction gives up only at its limit
            if (std::abs(sliding) > 3 * slack && std::abs(Jt) < mu * Jn * 0.98 - 2 * jslack)
                ctx.violate("contact:slips", fmt("bodies %d and %d slide at %g although friction (%g) is below its limit %g", t.a, t.b, sliding, Jt, mu * Jn));
        }
        if (e == 0 || (t.n == 1 && mu == 0))
        {
            double before = 0, after = 0, size = 0;
            if (iA > 0)
                before += (a0.vx * a0.vx + a0.vy * a0.vy) / iA / 2 + a0.w * a0.w / jA / 2, after += (a1.vx * a1.vx + a1.vy * a1.vy) / iA / 2 + a1.w * a1.w / jA / 2;
            if (iB > 0)
                before += (b0.vx * b0.vx + b0.vy * b0.vy) / iB / 2 + b0.w * b0.w / jB / 2, after += (b1.vx * b1.vx + b1.vy * b1.vy) / iB / 2 + b1.w * b1.w / jB / 2;
            size = mass * v * v + before * 0.01;
            ctx.count("checks.energy");
            if (after > before + 0.01 * size)
                ctx.violate("contact:energy", fmt("the contact of bodies %d and %d raised their kinetic energy from %g to %g", t.a, t.b, before, after));
        }
        ctx.nontrivial = true;
    };
    w.afterOp = [](const Op&) {};
    for (std::size_t i = 0; i < plan.ops.size(); ++i)
    {
        const Op& op = plan.ops[i];
        ctx.opIndex  = int(i);
        auto body = [&](u64 k) {
            std::vector<int> v = s.living(KBody);
            return s.pickOf(v, k);
        };
        if (op.kind == "solid") // x y theta dominance  n size aspect jit density  bounce mode friction mode  vx vy w
        {
            if (s.living(KBody).size() >= 2 || !(op.arg(5) > 0.1) || !(op.arg(8) > 0.01) || op.arg(6) < 0.1)
                continue;
            simu::BodyDescriptor d;
            d.position    = Vec2{float(op.arg(0)), float(op.arg(1))};
            d.orientation = float(op.arg(2));
            d.dominance   = float(op.arg(3, 1));
            simu::ColliderDescriptor cd{s.shape(op.arg(4), op.arg(5), op.arg(6, 1), op.arg(7), 0, 0), WSim::material(op.arg(8), 0, 0)};
            cd.material.bounciness = simu::CombinableProperty{float(op.arg(9)), simu::CombinableProperty::Mode(op.pick(10) % 4)};
            cd.material.friction   = simu::CombinableProperty{float(op.arg(11)), simu::CombinableProperty::Mode(op.pick(12) % 4)};
            cd.material.penetration.value = float(op.arg(16, 0.005));
            SimBody* b = nullptr;
            {
                EngineScope en;
                b = s.world->makeBody<SimBody>(&s, d);
                b->addCollider(cd);
            }
            s.o(b->id).listed     = true;
            s.o(b->id).structural = d.dominance == 0;
            if (d.dominance != 0)
            {
                b->setVelocity(Vec2{float(op.arg(13)), float(op.arg(14))});
                b->setAngularVelocity(float(op.arg(15)));
            }
            Mat m{op.arg(9), op.arg(11), op.arg(3, 1), int(op.pick(10) % 4), int(op.pick(12) % 4), cd.material.penetration.value, {}};
            for (auto v : cd.polygon.vertexView())
                m.shape.push_back({v[0], v[1]});
            double area = 0, cx = 0, cy = 0;
            for (std::size_t k = 0; k < m.shape.size(); ++k)
            {
                auto   u = m.shape[k], v = m.shape[(k + 1) % m.shape.size()];
                double cr = u[0] * v[1] - u[1] * v[0];
                area += cr, cx += (u[0] + v[0]) * cr, cy += (u[1] + v[1]) * cr;
            }
            for (auto& v : m.shape)
                v = {v[0] - cx / area / 3, v[1] - cy / area / 3};
            mats[b->id] = m;
            ctx.count("op.solid");
        }
        else if (op.kind == "aim") // body speed sideways spin: throws it at the other
        {
            std::vector<int> v = s.living(KBody);
            if (v.size() != 2)
                continue;
            int me = v[op.pick(0) % 2], other = v[1 - op.pick(0) % 2];
            if (mats[me].dominance == 0)
                std::swap(me, other);
            if (mats[me].dominance == 0)
                continue;
            BodyState m = observe(s, me), o = observe(s, other);
            double    dx = o.cx - m.cx, dy = o.cy - m.cy, l = std::hypot(dx, dy);
            if (!(l > 1e-3))
                continue;
            dx /= l, dy /= l;
            s.o(me).body->setVelocity(Vec2{float(o.vx + dx * op.arg(1) - dy * op.arg(2)), float(o.vy + dy * op.arg(1) + dx * op.arg(2))});
            s.o(me).body->setAngularVelocity(float(op.arg(3)));
            ctx.count("op.aim");
        }
        else if (op.kind == "pull") // gx gy: constant acceleration
        {
            if (gx != 0 || gy != 0 || (op.arg(0) == 0 && op.arg(1) == 0))
                continue;
            gx = float(op.arg(0)), gy = float(op.arg(1));
            s.exec(Op{"mkFF", {0, gx, gy}});
        }
        else if (op.kind == "imp")
        {
            int id = body(op.pick(0));
            if (id >= 0 && mats[id].dominance > 0)
                s.o(id).body->applyImpulse(Vec2{float(op.arg(1)), float(op.arg(2))});
        }
        else if (op.kind == "settings" || op.kind == "step" || op.kind == "mkFF")
            w.one(op);
    }
    s.scripts.clear();
    s.destroyWorld();
}

Register c10{Prop{
    "C10",
    [](Rng& r, int tier) {
        Plan p;
        heapCfg(r, p, r.chance(0.5));
        p.add("settings", {double(r.range(30, 60)), double(r.range(0, 4)), r.chance(0.8) ? 1.0 : 0.0, 0});
        bool ground = r.chance(0.5);
        if (ground || r.chance(0.3))
            p.add("pull", {r.chance(0.6) ? 0 : r.uni(-4, 4), -r.uni(2, 12)});
        else
            p.add("mkFF", {0, 0, 0});
        bool   bouncy = r.chance(0.5), rough = !bouncy || r.chance(0.5);
        double size = r.chance(0.8) ? 1 : std::exp(r.uni(-1, 2));
        double pen = r.chance(0.8) ? 0.005 : r.uni(0.002, 0.02);
        auto   solid = [&](double x, double y, double dom, double sz, double vx, double vy) {
            double n = dom == 0 ? 0 : (r.chance(0.5) ? 0.0 : double(r.range(3, 7)));
            p.add("solid", {x, y, dom == 0 ? (r.chance(0.5) ? 0 : r.uni(-0.5, 0.5)) : r.uni(-3, 3), dom, n, sz, dom == 0 ? r.uni(0.1, 0.3) : r.uni(0.6, 1.5), double(r.below(1000)), std::exp(r.uni(-1, 1)),
                            bouncy ? (r.chance(0.2) ? 1 : r.uni(0, 1)) : 0, double(r.below(4)), rough ? r.uni(0, 0.6) : 0, double(r.below(4)), vx, vy, dom == 0 || r.chance(0.5) ? 0 : r.uni(-4, 4), pen});
        };
        double doms[] = {1, 1, 1, 0.5, 2, 0.25};
        if (ground)
        {
            solid(0, -1.5 * size, 0, 20 * size, 0, 0);
            solid(r.uni(-3, 3) * size, r.uni(1.3, 3) * size, 1, size * r.uni(0.6, 1.4), r.chance(0.5) ? 0 : r.uni(-5, 5), r.uni(-4, 0));
        }
        else
        {
            double a = r.uni(-3.1, 3.1), d = size * r.uni(1.5, 2.2), v = r.chance(0.3) ? r.uni(0.2, 1) : r.uni(1, 10);
            solid(0, 0, doms[r.below(6)], size * r.uni(0.6, 1.4), 0, 0);
            solid(d * std::cos(a), d * std::sin(a), doms[r.below(6)], size * r.uni(0.6, 1.4), -v * std::cos(a + r.uni(-0.3, 0.3)), -v * std::sin(a + r.uni(-0.3, 0.3)));
        }
        int n = r.range(10, tier ? 200 : 70);
        for (int i = 0; i < n; ++i)
        {
            switch (r.weighted({20, 1.5, 0.5, 0.5, 0.3}))
            {
                case 0: p.add("step", {r.chance(0.7) ? 1.0 / 60 : r.uni(0.002, 1.0 / 20)}); break;
                case 1: p.add("aim", {double(r.below(2)), r.chance(0.3) ? r.uni(0, 1.2) : r.uni(1, 10), r.chance(0.5) ? 0 : r.uni(-5, 5), r.chance(0.5) ? 0 : r.uni(-4, 4)}); break;
                case 2: p.add("imp", {double(r.below(2)), r.uni(-2, 2), r.uni(-2, 2)}); break;
                case 3: p.add("settings", {double(r.range(30, 60)), double(r.range(0, 4)), r.chance(0.7) ? 1.0 : 0.0, 0}); break;
                default: p.add("step", {0}); break;
            }
        }
        return p;
    },
    execC10}};

} // namespace
} // namespace sim
