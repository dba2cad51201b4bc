#include "wsim.hpp"

#include <algorithm>

namespace sim
{

// ------------------------------------------------------------------------ shapes
simu::Polygon
WSim::shape(double n, double size, double aspect, double jit, double ox, double oy, double rot)
{
    simu::Vertices v;
    int            k = int(n);
    double         w = size, h = size * aspect;
    auto           put = [&](double x, double y) {
        double c = std::cos(rot), s = std::sin(rot);
        v.emplace_back(Vec2{float(c * x - s * y + ox), float(s * x + c * y + oy)});
    };
    if (k < 3)
    {
        put(-w / 2, -h / 2);
        put(w / 2, -h / 2);
        put(w / 2, h / 2);
        put(-w / 2, h / 2);
    }
    else
    {
        // vertices on an ellipse: always convex
        Rng    r{u64(jit) + 17};
        double step = 6.283185307179586 / k;
        for (int i = 0; i < k; ++i)
        {
            double a = step * (i + 0.5 * (r.unit() - 0.5));
            put(w / 2 * std::cos(a), h / 2 * std::sin(a));
        }
    }
    return simu::Polygon{v.begin(), v.end()};
}

simu::Material WSim::material(double density, double bounce, double friction)
{
    simu::Material m{};
    m.density    = float(density);
    m.bounciness = simu::CombinableProperty{float(bounce)};
    m.friction   = simu::CombinableProperty{float(friction)};
    return m;
}

// ------------------------------------------------------------------------ creation
// mkBody x y theta dom  n size aspect jit density bounce friction  vx vy w  ox oy
int WSim::mkBody(const Op& op)
{
    simu::BodyDescriptor d;
    d.position    = Vec2{float(op.arg(0)), float(op.arg(1))};
    d.orientation = float(op.arg(2));
    d.dominance   = float(op.arg(3, 1));
    SimBody* b;
    {
        EngineScope e;
        b = world->makeBody<SimBody>(this, d);
    }
    int id       = b->id;
    o(id).listed = true;
    taint(id);
    ctx.ev("mkBody", id);
    if (op.arg(5) > 0)
    {
        simu::ColliderDescriptor cd{
            shape(op.arg(4), op.arg(5), op.arg(6, 1), op.arg(7), op.arg(14), op.arg(15)),
            material(op.arg(8, 1), op.arg(9), op.arg(10))};
        simu::Collider* c = nullptr;
        {
            EngineScope e;
            c = b->addCollider(cd);
        }
        if (onEdit)
            onEdit(id, true, true, c, &cd);
    }
    if (op.arg(11) != 0 || op.arg(12) != 0)
        b->setVelocity(Vec2{float(op.arg(11)), float(op.arg(12))});
    if (op.arg(13) != 0)
        b->setAngularVelocity(float(op.arg(13)));
    ctx.count("op.mkBody");
    return id;
}

// addCol body n size aspect jit density bounce friction ox oy
bool WSim::addCol(const Op& op)
{
    int id = pickOf(living(KBody), op.pick(0));
    if (id < 0)
        return false;
    simu::ColliderDescriptor cd{
        shape(op.arg(1), op.arg(2, 1), op.arg(3, 1), op.arg(4), op.arg(8), op.arg(9)),
        material(op.arg(5, 1), op.arg(6), op.arg(7))};
    taint(id);
    if (onEdit)
        onEdit(id, false, true, nullptr, &cd);
    simu::Collider* c = nullptr;
    {
        EngineScope e;
        c = o(id).body->addCollider(cd);
    }
    if (onEdit)
        onEdit(id, true, true, c, &cd);
    ctx.ev("addCol", id);
    ctx.count("op.addCol");
    return true;
}

// rmCol body collider
bool WSim::rmCol(const Op& op)
{
    int id = pickOf(living(KBody), op.pick(0));
    if (id < 0)
        return false;
    simu::Body* b = o(id).body;
    std::size_t n = nCols(b);
    if (n == 0 || (n == 1 && jointed(id)))
        return false;
    simu::Collider* c = collider(b, op.pick(1));
    taint(id);
    if (onEdit)
        onEdit(id, false, false, c, nullptr);
    {
        EngineScope e;
        b->removeCollider(c);
    }
    if (onEdit)
        onEdit(id, true, false, nullptr, nullptr);
    ctx.ev("rmCol", id);
    ctx.count("op.rmCol");
    return true;
}

// mkCon type b1 b2 px py p3 p4 disables
int WSim::mkCon(const Op& op)
{
    int  type = int(op.arg(0)) % ConTypes;
    bool allowDead = op.arg(8) > 0;

    std::vector<int> cand;
    for (int id : allowDead ? alive(KBody) : living(KBody))
        if (solid(id))
            cand.push_back(id);
    bool motor = type == CRotMotor || type == CTransMotor;
    if (motor)
    {
        std::erase_if(cand, [&](int id) { return o(id).structural; });
        int id = pickOf(cand, op.pick(1));
        if (id < 0)
            return -1;
        simu::Body* body = o(id).body;
        int         cid  = -1;
        EngineScope e;
        if (type == CRotMotor)
            cid = makeRotMotor(*this, body, op.arg(3, 1), op.arg(4, 1), op.arg(5, 1), op.arg(6, 1), int(op.arg(9)));
        else
            cid = makeTransMotor(*this, body, op.arg(3, 1), op.arg(4, 1), op.arg(5, 1), op.arg(6, 0), int(op.arg(9)));
        SimScope sc;
        o(cid).b[0] = id;
        o(cid).b[1] = -1;
        o(cid).listed = true;
        ctx.count("op.mkCon");
        return cid;
    }

    int i0 = pickOf(cand, op.pick(1));
    if (i0 < 0)
        return -1;
    std::erase(cand, i0);
    if (o(i0).structural)
        std::erase_if(cand, [&](int id) { return o(id).structural; });
    int i1 = pickOf(cand, op.pick(2));
    if (i1 < 0)
        return -1;
    if (allowJoint && !allowJoint(i0, i1))
        return -1;

    simu::Body*  b0 = o(i0).body;
    simu::Body*  b1 = o(i1).body;
    simu::Bodies bodies{b0, b1};
    Vec2         off{float(op.arg(3)), float(op.arg(4))};
    bool         disables = op.arg(7) > 0;
    Vec2         mid      = 0.5f * (b0->centroid() + b1->centroid()) + off;
    taint(i0);
    taint(i1);

    int  cid = -1;
    double p5 = op.arg(5), p6 = op.arg(6);
    {
        EngineScope e;
        switch (type)
        {
            case CHinge:
                cid = makeHinge(*this, bodies, mid, disables);
                break;
            case CWeld:
                cid = makeWeld(*this, bodies, disables);
                break;
            case CRot:
                cid = makeRot(*this, bodies, disables);
                break;
            case CDist:
            {
                std::array<Vec2, 2> pts{b0->centroid() + off, b1->centroid() - off};
                float               d = simu::norm(pts[1] - pts[0]);
                if (d < 0.05f)
                {
                    pts[0] = b0->centroid();
                    pts[1] = b1->centroid();
                    d      = simu::norm(pts[1] - pts[0]);
                }
                if (d < 0.05f)
                    return -1;
                std::optional<float> lo, hi;
                if (p5 > 0)
                    lo = d * float(p5);
                if (p6 > 0)
                    hi = d * float(p6);
                if (!lo && !hi)
                    lo = hi = d;
                if (lo && hi && *lo > *hi)
                    std::swap(lo, hi);
                cid = makeDist(*this, bodies, pts, lo, hi, disables);
                break;
            }
            default:
                cid = makeNull(*this, bodies, disables);
                break;
        }
    }
    Obj& c   = o(cid);
    c.b[0]   = i0;
    c.b[1]   = i1;
    c.listed = true;
    ctx.ev("mkCon", cid, i0, i1);
    ctx.count("op.mkCon");
    return cid;
}

// mkFF type fx fy minx miny maxx maxy
int WSim::mkFF(const Op& op)
{
    int  type = int(op.arg(0)) % 5;
    Vec2 f{float(op.arg(1)), float(op.arg(2))};
    auto region = simu::ForceField::region(
        Vec2{float(op.arg(3)), float(op.arg(4))}, Vec2{float(op.arg(5)), float(op.arg(6))}
    );
    int id = -1;
    {
        EngineScope e;
        switch (type)
        {
            case 0: id = world->makeForceField<SimF<simu::Gravity>>(this, f)->id; break;
            case 1: id = world->makeForceField<SimF<simu::LinearField>>(this, f)->id; break;
            case 2: id = world->makeForceField<SimF<simu::LinearField>>(this, f, region)->id; break;
            case 3: id = world->makeForceField<SimF<NullField>>(this, region)->id; break;
            default: id = world->makeForceField<SimF<NullField>>(this, simu::ForceField::global())->id; break;
        }
    }
    Obj& x = o(id);
    x.sub  = type;
    x.par[0] = f[0];
    x.par[1] = f[1];
    x.listed = true;
    ctx.ev("mkFF", id, type);
    ctx.count("op.mkFF");
    return id;
}

void WSim::killObj(int id)
{
    Obj& x = o(id);
    ++x.nKillReq;
    ctx.ev("kill", id);
    EngineScope e;
    x.p->kill();
}

void WSim::query(BoundingBox b)
{
    std::map<simu::Body*, int> got, want;
    for (const Obj& x : objs)
        if (x.kind == KBody && x.exists && x.body != nullptr)
            for (const simu::Collider& c : x.body->colliders())
            {
                BoundingBox cb = c.boundingBox();
                bool        over = b.min()[0] <= cb.max()[0] && cb.min()[0] <= b.max()[0]
                            && b.min()[1] <= cb.max()[1] && cb.min()[1] <= b.max()[1]
                            && b.min()[0] <= b.max()[0] && b.min()[1] <= b.max()[1];
                if (over)
                    ++want[x.body];
            }
    {
        EngineScope e;
        if (b.min()[0] == b.max()[0] && b.min()[1] == b.max()[1])
            world->forEachAt(b.min(), [&](simu::Body* body) {
                SimScope sc;
                ++got[body];
            });
        else
            world->forEachIn(b, [&](simu::Body* body) {
                SimScope sc;
                ++got[body];
            });
    }
    ctx.count("queries");
    if (!want.empty())
        ctx.count("queries.hit");
    if (oracleQueries && got != want)
    {
        std::size_t ng = 0, nw = 0;
        for (auto& g : got)
            ng += std::size_t(g.second);
        for (auto& w : want)
            nw += std::size_t(w.second);
        ctx.violate(
            "query:mismatch",
            fmt("query [%.9g %.9g]-[%.9g %.9g] visited %zu colliders of %zu bodies, expected %zu of %zu (phase %d)",
                b.min()[0], b.min()[1], b.max()[0], b.max()[1], ng, got.size(), nw, want.size(), inStep ? 1 : 0)
        );
    }
}

void WSim::checkQueriesDense(Rng& r, int n)
{
    std::vector<BoundingBox> boxes;
    for (const Obj& x : objs)
        if (x.kind == KBody && x.exists && x.body != nullptr)
            for (const simu::Collider& c : x.body->colliders())
                boxes.push_back(c.boundingBox());
    for (int i = 0; i < n; ++i)
    {
        double t = r.unit();
        if (boxes.empty() || t < 0.3)
        {
            float x = float(r.uni(-12, 12)), y = float(r.uni(-12, 12));
            float w = r.chance(0.2) ? 0.f : float(r.uni(0, 6)), h = r.chance(0.2) ? 0.f : float(r.uni(0, 6));
            query(BoundingBox{Vec2{x, y}, Vec2{x + w, y + h}});
        }
        else
        {
            BoundingBox b = boxes[r.below(boxes.size())];
            // touching exactly at a corner or a side
            Vec2 corner{r.chance(0.5) ? b.min()[0] : b.max()[0], r.chance(0.5) ? b.min()[1] : b.max()[1]};
            if (t < 0.5)
                query(BoundingBox{corner, corner});
            else if (t < 0.65)
                query(b);
            else
            {
                float w = float(r.uni(0, 3)), h = float(r.uni(0, 3));
                Vec2  lo = corner, hi = corner;
                if (corner[0] == b.max()[0])
                    hi[0] += w;
                else
                    lo[0] -= w;
                if (corner[1] == b.max()[1])
                    hi[1] += h;
                else
                    lo[1] -= h;
                query(BoundingBox{lo, hi});
            }
        }
    }
}


} // namespace sim
