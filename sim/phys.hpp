// Observation of a step: the state right before forces are applied and right after bodies moved
#pragma once
#include "wsim.hpp"
#include "gen.hpp"

namespace sim
{

struct BodyState
{
    int    id = 0;
    double px = 0, py = 0, th = 0, vx = 0, vy = 0, w = 0, cx = 0, cy = 0, m = 0, I = 0;
    float  raw[6] = {};
    bool   structural = false, asleep = false;
    int    nContacts = 0, nCons = 0, nCols = 0;
    double reach = 0; // farthest distance of its geometry from its centroid

    double speed() const { return std::hypot(vx, vy); }
    bool   samePose(const BodyState& o) const { return std::memcmp(raw, o.raw, 3 * sizeof(float)) == 0; }
    bool   sameVel(const BodyState& o) const { return std::memcmp(raw + 3, o.raw + 3, 3 * sizeof(float)) == 0; }
};

inline BodyState observe(const WSim& s, int id)
{
    const Obj&  x = s.o(id);
    BodyState   r;
    simu::Body* b = x.body;
    r.id  = id;
    r.raw[0] = b->position()[0];
    r.raw[1] = b->position()[1];
    r.raw[2] = b->orientation();
    r.raw[3] = b->velocity()[0];
    r.raw[4] = b->velocity()[1];
    r.raw[5] = b->angularVelocity();
    r.px = r.raw[0];
    r.py = r.raw[1];
    r.th = r.raw[2];
    r.vx = r.raw[3];
    r.vy = r.raw[4];
    r.w  = r.raw[5];
    r.structural = x.structural;
    r.asleep     = b->isAsleep();
    r.nCols      = int(WSim::nCols(b));
    r.cx = b->centroid()[0];
    r.cy = b->centroid()[1];
    if (r.nCols > 0)
    {
        r.m = b->mass();
        r.I = b->inertia();
    }
    for (auto* c : b->contacts())
    {
        (void)c;
        ++r.nContacts;
    }
    for (auto* c : b->constraints())
    {
        (void)c;
        ++r.nCons;
    }
    for (const simu::Collider& c : b->colliders())
        for (const simu::Vertex& v : c)
            r.reach = std::max(r.reach, std::hypot(double(v[0]) - r.cx, double(v[1]) - r.cy));
    return r;
}

typedef std::map<int, BodyState> Snap;

inline Snap snapshot(const WSim& s)
{
    Snap r;
    for (const Obj& x : s.objs)
        if (x.kind == KBody && x.exists && x.body != nullptr)
            r[x.id] = observe(s, x.id);
    return r;
}

inline std::vector<int> range(int n)
{
    std::vector<int> v;
    for (int i = 0; i < n; ++i)
        v.push_back(i);
    return v;
}

// Runs a history and calls `before` when all preStep notifications were delivered (the world needs at
// least one force field) and `after` when bodies moved and contacts were found, before any postStep.
struct Watch
{
    explicit Watch(WSim& sim) : s{sim}
    {
        s.onHook = [this](int h, int id) {
            if (!s.inStep)
                return;
            if (h == HFFPre && !gotBefore)
            {
                gotBefore = true;
                pre       = snapshot(s);
                if (before)
                    before();
            }
            else if (h == HBodyPost && gotBefore && !gotAfter)
            {
                gotAfter = true;
                post     = snapshot(s);
                if (after)
                    after();
            }
            if (other)
                other(h, id);
        };
    }

    void arm()
    {
        gotBefore = gotAfter = false;
    }

    // returns false when the run has to stop
    bool run(const Plan& plan, Ctx& ctx)
    {
        for (std::size_t i = 0; i < plan.ops.size(); ++i)
        {
            ctx.opIndex = int(i);
            if (!one(plan.ops[i]))
                return false;
        }
        return true;
    }
    bool one(const Op& op)
    {
        if (op.kind == "step")
        {
            arm();
            startSnap = snapshot(s);
            s.exec(op);
            if (s.ended)
                return false;
            if (op.arg(0) > 0)
                s.signature();
            if (afterStep)
                afterStep(op);
        }
        else
        {
            s.exec(op);
            if (afterOp)
                afterOp(op);
        }
        return !s.ended;
    }

    WSim& s;
    Snap  pre, post, startSnap;
    bool  gotBefore = false, gotAfter = false;

    std::function<void()>           before, after;
    std::function<void(int, int)>   other;
    std::function<void(const Op&)>  afterStep, afterOp;
};

} // namespace sim
