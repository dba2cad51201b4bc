#include "wsim.hpp"

#include <algorithm>

namespace sim
{

const char* const hookNames[HookCount] = {
    "bodyPre", "bodyPost", "bodyConstruct", "bodyDestruct", "bodyKill", "bodyCtor",
    "conPre", "conPost", "conConstruct", "conDestruct", "conKill", "conCtor",
    "ffPre", "ffPost", "ffConstruct", "ffDestruct", "ffKill", "ffCtor",
    "ctPre", "ctPost", "ctConstruct", "ctDestruct", "ctKill", "ctCtor",
    "apply", "active", "init", "warm", "vel", "pos", "factory"};

// --------------------------------------------------------------------------- WSim
WSim::WSim(const Plan& p, Ctx& c) : plan{p}, ctx{c} {}
WSim::~WSim()
{
    scripts.clear();
    if (world)
        destroyWorld();
}

simu::World::ContactFactory WSim::factory()
{
    return [this](simu::Collider& a, simu::Collider& b, const simu::World::ContactAlloc& alloc)
               -> simu::UniquePtr<simu::ContactConstraint> {
        {
            SimScope sc;
            hook(HFactory, -1);
        }
        return simu::makeUnique<SimContact>(alloc, this, a, b);
    };
}

void WSim::makeWorld()
{
    EngineScope e;
    if (tracked)
        world.reset(new simu::World(factory()));
    else
        world.reset(new simu::World());
}

void WSim::destroyWorld()
{
    ctx.ev("destroyWorld");
    {
        EngineScope e;
        world.reset();
    }
    for (Obj& x : objs)
        if (x.exists)
            ctx.violate(
                "lifecycle:leaked-object",
                fmt("object %d of kind %d outlived its world", x.id, x.kind)
            );
}

int WSim::reg(int kind, simu::PhysicsObject* p)
{
    Obj x;
    x.kind   = kind;
    x.id     = int(objs.size());
    x.p      = p;
    x.exists = true;
    objs.push_back(x);
    ctx.ev("new", x.id, kind);
    return x.id;
}

void WSim::dtor(int id)
{
    Obj& x = o(id);
    if (!x.exists)
        ctx.violate("lifecycle:double-destroy", fmt("object %d destroyed twice", id));
    ctx.ev("dtor", id, x.kind);
    if (inStep && oracleLifecycle)
    {
        // every object removed by this step was notified before any is released
        if (x.atStart && x.inD)
        {
            for (const Obj& y : objs)
                if (y.inD && y.exists && y.nDestruct == 0)
                    ctx.violate(
                        "lifecycle:released-before-notified",
                        fmt("object %d (kind %d) released while object %d (kind %d), dying in the same step, was not notified",
                            id, x.kind, y.id, y.kind)
                    );
            if (x.nDestruct != 1)
                ctx.violate(
                    "lifecycle:destruct-count",
                    fmt("object %d (kind %d) released after %d destruction notifications", id, x.kind, x.nDestruct)
                );
        }
        else if (x.atStart && !x.killed && !x.cond && !dead(id))
            ctx.violate(
                "lifecycle:alive-removed",
                fmt("object %d (kind %d) was alive and was removed by a step", id, x.kind)
            );
    }
    x.exists = false;
}

void WSim::noteKill(int id)
{
    Obj& x = o(id);
    ++x.nOnKill;
    x.killed = true;
    ctx.ev("onKill", id);
}

bool WSim::dead(int id) const
{
    const Obj& x = o(id);
    if (!x.exists)
        return true;
    if (x.killed || x.cond)
        return true;
    if (x.kind == KCon || x.kind == KContact)
        for (int b : x.b)
            if (b >= 0 && (!o(b).exists || o(b).killed || o(b).cond))
                return true;
    return false;
}

std::vector<int> WSim::alive(int kind) const
{
    std::vector<int> r;
    for (const Obj& x : objs)
        if (x.kind == kind && x.exists && x.listed)
            r.push_back(x.id);
    return r;
}
std::vector<int> WSim::living(int kind) const
{
    std::vector<int> r;
    for (const Obj& x : objs)
        if (x.kind == kind && x.exists && x.listed && !dead(x.id))
            r.push_back(x.id);
    return r;
}

simu::Collider* WSim::collider(simu::Body* b, u64 n)
{
    std::size_t c = nCols(b);
    if (c == 0)
        return nullptr;
    n %= c;
    for (const simu::Collider& x : b->colliders())
        if (n-- == 0)
            return const_cast<simu::Collider*>(&x);
    return nullptr;
}

bool WSim::jointed(int bodyId) const
{
    for (const Obj& x : objs)
        if (x.kind == KCon && x.exists && (x.b[0] == bodyId || x.b[1] == bodyId))
            return true;
    return false;
}

// -------------------------------------------------------------------------- hooks
void WSim::hook(int h, int id)
{
    ctx.ev(hookNames[h], id);
    if (id >= 0 && !o(id).exists)
        ctx.violate(
            "lifecycle:callback-after-destroy",
            fmt("%s called on destroyed object %d", hookNames[h], id)
        );
    if (logCons && (h == HActive || h == HInit || h == HWarm || h == HVel || h == HPos))
        conLog.push_back({h, id});
    if (h == HBodyPost || h == HConPost || h == HCtPost || h == HFFPost)
        phase = 2;
    if (onHook)
        onHook(h, id);
    if (scripts.empty() || depth > 2)
        return;

    ++depth;
    for (std::size_t i = 0; i < scripts.size(); ++i)
    {
        if (scripts[i].hook != h || --scripts[i].countdown != 0)
            continue;

        Op op = scripts[i].op;
        ctx.count(std::string("script.") + hookNames[h] + "." + op.kind);
        ctx.ev("script", h, i64(i));
        if (op.kind == "throw")
        {
            --depth;
            ctx.count(std::string("fault.throw.") + hookNames[h]);
            lastThrow = int(op.arg(0));
            throw UserError{lastThrow};
        }
        execCommon(op, h);
    }
    --depth;
}

// --------------------------------------------------------------------------- ops
bool WSim::execCommon(const Op& op, int h)
{
    const std::string& k = op.kind;

    // within solver/force callbacks only kills and impulses are legitimate
    bool restricted = h == HApply || (h >= HActive && h <= HPos) || h == HFactory
                      || h == HCtCtor || h == HCtConstruct || h == HCtDestruct;
    bool killHook   = h == HBodyKill || h == HConKill || h == HFFKill || h == HCtKill;
    bool destruct   = h == HBodyDestruct || h == HConDestruct || h == HFFDestruct;

    if (k == "kill")
    {
        int id = pickOf(living(int(op.arg(0)) % 4), op.pick(1));
        if (id < 0)
            return true;
        ctx.count("op.kill");
        killObj(id);
        return true;
    }
    if (k == "rekill") // killing what is already dead is allowed
    {
        std::vector<int> v;
        for (int id : alive(int(op.arg(0)) % 4))
            if (o(id).killed)
                v.push_back(id);
        int id = pickOf(v, op.pick(1));
        if (id >= 0)
            killObj(id);
        return true;
    }
    if (k == "cond")
    {
        int id = pickOf(living(int(op.arg(0)) % 4), op.pick(1));
        if (id < 0 || killHook)
            return true;
        ctx.count("op.cond");
        ctx.ev("cond", id);
        o(id).cond = true;
        return true;
    }
    if (killHook)
        return true;

    if (k == "vel" || k == "imp")
    {
        if (h >= HActive && h <= HPos)
            return true; // the solver owns velocities
        int id = pickOf(living(KBody), op.pick(0));
        if (id < 0 || !solid(id) || (k == "imp" && o(id).structural))
            return true;
        simu::Body* b = o(id).body;
        EngineScope e;
        if (k == "vel")
        {
            b->setVelocity(Vec2{float(op.arg(1)), float(op.arg(2))});
            b->setAngularVelocity(float(op.arg(3)));
        }
        else
        {
            float m = b->mass();
            b->applyImpulse(
                m * Vec2{float(op.arg(1)), float(op.arg(2))},
                Vec2{float(op.arg(3)), float(op.arg(4))}
            );
        }
        SimScope sc;
        ctx.count("op." + k);
        return true;
    }
    if (restricted)
        return true;

    if (k == "fail")
    {
        if (onFail && !destruct)
            onFail(op);
        return true;
    }
    if (k == "mkBody")
    {
        mkBody(op);
        return true;
    }
    if (k == "query")
    {
        query(BoundingBox{
            Vec2{float(op.arg(0)), float(op.arg(1))},
            Vec2{float(op.arg(0) + op.arg(2)), float(op.arg(1) + op.arg(3))}});
        return true;
    }
    if (k == "queries")
    {
        Rng r{u64(op.arg(0)) + 5};
        checkQueriesDense(r, int(op.arg(1, 4)));
        return true;
    }
    if (k == "addCol")
    {
        addCol(op);
        return true;
    }
    if (k == "rmCol")
    {
        rmCol(op);
        return true;
    }
    if (k == "mkFF")
    {
        mkFF(op);
        return true;
    }
    if (k == "mkCon")
    {
        if (destruct)
        {
            Op a = op;
            if (a.a.size() > 8)
                a.a[8] = 0;
            mkCon(a);
        }
        else
            mkCon(op);
        return true;
    }
    return false;
}

bool WSim::exec(const Op& op)
{
    const std::string& k = op.kind;
    if (execCommon(op, -1))
        return true;
    if (k == "step")
    {
        step(float(op.arg(0, 1.0 / 60)));
        return true;
    }
    if (k == "on") // on hook countdown kindIndex args... (the sub operation is encoded)
    {
        static const char* const subs[] = {
            "kill", "cond", "mkBody", "addCol", "rmCol", "mkCon", "mkFF", "vel", "imp", "queries", "rekill", "throw", "fail"};
        Script s;
        s.hook      = int(op.arg(0)) % HookCount;
        s.countdown = i64(op.arg(1, 1));
        s.op.kind   = subs[std::size_t(op.arg(2)) % 13];
        for (std::size_t i = 3; i < op.a.size(); ++i)
            s.op.a.push_back(op.a[i]);
        scripts.push_back(s);
        return true;
    }
    if (k == "clear")
    {
        ctx.ev("clear");
        ctx.count("op.clear");
        scripts.clear();
        {
            EngineScope e;
            world->clear();
        }
        for (Obj& x : objs)
            if (x.exists)
                ctx.violate("lifecycle:clear-left", fmt("object %d (kind %d) survived World::clear", x.id, x.kind));
        return true;
    }
    if (k == "factory")
    {
        ctx.count("op.factory");
        ctx.ev("factory");
        for (Obj& x : objs)
            if (x.kind == KContact && x.exists)
                for (int b : x.b)
                    if (b >= 0)
                        tainted.insert(b);
        EngineScope e;
        world->setContactFactory(factory());
        return true;
    }
    if (k == "settings") // nVel nPos warm sleep delay
    {
        simu::World::Settings s;
        s.nVelocityIterations = simu::Uint32(op.arg(0, 8));
        s.nPositionIterations = simu::Uint32(op.arg(1, 2));
        s.enableWarmstarting  = op.arg(2, 1) > 0;
        s.enableSleeping      = op.arg(3, 0) > 0;
        if (op.a.size() > 4)
            s.inactivitySleepDelay = float(op.arg(4));
        if (op.a.size() > 6)
        {
            s.velocitySleepThreshold        = float(op.arg(5));
            s.angularVelocitySleepThreshold = float(op.arg(6));
        }
        EngineScope e;
        world->updateSettings(s);
        return true;
    }
    if (k == "newWorld")
    {
        destroyWorld();
        makeWorld();
        return true;
    }
    if (k == "clock")
    {
        g_clockNs += i64(op.arg(0));
        ctx.count("fault.clockJump");
        return true;
    }
    return false;
}

// -------------------------------------------------------------------------- step
void WSim::step(float dt)
{
    ctx.ev("step", nSteps);
    ctx.evf("dt", dt);
    ++nSteps;
    stepDt = dt;
    if (dt > 0)
        ctx.simTime += dt;
    ctx.count("steps");
    if (dt <= 0)
        ctx.count("fault.zeroStep");
    else if (dt > 0.1f)
        ctx.count("fault.stall");

    tainted.clear();
    for (Obj& x : objs)
    {
        x.pre = x.post = x.active = x.init = x.warm = x.vel = x.pos = x.applied = 0;
        x.atStart = x.exists;
        x.inD     = x.exists && dead(x.id);
    }
    if (ctx.verbose)
        for (Obj& x : objs)
            if (x.kind == KBody && x.exists && x.body != nullptr)
                std::fprintf(stderr, "    body %d at %g %g (%g) vel %g %g (%g) mass %g\n", x.id, x.body->position()[0], x.body->position()[1], x.body->orientation(), x.body->velocity()[0], x.body->velocity()[1], x.body->angularVelocity(), x.body->mass());
    phase  = 1;
    inStep = true;
    struct Reset
    {
        WSim& s;
        ~Reset()
        {
            s.inStep = false;
            s.phase  = 0;
            s.depth  = 0;
            s.scripts.clear();
        }
    };
    double wildBefore = wildness();
    try
    {
        Reset       reset{*this};
        EngineScope e;
        world->step(dt);
    }
    catch (const simu::Exception& e)
    {
        // ill conditioned scenes (extreme mass ratios under contradicting joints) may diverge until the
        // engine's arithmetic assertions fire; that is no concern of the property being simulated (C22
        // judges well posed scenes)
        std::string what = e.what();
        bool numeric = what.find("Matrix.inl.hpp") != std::string::npos || what.find("Bodies.hpp") != std::string::npos
                       || what.find("ConstraintSolver.hpp") != std::string::npos
                       || what.find("Geometry.hpp") != std::string::npos;
        if (!numeric || !tolerateDivergence || wildBefore < 0.05)
            throw;
        ctx.count("ended.numeric");
        ended = true;
        return;
    }
    if (tolerateDivergence && wildness() > 20)
    {
        ctx.count("ended.diverged");
        ended = true;
    }
    if (oracleLifecycle)
        checkStepLifecycle();
}

// How far the scene is from what single precision physics copes with (1: barely)
double WSim::wildness() const
{
    double w = 0, lo = 1e30, hi = 0;
    for (const Obj& x : objs)
        if (x.kind == KBody && x.exists && x.body != nullptr)
        {
            const simu::Body* b = x.body;
            for (double v : {double(b->position()[0]), double(b->position()[1]), double(b->orientation()),
                             double(b->velocity()[0]), double(b->velocity()[1]), double(b->angularVelocity())})
            {
                v = std::abs(v) / 1000;
                if (!(v <= 1e6))
                    v = 1e6;
                w = std::max(w, v);
            }
            if (!x.structural && nCols(b) > 0)
            {
                lo = std::min(lo, double(b->mass()));
                hi = std::max(hi, double(b->mass()));
            }
        }
    if (hi > 20 * lo)
        w = std::max(w, 0.06);
    return w;
}

void WSim::checkStepLifecycle()
{
    for (Obj& x : objs)
    {
        if (!x.atStart)
        {
            if (x.exists && (x.pre > 1 || x.post > 1))
                ctx.violate("lifecycle:step-notifications", fmt("object %d (kind %d), created in this step, got %d pre and %d post notifications", x.id, x.kind, x.pre, x.post));
            continue;
        }
        if (x.inD)
        {
            if (x.exists)
                ctx.violate("lifecycle:dead-kept", fmt("object %d (kind %d) was dead before the step and is still there", x.id, x.kind));
            if (x.nDestruct != 1)
                ctx.violate("lifecycle:destruct-count", fmt("object %d (kind %d) got %d destruction notifications", x.id, x.kind, x.nDestruct));
            if (x.pre != 0 || x.post != 0)
                ctx.violate("lifecycle:step-notifications", fmt("object %d (kind %d) was removed by this step but got step notifications", x.id, x.kind));
            ctx.count("reach.removed");
            x.atStart = x.inD = false;
            continue;
        }
        if (!x.exists)
        {
            x.atStart = false;
            continue; // judged in dtor()
        }
        if (x.nDestruct != 0)
            ctx.violate("lifecycle:destruct-count", fmt("object %d (kind %d) was notified of its destruction but is alive", x.id, x.kind));
        bool lenient = dead(x.id);
        if (x.pre > 1 || x.post > 1 || (!lenient && (x.pre != 1 || x.post != 1)))
            ctx.violate("lifecycle:step-notifications", fmt("object %d (kind %d) got %d pre-step and %d post-step notifications", x.id, x.kind, x.pre, x.post));
    }
    for (Obj& x : objs)
    {
        if (!x.exists)
            continue;
        if (x.listed && x.nConstruct != 1)
            ctx.violate("lifecycle:construct-count", fmt("object %d (kind %d) got %d construction notifications", x.id, x.kind, x.nConstruct));
        if (x.kind != KContact && x.nOnKill != x.nKillReq)
            ctx.violate("lifecycle:kill-count", fmt("object %d (kind %d) was killed %d times and notified %d times", x.id, x.kind, x.nKillReq, x.nOnKill));
        if (x.nOnKill < x.nKillReq)
            ctx.violate("lifecycle:kill-count", fmt("object %d (kind %d) was killed %d times and notified %d times", x.id, x.kind, x.nKillReq, x.nOnKill));
    }
}


} // namespace sim
