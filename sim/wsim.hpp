// World simulator: interprets plans against a real simu::World through its public API,
// with tracked bodies, constraints, force fields and contacts whose callbacks the plan scripts.
#pragma once

#include "core.hpp"

#include <deque>
#include <memory>
#include <optional>
#include <set>

#include "Simu/physics.hpp"
#include "Simu/physics/World.hpp"
#include "Simu/physics/Constraint.hpp"
#include "Simu/physics/DistanceConstraint.hpp"
#include "Simu/physics/Motors.hpp"
#include "Simu/physics/ForceField.hpp"
#include "Simu/math/Random.hpp"

namespace sim
{

using simu::BoundingBox;
using simu::Vec2;

enum Kind
{
    KBody    = 0,
    KCon     = 1,
    KFF      = 2,
    KContact = 3
};

enum Hook
{
    HBodyPre, HBodyPost, HBodyConstruct, HBodyDestruct, HBodyKill, HBodyCtor,
    HConPre, HConPost, HConConstruct, HConDestruct, HConKill, HConCtor,
    HFFPre, HFFPost, HFFConstruct, HFFDestruct, HFFKill, HFFCtor,
    HCtPre, HCtPost, HCtConstruct, HCtDestruct, HCtKill, HCtCtor,
    HApply, HActive, HInit, HWarm, HVel, HPos, HFactory,
    HookCount
};
extern const char* const hookNames[HookCount];

// Thrown by scripted callbacks
struct UserError
{
    int tag;
};

enum ConType
{
    CHinge, CWeld, CRot, CDist, CRotMotor, CTransMotor, CProbe, ConTypes
};

class WSim;

struct Obj
{
    int                      kind = 0, id = 0, sub = 0;
    simu::PhysicsObject*     p       = nullptr;
    simu::Body*              body    = nullptr;
    simu::Constraint*        con     = nullptr;
    simu::ForceField*        ff      = nullptr;
    simu::ContactConstraint* contact = nullptr;

    bool exists    = false; // C++ object alive
    bool listed    = false; // creation reached the caller (or the engine, for contacts)
    bool killed    = false;
    bool cond      = false; // own death condition holds
    bool structural = false;
    int  b[2]      = {-1, -1};

    int nConstruct = 0, nDestruct = 0, nKillReq = 0, nOnKill = 0;

    // current step
    int  pre = 0, post = 0;
    bool atStart = false, inD = false;
    int  active = 0, init = 0, warm = 0, vel = 0, pos = 0, applied = 0;
    bool isActive = true;

    // joints: how they were made
    double par[8] = {};
    std::function<void(float)> setThrottle;
    std::function<void(Vec2)>  setDirection;
};

// ------------------------------------------------------------------ tracked types
class SimBody : public simu::Body
{
public:

    SimBody(WSim* s, const simu::BodyDescriptor& d);
    ~SimBody() override;

    void onConstruction(simu::World& w) override;
    void onDestruction(simu::World& w) override;
    void onKill() override;
    bool shouldDie() const override;
    void preStep() override;
    void postStep() override;

    WSim* s;
    int   id;
};

template <class Base>
class SimC : public Base
{
public:

    template <class... A>
    SimC(WSim* sim, int sub, A&&... a);
    ~SimC() override;

    void onConstruction(simu::World& w) override;
    void onDestruction(simu::World& w) override;
    void onKill() override;
    bool shouldDie() const override;
    void preStep() override;
    void postStep() override;

    bool isActive(const simu::Proxies& p) override;
    void initSolve(const simu::Proxies& p) override;
    void warmstart(simu::Proxies& p, float dt) override;
    void solveVelocities(simu::Proxies& p, float dt) override;
    void solvePositions(simu::Proxies& p) override;

    WSim* s;
    int   id;
};

// A constraint that does nothing (but may be scripted)
class NullConstraint : public simu::Constraint
{
public:

    NullConstraint(const simu::Bodies& b, bool disables) : simu::Constraint{b, disables} {}
    bool isActive(const simu::Proxies&) override { return true; }
    void initSolve(const simu::Proxies&) override {}
    void warmstart(simu::Proxies&, float) override {}
    void solveVelocities(simu::Proxies&, float) override {}
    void solvePositions(simu::Proxies&) override {}
};

template <class Base>
class SimF : public Base
{
public:

    template <class... A>
    SimF(WSim* sim, A&&... a);
    ~SimF() override;

    void onConstruction(simu::World& w) override;
    void onDestruction(simu::World& w) override;
    void onKill() override;
    bool shouldDie() const override;
    void preStep() override;
    void postStep() override;
    void apply(simu::Collider& c, float dt) const override;

    WSim* s;
    int   id;
};

class NullField : public simu::ForceField
{
public:

    using simu::ForceField::ForceField;
    void apply(simu::Collider&, float) const override {}
};

class SimContact : public simu::ContactConstraint
{
public:

    SimContact(WSim* s, simu::Collider& a, simu::Collider& b);
    ~SimContact() override;

    void onConstruction(simu::World& w) override;
    void onDestruction(simu::World& w) override;
    void onKill() override;
    bool shouldDie() const override;
    void preStep() override;
    void postStep() override;

    WSim*           s;
    int             id;
    simu::Collider* c0; // only compared, never followed
    simu::Collider* c1;
};

struct Script
{
    int hook;
    i64 countdown; // fires when it reaches 0
    Op  op;
};

// A recorded application of a force field
struct Applied
{
    int                   ff;
    const simu::Collider* c;
    float                 dt;
};

class WSim
{
public:

    WSim(const Plan& plan, Ctx& ctx);
    ~WSim();

    void makeWorld();
    void destroyWorld();

    // executes one operation; false if unknown
    bool exec(const Op& op);
    bool execCommon(const Op& op, int hook); // hook == -1: top level
    void step(float dt);
    double wildness() const;
    bool   tolerateDivergence = false;
    bool   ended              = false; // the run stops here

    // ------------------------------------------------------------- ops by name
    int  mkBody(const Op& op);
    int  mkCon(const Op& op);
    int  mkFF(const Op& op);
    bool addCol(const Op& op);
    bool rmCol(const Op& op);
    void killObj(int id);
    void query(BoundingBox b);

    // --------------------------------------------------------------- selection
    std::vector<int> alive(int kind) const; // existing and listed, in creation order
    std::vector<int> living(int kind) const; // of those, the ones that are not dead
    int              pickOf(const std::vector<int>& v, u64 n) const
    {
        return v.empty() ? -1 : v[n % v.size()];
    }
    bool dead(int id) const;
    Obj& o(int id) { return objs[std::size_t(id)]; }
    const Obj& o(int id) const { return objs[std::size_t(id)]; }
    static std::size_t nCols(const simu::Body* b)
    {
        std::size_t n = 0;
        for (const auto& c : b->colliders())
        {
            (void)c;
            ++n;
        }
        return n;
    }
    bool solid(int id) const { return nCols(o(id).body) > 0; }
    simu::Collider* collider(simu::Body* b, u64 n);
    bool            jointed(int bodyId) const; // by any existing constraint (not contacts)

    // ------------------------------------------------------------------ oracles
    void checkRefs();     // C02
    void checkContacts(); // C03, right after a step with dt > 0
    void checkStepLifecycle();
    void checkQueriesDense(Rng& r, int n); // C04
    void checkFinite();
    void signature(); // reached state

    // ------------------------------------------------------------------ callbacks
    int  reg(int kind, simu::PhysicsObject* p);
    void dtor(int id);
    void hook(int h, int id);
    void compareProxies(int id, const simu::Proxies& p);
    void noteKill(int id);

    const Plan& plan;
    Ctx&        ctx;

    std::unique_ptr<simu::World> world;
    std::deque<Obj>              objs;
    std::vector<Script>          scripts;
    std::set<int>                tainted; // bodies edited since this step's collision pass
    void taint(int id)
    {
        if (!inStep || phase == 2)
            tainted.insert(id);
        else
            ctx.count("reach.editBeforeCollision");
    }
    std::vector<Applied>         applications;
    std::vector<std::pair<int, int>> conLog; // (hook, constraint) in order, when logCons
    bool logCons  = false;
    bool logApply = false;
    bool checkProxies = false; // what constraints are given is their bodies' state

    bool inStep      = false;
    bool inHookPhase = false; // within a pre/post/construct/destruct hook
    int  phase       = 0;     // 0 outside, 1 before collision, 2 after (post hooks)
    float stepDt     = 0;
    int  depth       = 0;
    int  nSteps      = 0;
    bool tracked     = true;  // contacts are SimContact
    bool killContacts = false; // contacts die as soon as they are created
    int  ctFilter    = 0;

    // called by hook()
    std::function<void(int h, int id)> onHook;
    // around every solver call of a joint or motor: hook, constraint, whether it returned
    std::function<void(int h, int id, bool after, const simu::Proxies& p)> onProxies;
    // around every collider edit: body, whether it is done, the collider that is added (after) or removed (before)
    std::function<void(int id, bool after, bool add, simu::Collider* c, const simu::ColliderDescriptor* d)> onEdit;
    // whether these bodies may be joined
    std::function<bool(int, int)> allowJoint;
    // a call that is made to fail (within callbacks, too)
    std::function<void(const Op&)> onFail;
    int lastThrow = -1; // tag of the last scripted exception
    // extra behaviour of contact construction
    bool oracleLifecycle = true;
    bool oracleQueries   = false; // queries are judged (they are always executed)

    simu::World::ContactFactory factory();
    static simu::Polygon shape(double n, double size, double aspect, double jit, double ox, double oy, double rot = 0);
    static simu::Material material(double density, double bounce, double friction);
};

// constraint factories, one translation unit each (they are expensive to compile)
int makeHinge(WSim& s, const simu::Bodies& b, Vec2 p, bool disables);
int makeWeld(WSim& s, const simu::Bodies& b, bool disables);
int makeRot(WSim& s, const simu::Bodies& b, bool disables);
int makeDist(WSim& s, const simu::Bodies& b, std::array<Vec2, 2> pts, std::optional<float> lo, std::optional<float> hi, bool disables);
int makeRotMotor(WSim& s, simu::Body* b, double maxVel, double maxTorque, double throttle, double dir, int spec = 0);
int makeTransMotor(WSim& s, simu::Body* b, double maxVel, double maxForce, double throttle, double angle, int spec = 0);
int makeNull(WSim& s, const simu::Bodies& b, bool disables);

// ---------------------------------------------------------------- templates
template <class Base>
template <class... A>
SimC<Base>::SimC(WSim* sim, int sub, A&&... a) : Base(std::forward<A>(a)...), s{sim}
{
    SimScope sc;
    id        = s->reg(KCon, this);
    Obj& o    = s->o(id);
    o.con     = this;
    o.sub     = sub;
    try
    {
        s->hook(HConCtor, id);
    }
    catch (...)
    {
        s->dtor(id);
        throw;
    }
}
template <class Base>
SimC<Base>::~SimC()
{
    SimScope sc;
    s->dtor(id);
}
template <class Base>
void SimC<Base>::onConstruction(simu::World& w)
{
    Base::onConstruction(w);
    SimScope sc;
    ++s->o(id).nConstruct;
    s->hook(HConConstruct, id);
}
template <class Base>
void SimC<Base>::onDestruction(simu::World& w)
{
    Base::onDestruction(w);
    SimScope sc;
    ++s->o(id).nDestruct;
    s->hook(HConDestruct, id);
}
template <class Base>
void SimC<Base>::onKill()
{
    Base::onKill();
    SimScope sc;
    s->noteKill(id);
    s->hook(HConKill, id);
}
template <class Base>
bool SimC<Base>::shouldDie() const
{
    return s->o(id).cond || Base::shouldDie();
}
template <class Base>
void SimC<Base>::preStep()
{
    Base::preStep();
    SimScope sc;
    ++s->o(id).pre;
    s->hook(HConPre, id);
}
template <class Base>
void SimC<Base>::postStep()
{
    Base::postStep();
    SimScope sc;
    ++s->o(id).post;
    s->hook(HConPost, id);
}
template <class Base>
bool SimC<Base>::isActive(const simu::Proxies& p)
{
    bool r = Base::isActive(p);
    SimScope sc;
    Obj& o = s->o(id);
    ++o.active;
    if (o.par[7] != 0) // scripted inactivity
        r = false;
    o.isActive = r;
    s->hook(HActive, id);
    return r;
}
template <class Base>
void SimC<Base>::initSolve(const simu::Proxies& p)
{
    if (s->checkProxies)
        s->compareProxies(id, p);
    if (s->onProxies)
        s->onProxies(HInit, id, false, p);
    Base::initSolve(p);
    if (s->onProxies)
        s->onProxies(HInit, id, true, p);
    SimScope sc;
    ++s->o(id).init;
    s->hook(HInit, id);
}
template <class Base>
void SimC<Base>::warmstart(simu::Proxies& p, float dt)
{
    if (s->onProxies)
        s->onProxies(HWarm, id, false, p);
    Base::warmstart(p, dt);
    if (s->onProxies)
        s->onProxies(HWarm, id, true, p);
    SimScope sc;
    ++s->o(id).warm;
    if (dt != s->stepDt)
        s->ctx.violate("solve:dt", "warmstart received another duration than the step's");
    s->hook(HWarm, id);
}
template <class Base>
void SimC<Base>::solveVelocities(simu::Proxies& p, float dt)
{
    if (s->onProxies)
        s->onProxies(HVel, id, false, p);
    Base::solveVelocities(p, dt);
    if (s->onProxies)
        s->onProxies(HVel, id, true, p);
    SimScope sc;
    ++s->o(id).vel;
    if (dt != s->stepDt)
        s->ctx.violate("solve:dt", "solveVelocities received another duration than the step's");
    s->hook(HVel, id);
}
template <class Base>
void SimC<Base>::solvePositions(simu::Proxies& p)
{
    if (s->onProxies)
        s->onProxies(HPos, id, false, p);
    Base::solvePositions(p);
    if (s->onProxies)
        s->onProxies(HPos, id, true, p);
    SimScope sc;
    ++s->o(id).pos;
    s->hook(HPos, id);
}

template <class Base>
template <class... A>
SimF<Base>::SimF(WSim* sim, A&&... a) : Base(std::forward<A>(a)...), s{sim}
{
    SimScope sc;
    id         = s->reg(KFF, this);
    s->o(id).ff = this;
    try
    {
        s->hook(HFFCtor, id);
    }
    catch (...)
    {
        s->dtor(id);
        throw;
    }
}
template <class Base>
SimF<Base>::~SimF()
{
    SimScope sc;
    s->dtor(id);
}
template <class Base>
void SimF<Base>::onConstruction(simu::World& w)
{
    Base::onConstruction(w);
    SimScope sc;
    ++s->o(id).nConstruct;
    s->hook(HFFConstruct, id);
}
template <class Base>
void SimF<Base>::onDestruction(simu::World& w)
{
    Base::onDestruction(w);
    SimScope sc;
    ++s->o(id).nDestruct;
    s->hook(HFFDestruct, id);
}
template <class Base>
void SimF<Base>::onKill()
{
    Base::onKill();
    SimScope sc;
    s->noteKill(id);
    s->hook(HFFKill, id);
}
template <class Base>
bool SimF<Base>::shouldDie() const
{
    return s->o(id).cond || Base::shouldDie();
}
template <class Base>
void SimF<Base>::preStep()
{
    Base::preStep();
    SimScope sc;
    ++s->o(id).pre;
    s->hook(HFFPre, id);
}
template <class Base>
void SimF<Base>::postStep()
{
    Base::postStep();
    SimScope sc;
    ++s->o(id).post;
    s->hook(HFFPost, id);
}
template <class Base>
void SimF<Base>::apply(simu::Collider& c, float dt) const
{
    Base::apply(c, dt);
    SimScope sc;
    ++s->o(id).applied;
    if (s->logApply)
        s->applications.push_back(Applied{id, &c, dt});
    s->hook(HApply, id);
}

} // namespace sim
