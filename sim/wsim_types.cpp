#include "wsim.hpp"

#include <algorithm>

namespace sim
{

// ------------------------------------------------------------------ tracked types
SimBody::SimBody(WSim* sim, const simu::BodyDescriptor& d) : simu::Body{d}, s{sim}
{
    SimScope sc;
    id                  = s->reg(KBody, this);
    s->o(id).body       = this;
    s->o(id).structural = d.dominance == 0.f;
    try
    {
        s->hook(HBodyCtor, id);
    }
    catch (...)
    {
        s->dtor(id);
        throw;
    }
}
SimBody::~SimBody()
{
    SimScope sc;
    s->dtor(id);
}
void SimBody::onConstruction(simu::World& w)
{
    simu::Body::onConstruction(w);
    SimScope sc;
    ++s->o(id).nConstruct;
    s->hook(HBodyConstruct, id);
}
void SimBody::onDestruction(simu::World& w)
{
    simu::Body::onDestruction(w);
    SimScope sc;
    ++s->o(id).nDestruct;
    s->hook(HBodyDestruct, id);
}
void SimBody::onKill()
{
    simu::Body::onKill();
    SimScope sc;
    s->noteKill(id);
    s->hook(HBodyKill, id);
}
bool SimBody::shouldDie() const
{
    return s->o(id).cond || simu::Body::shouldDie();
}
void SimBody::preStep()
{
    simu::Body::preStep();
    SimScope sc;
    ++s->o(id).pre;
    s->hook(HBodyPre, id);
}
void SimBody::postStep()
{
    simu::Body::postStep();
    SimScope sc;
    ++s->o(id).post;
    s->hook(HBodyPost, id);
}

SimContact::SimContact(WSim* sim, simu::Collider& a, simu::Collider& b)
    : simu::ContactConstraint{a, b}, s{sim}, c0{&a}, c1{&b}
{
    SimScope sc;
    id           = s->reg(KContact, this);
    Obj& o       = s->o(id);
    o.contact    = this;
    o.listed     = true;
    auto bodyIdOf = [&](simu::Body* body) {
        for (const Obj& x : s->objs)
            if (x.kind == KBody && x.exists && x.body == body)
                return x.id;
        return -1;
    };
    o.b[0] = bodyIdOf(a.body());
    o.b[1] = bodyIdOf(b.body());
    if (o.b[0] < 0 || o.b[1] < 0)
        s->ctx.violate("contact:unknown-body", "a contact was created for a body that is not in the world");
    try
    {
        s->hook(HCtCtor, id);
    }
    catch (...)
    {
        s->dtor(id);
        throw;
    }
}
SimContact::~SimContact()
{
    SimScope sc;
    s->dtor(id);
}
void SimContact::onConstruction(simu::World& w)
{
    simu::ContactConstraint::onConstruction(w);
    SimScope sc;
    ++s->o(id).nConstruct;
    s->hook(HCtConstruct, id);
    if (s->killContacts)
    {
        EngineScope e;
        this->kill();
    }
}
void SimContact::onDestruction(simu::World& w)
{
    simu::ContactConstraint::onDestruction(w);
    SimScope sc;
    ++s->o(id).nDestruct;
    s->hook(HCtDestruct, id);
}
void SimContact::onKill()
{
    simu::ContactConstraint::onKill();
    SimScope sc;
    s->noteKill(id);
    s->hook(HCtKill, id);
}
bool SimContact::shouldDie() const
{
    return s->o(id).cond || simu::ContactConstraint::shouldDie();
}
void SimContact::preStep()
{
    simu::ContactConstraint::preStep();
    SimScope sc;
    ++s->o(id).pre;
    s->hook(HCtPre, id);
}
void SimContact::postStep()
{
    simu::ContactConstraint::postStep();
    SimScope sc;
    ++s->o(id).post;
    s->hook(HCtPost, id);
}


} // namespace sim
