#include "wsim.hpp"
namespace sim
{
namespace
{
// spec: 0 force or torque, 1 acceleration of the body, 2 acceleration of a given mass, 3 force at a radius
constexpr float target = 1.7f, radius = 0.4f;
} // namespace

int makeRotMotor(WSim& s, simu::Body* b, double maxVel, double maxTorque, double throttle, double dir, int spec)
{
    typedef simu::RotationMotor::Specs Specs;

    float  v = float(maxVel), t = float(maxTorque);
    Specs  specs = Specs::fromTorque(v, t);
    double limit = t;
    if (spec == 1)
    {
        specs = Specs::fromAccel(v, t);
        limit = double(t) * b->inertia();
    }
    else if (spec == 2)
    {
        specs = Specs::fromAccel(v, t, target);
        limit = double(t) * target;
    }
    else if (spec == 3)
    {
        specs = Specs::fromTargetForce(v, radius, t);
        limit = double(t) * radius;
    }
    auto* c = s.world->makeConstraint<SimC<simu::RotationMotor>>(&s, int(CRotMotor), simu::Bodies::singleBody(b), specs);
    c->throttle(float(throttle));
    c->direction(simu::RotationMotor::Value{dir < 0 ? -1.f : 1.f});
    SimScope sc;
    Obj&     o = s.o(c->id);
    o.par[0]   = v;
    o.par[1]   = limit;
    o.par[2]   = throttle;
    o.par[3]   = dir < 0 ? -1 : 1;
    o.setThrottle  = [c](float x) { c->throttle(x); };
    o.setDirection = [c](Vec2 d) { c->direction(simu::RotationMotor::Value{d[0]}); };
    return c->id;
}
int makeTransMotor(WSim& s, simu::Body* b, double maxVel, double maxForce, double throttle, double angle, int spec)
{
    typedef simu::TranslationMotor::Specs Specs;

    float  v = float(maxVel), f = float(maxForce);
    Specs  specs = Specs::fromForce(v, f);
    double limit = f;
    if (spec == 1)
    {
        specs = Specs::fromAccel(v, f);
        limit = double(f) * b->mass();
    }
    else if (spec == 2)
    {
        specs = Specs::fromAccel(v, f, target);
        limit = double(f) * target;
    }
    auto* c = s.world->makeConstraint<SimC<simu::TranslationMotor>>(&s, int(CTransMotor), simu::Bodies::singleBody(b), specs);
    c->throttle(float(throttle));
    c->direction(simu::TranslationMotor::Value{float(std::cos(angle)), float(std::sin(angle))});
    SimScope sc;
    Obj&     o = s.o(c->id);
    o.par[0]   = v;
    o.par[1]   = limit;
    o.par[2]   = throttle;
    o.par[3]   = std::cos(angle);
    o.par[4]   = std::sin(angle);
    o.setThrottle  = [c](float x) { c->throttle(x); };
    o.setDirection = [c](Vec2 d) { c->direction(simu::TranslationMotor::Value{d[0], d[1]}); };
    return c->id;
}
} // namespace sim
