#include "wsim.hpp"
namespace sim
{
int makeHinge(WSim& s, const simu::Bodies& b, Vec2 p, bool disables)
{
    return s.world->makeConstraint<SimC<simu::HingeConstraint>>(&s, int(CHinge), b, p, disables)->id;
}
int makeRot(WSim& s, const simu::Bodies& b, bool disables)
{
    return s.world->makeConstraint<SimC<simu::RotationConstraint>>(&s, int(CRot), b, disables)->id;
}
} // namespace sim
