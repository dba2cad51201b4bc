#include "wsim.hpp"
namespace sim
{
int makeWeld(WSim& s, const simu::Bodies& b, bool disables)
{
    return s.world->makeConstraint<SimC<simu::WeldConstraint>>(&s, int(CWeld), b, disables)->id;
}
} // namespace sim
