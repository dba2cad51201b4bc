#include "wsim.hpp"
namespace sim
{
int makeDist(WSim& s, const simu::Bodies& b, std::array<Vec2, 2> pts, std::optional<float> lo, std::optional<float> hi, bool disables)
{
    return s.world->makeConstraint<SimC<simu::DistanceConstraint>>(&s, int(CDist), b, pts, lo, hi, disables)->id;
}
int makeNull(WSim& s, const simu::Bodies& b, bool disables)
{
    return s.world->makeConstraint<SimC<NullConstraint>>(&s, int(CProbe), b, disables)->id;
}
} // namespace sim
