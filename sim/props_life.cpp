// C01 lifecycle, C02 references, C03 contact set, C04 queries
#include "wsim.hpp"
#include "gen.hpp"

namespace sim
{
namespace
{

const std::vector<int> lifeHooks{
    HBodyPre, HBodyPost, HBodyConstruct, HBodyDestruct, HBodyKill, HConPre, HConPost, HConConstruct, HConDestruct,
    HConKill, HFFPre, HFFPost, HFFConstruct, HFFDestruct, HFFKill, HCtPre, HCtPost, HCtConstruct, HCtDestruct,
    HCtKill, HApply, HActive, HInit, HWarm, HVel, HPos};

const std::vector<int> stepHooks{HBodyPre, HBodyPost, HConPre, HConPost, HFFPre, HFFPost, HCtPre, HCtPost};

struct Opt
{
    bool life = false;
    bool refs = false, contacts = false, queries = false;
};

void execHistory(const Plan& plan, Ctx& ctx, Opt opt)
{
    WSim s{plan, ctx};
    s.oracleQueries   = opt.queries;
    s.tolerateDivergence = true;
    s.oracleLifecycle = opt.life;
    s.makeWorld();
    bool any = false;
    for (std::size_t i = 0; i < plan.ops.size(); ++i)
    {
        const Op& op = plan.ops[i];
        ctx.opIndex  = int(i);
        s.exec(op);
        if (s.ended)
            break;
        if (op.kind == "on")
            continue;
        if (opt.refs)
            s.checkRefs();
        if (opt.queries)
        {
            Rng r{u64(i) * 977 + 13};
            s.checkQueriesDense(r, op.kind == "step" ? 3 : 5);
        }
        if (op.kind == "step")
        {
            if (opt.contacts && op.arg(0) > 0)
                s.checkContacts();
            s.signature();
            any = any || s.alive(KBody).size() > 1;
        }
    }
    ctx.nontrivial = any;
    s.destroyWorld();
}

Register c01{Prop{
    "C01",
    [](Rng& r, int tier) {
        HistoryCfg c;
        c.maxOps = tier ? 160 : 70;
        return history(r, c, lifeHooks, false);
    },
    [](const Plan& p, Ctx& ctx) { execHistory(p, ctx, Opt{true}); }}};

Register c02{Prop{
    "C02",
    [](Rng& r, int tier) {
        HistoryCfg c;
        c.maxOps   = tier ? 160 : 60;
        c.wFactory = 0.5;
        c.wClear   = 0.2;
        c.wAdd     = 2.5;
        c.wRm      = 2.5;
        Plan p = history(r, c, lifeHooks, false);
        if (r.chance(0.2))
            replaceInStep(r, p, true);
        return p;
    },
    [](const Plan& p, Ctx& ctx) { execHistory(p, ctx, Opt{false, true, false, false}); }}};

Register c03{Prop{
    "C03",
    [](Rng& r, int tier) {
        HistoryCfg c;
        c.maxOps = tier ? 160 : 60;
        c.wBody  = 4;
        c.wCon   = 4;
        Plan p = history(r, c, r.chance(0.5) ? stepHooks : lifeHooks, false);
        if (r.chance(0.3))
            replaceInStep(r, p, false);
        return p;
    },
    [](const Plan& p, Ctx& ctx) { execHistory(p, ctx, Opt{false, false, true, false}); }}};

Register c04{Prop{
    "C04",
    [](Rng& r, int tier) {
        HistoryCfg c;
        c.maxOps = tier ? 160 : 60;
        c.wAdd   = 3;
        c.wRm    = 3;
        c.wBody  = 4;
        return history(r, c, stepHooks, false);
    },
    [](const Plan& p, Ctx& ctx) { execHistory(p, ctx, Opt{false, false, false, true}); }}};

} // namespace
} // namespace sim
