// Shared plan generators
#pragma once
#include "core.hpp"

namespace sim
{

struct HistoryCfg
{
    int    minOps = 20, maxOps = 60;
    double area = 5;
    double pStructural = 0.25;
    double wStep = 10, wBody = 3, wCon = 2.5, wFF = 0.7, wKill = 2.5, wCond = 1, wAdd = 1.5, wRm = 1.5;
    double wVel = 2, wImp = 1, wOn = 3, wFactory = 0.15, wClear = 0.1, wQuery = 1, wSettings = 0.2, wRekill = 0.2, wNewWorld = 0;
    double pZero = 0.08, pStall = 0.06;
    bool   gravity  = true;
    bool   initial  = true;
    double pThrow   = 0;
    int    maxBodies = 12;
    double pSleep = 0.25;
};

inline double rsize(Rng& r) { return r.chance(0.1) ? r.uni(0.2, 0.4) : r.uni(0.4, 2.0); }

inline std::vector<double> shapeArgs(Rng& r)
{
    double n = r.chance(0.5) ? 0 : double(r.range(3, 7));
    return {n, rsize(r), r.uni(0.5, 1.6), double(r.below(1000))};
}

// at rest, sliding, spinning, both, sometimes along an axis only
inline std::vector<double> velocity(Rng& r, double pRest)
{
    std::vector<double> v{r.uni(-4, 4), r.uni(-4, 4), r.uni(-4, 4)};
    if (r.chance(pRest))
        return {0, 0, 0};
    switch (r.below(8))
    {
        case 0: v[0] = v[1] = 0; break;
        case 1:
        case 2:
        case 3: v[2] = 0; break;
        case 4: v[r.below(2)] = 0; break;
        default: break;
    }
    return v;
}

inline std::vector<double> bodyArgs(Rng& r, const HistoryCfg& c)
{
    std::vector<double> a{
        r.uni(-c.area, c.area),
        r.uni(-c.area, c.area),
        r.chance(0.4) ? 0.0 : r.uni(-3.1, 3.1),
        r.chance(c.pStructural) ? 0.0 : 1.0};
    for (double d : shapeArgs(r))
        a.push_back(d);
    if (r.chance(0.04))
        a[5] = 0; // no collider
    a.push_back(r.uni(0.3, 3));
    a.push_back(r.chance(0.5) ? 0 : r.uni(0, 1));
    a.push_back(r.chance(0.3) ? 0 : r.uni(0, 1));
    for (double v : velocity(r, 0.5))
        a.push_back(v);
    bool off = r.chance(0.3);
    a.push_back(off ? r.uni(-1, 1) : 0);
    a.push_back(off ? r.uni(-1, 1) : 0);
    return a;
}

inline std::vector<double> addColArgs(Rng& r)
{
    std::vector<double> a{double(r.below(64))};
    for (double d : shapeArgs(r))
        a.push_back(d);
    a.push_back(r.uni(0.3, 3));
    a.push_back(r.chance(0.5) ? 0 : r.uni(0, 1));
    a.push_back(r.uni(0, 1));
    a.push_back(r.uni(-1.5, 1.5));
    a.push_back(r.uni(-1.5, 1.5));
    return a;
}

inline std::vector<double> conArgs(Rng& r)
{
    double type = double(r.below(7));
    std::vector<double> a{
        type, double(r.below(64)), double(r.below(64)), r.chance(0.5) ? 0 : r.uni(-0.5, 0.5), r.chance(0.5) ? 0 : r.uni(-0.5, 0.5)};
    if (type == 4 || type == 5)
    {
        a[3] = r.uni(0.5, 5);
        a[4] = r.uni(0.5, 20);
        a.push_back(r.uni(0, 1));
        a.push_back(r.uni(-3, 3));
    }
    else
    {
        a.push_back(r.chance(0.3) ? 0 : r.uni(0.6, 1.0));
        a.push_back(r.chance(0.3) ? 0 : r.uni(1.0, 1.4));
    }
    a.push_back(r.chance(0.6) ? 1 : 0);
    a.push_back(r.chance(0.1) ? 1 : 0); // may join dying bodies
    return a;
}

inline std::vector<double> ffArgs(Rng& r)
{
    double x = r.uni(-6, 4), y = r.uni(-6, 4);
    return {double(r.below(5)), r.uni(-3, 3), r.uni(-9, 3), x, y, x + r.uni(0, 5), y + r.uni(0, 5)};
}

inline double stepArg(Rng& r, const HistoryCfg& c)
{
    if (r.chance(c.pZero))
        return r.chance(0.5) ? 0.0 : -r.uni(0.001, 0.1);
    if (r.chance(c.pStall))
        return r.uni(0.1, 0.4);
    if (r.chance(0.7))
        return 1.0 / 60;
    return r.uni(0.001, 0.04);
}

// hooks which a script may be attached to (indices into Hook)
inline void addScript(Rng& r, Plan& p, const HistoryCfg& c, const std::vector<int>& hooks, double pThrow)
{
    //  0 kill 1 cond 2 mkBody 3 addCol 4 rmCol 5 mkCon 6 mkFF 7 vel 8 imp 9 queries 10 rekill 11 throw
    static const std::vector<double> w{4, 1.5, 1.5, 1.5, 1.5, 1.5, 0.7, 1, 1, 1, 0.3, 0};
    int                              sub = int(r.weighted(w));
    if (r.chance(pThrow))
        sub = 11;
    std::vector<double> a{double(r.pick(hooks)), double(r.range(1, r.chance(0.5) ? 3 : 10)), double(sub)};
    std::vector<double> x;
    switch (sub)
    {
        case 0:
        case 1:
        case 10: x = {double(r.below(4)), double(r.below(64))}; break;
        case 2: x = bodyArgs(r, c); break;
        case 3: x = addColArgs(r); break;
        case 4: x = {double(r.below(64)), double(r.below(8))}; break;
        case 5: x = conArgs(r); break;
        case 6: x = ffArgs(r); break;
        case 7:
            x = {double(r.below(64))};
            for (double v : velocity(r, 0.1))
                x.push_back(v);
            break;
        case 8: x = {double(r.below(64)), r.uni(-4, 4), r.uni(-4, 4), r.uni(-1, 1), r.uni(-1, 1)}; break;
        case 9: x = {double(r.below(100000)), 3}; break;
        default: x = {double(r.below(1000))}; break;
    }
    a.insert(a.end(), x.begin(), x.end());
    p.add("on", a);
}

// bodies that fall asleep after a few steps: calm ones, or (with high thresholds) any
inline Op sleepyOp(Rng& r, bool on)
{
    double t = r.pick(std::vector<double>{1e-3, 0.1, 1, 20});
    return {"settings", {double(r.range(1, 10)), double(r.range(0, 4)), double(r.below(2)), on ? 1.0 : 0.0,
                         r.chance(0.5) ? r.uni(0.001, 0.04) : r.uni(0.04, 0.3), t, r.chance(0.7) ? t : 0.1}};
}

inline Op randomOp(Rng& r, const HistoryCfg& c, Plan& p, const std::vector<int>& hooks)
{
    std::vector<double> w{c.wStep, c.wBody, c.wCon, c.wFF, c.wKill, c.wCond, c.wAdd, c.wRm, c.wVel,
                          c.wImp, c.wOn, c.wFactory, c.wClear, c.wQuery, c.wSettings, c.wRekill, c.wNewWorld};
    switch (r.weighted(w))
    {
        case 1: return {"mkBody", bodyArgs(r, c)};
        case 2: return {"mkCon", conArgs(r)};
        case 3: return {"mkFF", ffArgs(r)};
        case 4: return {"kill", {double(r.weighted({3, 2, 1, 1.5})), double(r.below(64))}};
        case 5: return {"cond", {double(r.weighted({3, 2, 1, 1})), double(r.below(64))}};
        case 6: return {"addCol", addColArgs(r)};
        case 7: return {"rmCol", {double(r.below(64)), double(r.below(8))}};
        case 8:
        {
            Op op{"vel", {double(r.below(64))}};
            for (double v : velocity(r, 0.1))
                op.a.push_back(v);
            return op;
        }
        case 9: return {"imp", {double(r.below(64)), r.uni(-4, 4), r.uni(-4, 4), r.uni(-1, 1), r.uni(-1, 1)}};
        case 10:
        {
            int n = r.range(1, 3);
            for (int i = 0; i < n; ++i)
                addScript(r, p, c, hooks, c.pThrow);
            return {"step", {stepArg(r, c)}};
        }
        case 11: return {"factory", {}};
        case 12: return {"clear", {}};
        case 13: return {"queries", {double(r.below(1000000)), 6}};
        case 14:
            if (c.pSleep > 0 && r.chance(0.4))
                return sleepyOp(r, r.chance(0.7));
            return {"settings", {double(r.range(1, 10)), double(r.range(0, 4)), double(r.below(2))}};
        case 15: return {"rekill", {double(r.below(4)), double(r.below(64))}};
        case 16: return {"newWorld", {}};
        default: return {"step", {stepArg(r, c)}};
    }
}

inline void swarm(Rng& r, HistoryCfg& c)
{
    for (double* w : {&c.wCon, &c.wFF, &c.wKill, &c.wCond, &c.wAdd, &c.wRm, &c.wVel, &c.wImp, &c.wOn, &c.wQuery})
        *w *= r.chance(0.2) ? 0.1 : (r.chance(0.3) ? 2.5 : 1.0);
    c.area        = r.uni(1.5, 6);
    c.pStructural = r.chance(0.2) ? 0 : r.uni(0.1, 0.5);
}

inline void heapCfg(Rng& r, Plan& p, bool placement)
{
    p.cfg["heapFill"] = double(r.below(4));
    p.cfg["heapSeed"] = placement ? double(1 + r.below(1000000)) : 0;
}

inline Plan history(Rng& r, const HistoryCfg& base, const std::vector<int>& hooks, bool placement)
{
    Plan       p;
    HistoryCfg c = base;
    swarm(r, c);
    heapCfg(r, p, placement);
    if (r.chance(c.pSleep))
        p.ops.push_back(sleepyOp(r, true));
    if (c.initial)
    {
        int n = r.range(1, 8);
        for (int i = 0; i < n; ++i)
            p.add("mkBody", bodyArgs(r, c));
        if (c.gravity && r.chance(0.5))
            p.add("mkFF", {0, 0, -9.81});
    }
    int n = r.range(c.minOps, c.maxOps);
    for (int i = 0; i < n; ++i)
    {
        Op op = randomOp(r, c, p, hooks);
        p.ops.push_back(op);
    }
    p.add("step", {1.0 / 60});
    p.add("step", {1.0 / 60});
    return p;
}

// callbacks of one step that take a collider away and put another one at once (which may get its address)
inline void replaceInStep(Rng& r, Plan& p, bool post)
{
    for (int k = r.range(1, 3); k-- > 0;)
    {
        std::vector<std::size_t> steps;
        for (std::size_t i = 0; i < p.ops.size(); ++i)
            if (p.ops[i].kind == "step")
                steps.push_back(i);
        if (steps.empty())
            return;
        std::vector<double> hooks{0, 0, 6, 12, 18};
        if (post)
            hooks.push_back(1);
        double h = r.pick(hooks), n = r.range(1, 4), b = double(r.below(64));
        std::vector<double> rm{h, n, 4, b, double(r.below(2))}, add{h, n + (r.chance(0.8) ? 1 : 2), 3};
        std::vector<double> x = addColArgs(r);
        if (r.chance(0.7))
            x[0] = b;
        if (r.chance(0.7))
            x[8] = x[9] = 0;
        add.insert(add.end(), x.begin(), x.end());
        auto at = p.ops.begin() + long(r.pick(steps));
        at      = p.ops.insert(at, Op{"on", add});
        p.ops.insert(at, Op{"on", rm});
    }
}

} // namespace sim
