// C32: the bundled demo programs, run whole (their own main, under a new name) under the simulated window.
#include <cmath>
#include <cstring>
#include <map>
#include <optional>
#include <set>

#define main simuDemosMain
#include "Demos.cpp"
#undef main

#include "appsim.hpp"
#include "core.hpp"

#include <GLFW/glfw3.h>

namespace sim
{
namespace
{

using namespace simu;

constexpr double tick = 1. / 1024 / 1024;

enum
{
    sStacks,
    sPendulum,
    sPyramid,
    sTower,
    sTumbler,
    nDemos
};
const char* const demoNames[nDemos] = {"Box stacks", "Newton's Pendulum", "Pyramid", "Tower", "Tumbler"};

struct Option
{
    int         demo;
    const char* label;
    double      initial;
};
// the scenes' options, and what they are set to at first
const Option options[] = {
    {sStacks, "Number of stacks", 10}, {sStacks, "Stack height", 10},     {sPendulum, "Number of circles", 5}, {sPendulum, "Radius", 1},
    {sPendulum, "String length", 7},   {sPendulum, "Circle precision", 48}, {sPendulum, "Push how many?", 1},    {sPyramid, "Height", 60},
    {sPyramid, "Spacing", 0.5},        {sTower, "Height", 20},            {sTumbler, "Max boxes", 1500},
};
enum
{
    iStacks,
    iStackHeight,
    iCircles,
    iRadius,
    iString,
    iPrecision,
    iPush,
    iPyramidHeight,
    iSpacing,
    iTowerHeight,
    iMaxBoxes
};
constexpr int nOptions = sizeof options / sizeof options[0];

enum
{
    kMenuScene,
    kMenuControls,
    kMenuOptions,
    kMenuProfiler,
    kMenuTools,
    kMenuToolOptions,
    kPause,
    kRestart,
    kMinus,
    kPlus,
    kTool, // 3 of them
    kDemo = kTool + 3,
    nClicks = kDemo + nDemos
};

struct Driver : appsim::Hooks
{
    const Plan&           plan;
    Ctx&                  ctx;
    std::size_t           next = 0;
    std::set<int>         clicks;
    std::map<std::string, double> edits;
    double                lastRead = 0, elapsed = 0, renderTicks = 0, swapTicks = 0;

    // what the requests so far amount to
    int    demo = sStacks;
    double opt[nOptions];
    bool   paused[nDemos] = {};
    std::string tool[nDemos];
    long   bodies = 0, dropped = 0; // in the shown scene
    // since its last start
    bool   closing   = false;
    bool   disturbed = false; // by anything but time
    double alone     = 0;     // simulated time
    long   steps     = 0;
    struct At
    {
        double x, y, th;
        double px; // of the bar's end of its string
    };
    // the worst of the bodies
    struct Max
    {
        double      v    = -1e30;
        std::size_t body = 0;
        void        operator()(std::size_t i, double d)
        {
            if (d > v)
                v = d, body = i;
        }
    };
    struct Worst
    {
        Max x, y, th, far, ropeExcess;
    };
    std::vector<At> start;
    double          made[nOptions]; // the options it was made with

    Driver(const Plan& p, Ctx& c) : plan{p}, ctx{c}
    {
        for (int i = 0; i < nOptions; ++i)
            opt[i] = options[i].initial;
        for (int i = 0; i < nDemos; ++i)
            tool[i] = Grabber::name;
        started(sStacks);
    }

    appsim::Sim& S() { return *appsim::S; }

    [[noreturn]] void bad(const std::string& cls, const std::string& m) { ctx.violate(cls, m); }

    Application* app()
    {
        GLFWwindow* w = glfwGetCurrentContext();
        return w ? static_cast<Application*>(glfwGetWindowUserPointer(w)) : nullptr;
    }
    Scene* scene() { return app() ? app()->scene() : nullptr; }

    double get(const char* label)
    {
        for (int i = 0; i < nOptions; ++i)
            if (options[i].demo == demo && std::string{label} == options[i].label)
                return opt[i];
        ctx.error("no such option");
    }

    long initialBodies()
    {
        switch (demo)
        {
            case sStacks: return 1 + long(get("Number of stacks")) * long(get("Stack height"));
            case sPendulum: return 1 + long(get("Number of circles"));
            case sPyramid: return 1 + long(get("Height")) * (long(get("Height")) + 1) / 2;
            case sTower: return 1 + 3 * long(get("Height"));
            default: return 1;
        }
    }

    // the demo d is shown from scratch
    void started(int d)
    {
        demo      = d;
        bodies    = initialBodies();
        dropped   = 0;
        disturbed = false;
        alone     = 0;
        steps     = 0;
        std::copy(std::begin(opt), std::end(opt), std::begin(made));
        start.clear();
    }

    bool loose() { return tool[demo] != NoTool::name; }

    void check(const char* when)
    {
        Scene* s = scene();
        if (!s)
            return;
        static const int n = nDemos;
        (void)n;
        long count = 0;
        for (Body& b : s->world().bodies())
        {
            ++count;
            float v[6] = {b.position()[0], b.position()[1], b.orientation(), b.velocity()[0], b.velocity()[1], b.angularVelocity()};
            for (float x : v)
                if (!std::isfinite(x))
                    bad("not-finite", fmt("%s: body %ld is at (%g, %g), turned by %g, with velocity (%g, %g), %g after %s", demoNames[demo], count, v[0], v[1], v[2], v[3], v[4], v[5], when));
        }
        if (std::getenv("DEMO_FAR"))
        {
            double m = 0;
            Body*  f = nullptr;
            for (Body& b : s->world().bodies())
                if (std::hypot(double(b.position()[0]), double(b.position()[1])) > m)
                    m = std::hypot(double(b.position()[0]), double(b.position()[1])), f = &b;
            if (f)
                std::fprintf(stderr, "far %g %g v %g %g w %g sx %g\n", f->position()[0], f->position()[1], f->velocity()[0], f->velocity()[1], f->angularVelocity(), f->mass());
        }
        if (count != bodies)
            bad("population", fmt("%s: %ld bodies instead of %ld after %s", demoNames[demo], count, bodies, when));
        if (s->isPaused() != paused[demo])
            bad("pause-state", fmt("%s is %s after %s", demoNames[demo], s->isPaused() ? "paused" : "running", when));
    }

    void bound(const Max& m, double limit, const char* what)
    {
        if (m.v > limit)
            bad("left-alone", fmt("%s: left alone for %.3g s, body %zu of %zu %s %g (at most %g is allowed)", demoNames[demo], alone, m.body, start.size(), what, m.v, limit));
    }

    // where the string of the pendulum's ball i (1 is the first) is hung
    double ropeX(std::size_t i)
    {
        return demo == sPendulum ? made[iRadius] * (-made[iCircles] + 2.1 * (double(i) - 1) + 1) : 0;
    }

    // the shown scene, which nobody touched since it started
    void checkAlone(Scene& s, double dt)
    {
        // both outlive a restart
        if (s.playSpeed() > 1 || s.world().settings().nVelocityIterations != World::Settings{}.nVelocityIterations)
            disturbed = true;
        if (start.empty())
        {
            for (Body& b : s.world().bodies())
                start.push_back({b.centroid()[0], b.centroid()[1], b.orientation(), ropeX(start.size())});
            return;
        }
        if (disturbed)
            return;
        alone += dt;
        ++steps;
        ctx.count(std::string{"undisturbed steps of "} + demoNames[demo]);
        Worst         w;
        std::size_t   i = 0;
        const double *m = made;
        for (Body& b : s.world().bodies())
        {
            double x = b.centroid()[0], y = b.centroid()[1];
            if (i < start.size())
            {
                w.x(i, std::fabs(x - start[i].x));
                w.y(i, std::fabs(y - start[i].y));
                w.th(i, std::fabs(b.orientation() - start[i].th));
            }
            w.far(i, std::hypot(x, y));
            if (i != 0 && demo == sPendulum && i < start.size())
            {
                // each ball hangs from the point of the bar that was above it, by its own top
                double r = m[iRadius], l = m[iString], c = std::cos(b.orientation()), sn = std::sin(b.orientation());
                double ax = b.position()[0] - sn * r, ay = b.position()[1] + c * r;
                w.ropeExcess(i, std::hypot(ax - start[i].px, ay - (r + l)) - l);
            }
            ++i;
        }
        switch (demo)
        {
            case sStacks:
                if (alone <= 4)
                {
                    bound(w.x, 0.2, "has moved sideways by");
                    bound(w.th, 0.05, "has turned by");
                    bound(w.y, 0.05 + 0.05 * m[iStackHeight], "has moved vertically by");
                }
                break;
            case sTower:
                if (alone <= 4 && m[iTowerHeight] <= 25)
                {
                    bound(w.x, 1, "has moved sideways by");
                    bound(w.th, 0.1, "has turned by");
                    bound(w.y, 0.3 + 0.25 * m[iTowerHeight], "has moved vertically by");
                }
                break;
            case sPyramid:
                if (alone <= 4 && m[iPyramidHeight] <= 10 && m[iSpacing] <= 0.6)
                {
                    bound(w.x, 0.8, "has moved sideways by");
                    bound(w.th, 0.15, "has turned by");
                    bound(w.y, 0.5 + m[iSpacing] * m[iPyramidHeight], "has moved vertically by");
                }
                break;
            case sPendulum:
                bound(w.ropeExcess, 0.3 + 0.1 * m[iString], "hangs from a string longer than made by");
                break;
            default:
                bound(w.far, 14.5, "is in the tumbler, at a distance from its centre of");
                if (alone > 0.1)
                {
                    double v = (*s.world().bodies().begin()).angularVelocity();
                    if (std::fabs(v + 0.05 * M_PI) > 0.005)
                        bad("tumbler-speed", fmt("the tumbler turns at %g instead of %g, %.3g s after its start", v, -0.05 * M_PI, alone));
                }
                break;
        }
        if (std::getenv("DEMO_TRACE") && steps % 60 == 0)
            std::fprintf(stderr, "%s (%g %g) t=%.3g x %.4g y %.4g th %.4g far %.4g rope %.4g w %.4g\n", demoNames[demo], demo == sTumbler ? 0 : demo == sStacks ? m[iStackHeight] : demo == sPendulum ? m[iString] : demo == sTower ? m[iTowerHeight] : m[iPyramidHeight], demo == sPyramid ? m[iSpacing] : demo == sPendulum ? m[iRadius] : 0, alone, w.x.v, w.y.v, w.th.v, w.far.v, w.ropeExcess.v, double((*s.world().bodies().begin()).angularVelocity()));
    }

    // ------------------------------------------------------------------- events
    void apply(const Op& op)
    {
        Scene*       s = scene();
        appsim::Sim& W = S();
        bool         sized = W.w > 0 && W.h > 0;
        if (op.kind == "key")
        {
            int  k = int(op.arg(0)), a = int(op.arg(1));
            bool delivered = s && !W.captureKeyboard;
            if (delivered && a != 0)
            {
                if (k == 'S')
                {
                    drop();
                    disturbed = true;
                }
                if (a == 1 && k == 'P')
                    paused[demo] = !paused[demo];
                if (a == 1 && k == 'R')
                    started(demo);
                if (a == 1 && (k == '-' || k == '='))
                    disturbed = true;
                if (a == 1 && k == GLFW_KEY_ESCAPE)
                    closing = true;
            }
            W.sendKey(k, a, 0);
        }
        else if (op.kind == "btn" && sized)
        {
            int  b = int(op.arg(0)), a = int(op.arg(1));
            bool delivered = s && !W.captureMouse;
            if (delivered && b == 0 && a == 1)
            {
                if (loose())
                    disturbed = true;
                if (tool[demo] == BoxSpawner::name)
                    ++bodies;
                ctx.count(std::string{"presses with "} + tool[demo]);
            }
            W.sendButton(b, a, 0);
        }
        else if (op.kind == "move" && sized)
            W.sendMove(op.arg(0) * W.w, op.arg(1) * W.h);
        else if (op.kind == "scroll")
            W.sendScroll(op.arg(0), op.arg(1));
        else if (op.kind == "resize")
        {
            int    w = int(op.arg(0)), h = int(op.arg(1));
            double k = op.arg(2, 1);
            W.sendResize(w, h, int(w * k), int(h * k), op.arg(3) > 0);
        }
        else if (op.kind == "capture")
        {
            W.captureKeyboard = op.arg(0) > 0;
            W.captureMouse    = op.arg(1) > 0;
        }
        else if (op.kind == "click")
            clicks.insert(int(op.pick(0)) % nClicks);
        else if (op.kind == "edit")
            edits[options[op.pick(0) % nOptions].label] = op.arg(1);
        ctx.ev(op.kind.c_str(), i64(next));
        check(op.kind.c_str());
    }

    void drop()
    {
        if (demo == sTumbler && dropped < long(get("Max boxes")))
        {
            ++dropped;
            ++bodies;
        }
    }

    void poll() override
    {
        bool got = false;
        if (closing)
            bad("close", "the program goes on after its window was closed");
        while (next < plan.ops.size())
        {
            const Op& op = plan.ops[next++];
            ctx.opIndex  = int(next) - 1;
            if (op.kind == "frame")
            {
                S().now += op.arg(0) * tick;
                renderTicks = op.arg(1);
                swapTicks   = op.arg(2);
                got         = true;
                break;
            }
            apply(op);
        }
        if (!got)
            S().shouldClose = closing = true;
        elapsed  = S().now - lastRead;
        lastRead = S().now;
        S().pic  = appsim::Picture{};
        ctx.simTime += elapsed;
        ctx.count("frames");
    }

    void render() override { S().now += renderTicks * tick; }

    void swap() override
    {
        S().now += swapTicks * tick;
        clicks.clear();
        edits.clear();
        Scene* s = scene();
        if (!s)
            return;
        if (!paused[demo])
            drop();
        check("a frame");
        ctx.nontrivial = true;
        checkAlone(*s, paused[demo] ? 0 : std::min(elapsed, 1. / 60.) * s->playSpeed());
        if (S().pic.badIndices || S().pic.badDraws)
            bad("graphics", S().pic.bad);
        u64 h = 1, c = 0;
        for (Body& b : s->world().bodies())
        {
            unsigned u[3];
            float    f[3] = {b.position()[0], b.position()[1], b.orientation()};
            std::memcpy(u, f, sizeof u);
            for (unsigned x : u)
                h = mixHash(h, x);
            ++c;
        }
        ctx.mix(&h, sizeof h);
        ctx.state(mixHash(mixHash(u64(demo) * 4 + paused[demo] * 2 + disturbed, c), u64(steps / 30)));
    }

    // ---------------------------------------------------------------------- GUI
    bool click(const char* kind, const std::string& where, const std::string& label) override
    {
        std::string k = kind;
        auto        take = [&](int id) {
            if (!clicks.count(id))
                return false;
            clicks.erase(id);
            ctx.ev("clicked", id);
            return true;
        };
        if (k == "menu")
        {
            if (where == "Application" && label == "Select Scene")
                return take(kMenuScene);
            if (where == "Engine" && label == "Profiler")
                return take(kMenuProfiler);
            if (where == "Tools" && label == "Select")
                return take(kMenuTools);
            if (where == "Tools" && label == "Options")
                return take(kMenuToolOptions);
            if (where == "Scene" && label == "Controls")
                return take(kMenuControls);
            if (where == "Scene" && label == "Options")
                return take(kMenuOptions);
            return false;
        }
        if (k == "selectable")
        {
            for (int i = 0; i < nDemos; ++i)
                if (label == demoNames[i] && take(kDemo + i))
                {
                    ctx.count("demos selected");
                    if (i != demo)
                        started(i);
                    return true;
                }
            static const char* n[] = {NoTool::name, Grabber::name, BoxSpawner::name};
            for (int i = 0; i < 3; ++i)
                if (label == n[i] && take(kTool + i))
                {
                    tool[demo] = label;
                    return true;
                }
            return false;
        }
        if (k == "button")
        {
            if (label.find("(P)") != std::string::npos && take(kPause))
            {
                paused[demo] = !paused[demo];
                return true;
            }
            if (label.find("(R)") != std::string::npos && take(kRestart))
            {
                started(demo);
                return true;
            }
            if ((label == "-" && take(kMinus)) || (label == "+" && take(kPlus)))
            {
                disturbed = true;
                return true;
            }
        }
        return false;
    }

    std::optional<double> edit(const std::string& where, const std::string& label) override
    {
        auto it = edits.find(label);
        if (where != "Scene options" || it == edits.end())
            return std::nullopt;
        double v = it->second;
        edits.erase(it);
        return v;
    }

    void slider(const std::string& where, const std::string& label, double before, double now, bool edited) override
    {
        if (where != "Scene options")
            return;
        for (int i = 0; i < nOptions; ++i)
            if (options[i].demo == demo && label == options[i].label)
            {
                ctx.count("options shown");
                if (std::fabs(before - opt[i]) > 1e-5 * (1 + std::fabs(opt[i])))
                    bad("option-shown", fmt("%s: %s is shown as %g, it was left at %g", demoNames[demo], label.c_str(), before, opt[i]));
                if (edited)
                    opt[i] = now;
            }
    }
};

void exec(const Plan& plan, Ctx& ctx)
{
    if (appsim::S == nullptr)
        appsim::S = new appsim::Sim;
    Driver d{plan, ctx};
    appsim::S->reset(&d);
    appsim::S->w  = int(plan.get("w", 1280));
    appsim::S->h  = int(plan.get("h", 720));
    appsim::S->fw = int(plan.get("w", 1280) * plan.get("scale", 1));
    appsim::S->fh = int(plan.get("h", 720) * plan.get("scale", 1));
    d.lastRead    = appsim::S->now;
    appsim::S->keepTriangles = false;
    int rc        = 0;
    try
    {
        rc = simuDemosMain();
    }
    catch (const std::exception& e)
    {
        ctx.violate("exception", fmt("%s: the program ended with %s", demoNames[d.demo], e.what()));
    }
    if (!d.closing)
        ctx.violate("close", "the program ended although its window was not closed");
    if (rc != 0)
        ctx.violate("exit", fmt("the program returned %d", rc));
    appsim::S->hooks = nullptr;
}

// ------------------------------------------------------------------- generation
Plan gen(Rng& r, int tier)
{
    Plan p;
    p.cfg["heapSeed"]  = double(1 + r.below(1000));
    p.cfg["heapFill"]  = double(r.below(4));
    p.cfg["clockTick"] = double(r.below(1000));
    p.cfg["w"]         = r.range(200, 1600);
    p.cfg["h"]         = r.range(200, 1200);
    p.cfg["scale"]     = r.chance(0.7) ? 1 : 2;
    auto frame = [&](double seconds) {
        double ticks  = std::floor(seconds / tick);
        double render = std::floor(ticks * r.uni(0, 0.4)), swap = std::floor(ticks * r.uni(0, 0.4));
        p.add("frame", {ticks - render - swap, render, swap});
    };
    auto edit = [&](int o) {
        static const double hi[nOptions] = {0.2, 0.15, 1, 1, 1, 1, 1, 0.14, 1, 0.25, 0.06};
        p.add("edit", {double(o), r.chance(0.1) ? 0 : r.uni(0, hi[o])});
    };
    int demo = r.below(nDemos);
    // big scenes are made small before they run
    p.add("click", {double(kMenuOptions)});
    frame(0.001);
    int phases = r.chance(0.6) ? 1 : r.range(2, 4);
    for (int ph = 0; ph < phases; ++ph)
    {
        if (ph)
            demo = r.below(nDemos);
        p.add("click", {double(kDemo + demo)});
        for (int o = 0; o < nOptions; ++o)
            if (options[o].demo == demo && (demo == sPyramid && o == 7 ? !r.chance(0.02) : r.chance(0.5)))
                edit(o);
        // never mind that the tumbler fills up to 1500 boxes at first
        bool full   = demo == sTumbler && r.chance(0.03);
        if (demo == sTumbler && !full)
            edit(iMaxBoxes);
        frame(0);
        p.add("key", {double('R'), 1});
        bool alone  = r.chance(0.5);
        int  frames = r.chance(0.2) ? r.range(200, 900) : r.range(30, 200);
        if (tier && !full)
            frames *= 3;
        for (int f = 0; f < frames; ++f)
        {
            if (!alone)
                while (r.chance(0.35))
                    switch (r.below(16))
                    {
                        case 0: p.add("key", {double('S'), 1}); break;
                        case 1: p.add("key", {double('P'), 1}); break;
                        case 2: p.add("key", {double(r.chance(0.02) ? GLFW_KEY_ESCAPE : r.chance(0.5) ? '-' : '='), 1}); break;
                        case 3:
                            if (r.chance(0.3))
                                p.add("key", {double('R'), 1});
                            break;
                        case 4:
                        case 5:
                        case 6: p.add("btn", {r.chance(0.9) ? 0.0 : 1.0, double(r.below(2))}); break;
                        case 7:
                        case 8:
                        case 9: p.add("move", {r.uni(0, 1), r.uni(0, 1)}); break;
                        case 10: p.add("scroll", {0, r.uni(-2, 2)}); break;
                        case 11: p.add("resize", {double(r.range(100, 1600)), double(r.range(100, 1200)), 1, double(r.below(2))}); break;
                        case 12: p.add("capture", {double(r.chance(0.3)), double(r.chance(0.3))}); break;
                        case 13: p.add("click", {double(r.below(kTool))}); break;
                        case 14: p.add("click", {double(kTool + r.below(3))}); break;
                        default:
                            for (int o = 0; o < nOptions; ++o)
                                if (options[o].demo == demo && r.chance(0.3))
                                    edit(o);
                            break;
                    }
            frame(r.chance(0.85) ? r.uni(0.014, 0.02) : r.chance(0.5) ? r.uni(0, 0.014) : r.uni(0.02, 0.5));
        }
        p.add("capture", {0, 0});
        p.add("btn", {0, 0});
    }
    return p;
}

Prop make()
{
    Prop p;
    p.id      = "C32";
    p.gen     = gen;
    p.exec    = exec;
    p.isolate = true;
    return p;
}

Register r32{make()};

} // namespace
} // namespace sim
