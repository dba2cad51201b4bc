// C23-C27: the application, its scenes, tools, camera and renderer run under a simulated window
// system, GUI and graphics library. A plan lists the events of every frame and its duration.
#include "core.hpp"
#include "appsim.hpp"

#include <algorithm>
#include <memory>
#include <optional>
#include <sys/wait.h>
#include <unistd.h>

#include "Simu/app.hpp"

using namespace simu;

namespace sim
{
namespace
{

constexpr double tick = 0x1.0p-20; // durations are whole multiples, so that clocks are exact

enum ItemType
{
    iBox,
    iFloor,
    iGravity,
    iRope,
    iClock,
    iNgon,
    iPlain,
    iDouble,
    iHinge,
    iDraw,
    nItemTypes
};

enum ClickId
{
    kMenuScene,
    kMenuSettings,
    kMenuProfiler,
    kMenuTools,
    kMenuToolOptions,
    kMenuControls,
    kMenuOptions,
    kSelectScene, // + index
    kSelectScene1,
    kSelectScene2,
    kMinus,
    kPlus,
    kPause,
    kRestart,
    kWarm,
    kResetProfiler,
    kTool, // + index
    kTool1,
    kTool2,
    kCloseControls,
    nClicks
};

const char* const sceneNames[3] = {"First scene", "Second scene", "Third scene"};

struct Driver;

typedef std::array<double, 2> P2;
typedef std::vector<P2>       Shape;

struct Rope : VisibleDistanceConstraint
{
    using VisibleDistanceConstraint::VisibleDistanceConstraint;

    double length() const
    {
        auto  p = f.localFixedPoints();
        auto* t = const_cast<Rope*>(this);
        Vec2  a = t->bodies()[0]->toWorldSpace() * p[0];
        Vec2  b = t->bodies()[1]->toWorldSpace() * p[1];
        return std::hypot(double(a[0]) - b[0], double(a[1]) - b[1]);
    }
    P2 along(float x) const
    {
        auto  p = f.localFixedPoints();
        auto* t = const_cast<Rope*>(this);
        Vec2  a = t->bodies()[0]->toWorldSpace() * p[0];
        Vec2  b = t->bodies()[1]->toWorldSpace() * p[1];
        Vec2  q = a + (b - a) * x;
        return {q[0], q[1]};
    }
};


struct Expected
{
    std::vector<Shape> shapes;
    double             area  = 0;
    double             unit  = 1e300; // the smallest thing drawn in this colour
    double             scale = 1;     // size of the coordinates
    std::vector<Shape> inside; // a contour must surround these
    std::vector<P2>    points; // something must be drawn over these
};

double polyArea(const Shape& s)
{
    double a = 0;
    for (std::size_t i = 0; i < s.size(); ++i)
    {
        auto &p = s[i], &q = s[(i + 1) % s.size()];
        a += (p[0] - s[0][0]) * (q[1] - s[0][1]) - (q[0] - s[0][0]) * (p[1] - s[0][1]);
    }
    return std::fabs(a) / 2;
}

unsigned key(const unsigned char* c) { return unsigned(c[0]) | unsigned(c[1]) << 8 | unsigned(c[2]) << 16 | unsigned(c[3]) << 24; }
unsigned key(Rgba c) { return unsigned(c[0]) | unsigned(c[1]) << 8 | unsigned(c[2]) << 16 | unsigned(c[3]) << 24; }

struct SeenBody : VisibleBody
{
    SeenBody(BodyDescriptor d, Rgba c, Renderer* r) : VisibleBody{d, c, r}, seen{c} {}
    Rgba seen;
};

class TestScene : public Scene
{
public:

    TestScene(Driver& d, int index);

    void init(Renderer& r) override;
    void preStep(float dt) override;
    void postStep(float dt) override;
    bool onMousePress(Mouse::Input in) override;
    bool onMouseMove(Vec2 p) override;

    void  use(const std::string& n) { useTool(n); }
    Tool* tool() { return currentTool(); }

    Driver&            d;
    int                index;
    std::vector<Body*> made;  // by init, in order
    Body*              clock = nullptr;
    double             clockX = 0;
    int                inits = 0;

    // what the requests so far amount to
    bool  mPaused = false;
    float mSpeed  = 1.f;

    Vec2 lastCenter{};

    // options of its box spawner, as last shown or chosen; the angle is in degrees
    double box[6] = {2, 2, 1, 0.5, 0, 0};
};

// the box spawner's options
const char* const boxOptions[6] = {"Dimensions", "Dimensions##2", "Density", "Friction", "Bounciness", "Orientation"};

struct Grab
{
    bool  known = true, on = false;
    Body* body = nullptr;
    Vec2  target{};
    bool  mustEnd = false; // by the end of the next step
    // following
    int    quiet  = 0;
    double start  = 0;
};

struct TwinFrame
{
    u64    hash;
    double x, y;
    int    bodies, constraints;
};

struct Driver : appsim::Hooks
{
    const Plan&              plan;
    Ctx&                     ctx;
    int                      prop;
    Application*             app = nullptr;
    std::vector<TestScene*>  scenes;
    std::vector<Op>          items;
    std::size_t              next = 0;
    std::set<int>            clicks;
    std::map<std::string, double> edits;
    bool                     inPoll = false, started = false;
    int                      pendingS = 0, frameSteps = 0;
    double                   lastRead = 0, elapsed = 0;
    long                     frame = 0;
    Grab                     grab;
    std::map<unsigned, Expected> expected;
    bool                     expectedValid = false;
    bool                     twin = false;
    int                      twins = 0;
    bool                     skipPoll = false;
    std::optional<double>    twinBase;
    std::vector<TwinFrame>*  twinLog = nullptr;
    std::vector<TwinFrame>   reference;
    std::size_t              refAt    = 0;
    bool                     comparing = false;
    int                      refScene = -1;
    int                      nextColour = 1;
    std::optional<Vec2>      received;
    int                      receivedCount = 0;

    Driver(const Plan& p, Ctx& c, int pr) : plan{p}, ctx{c}, prop{pr} {}

    appsim::Sim& S() { return *appsim::S; }

    TestScene* shownScene() { return app ? static_cast<TestScene*>(app->scene()) : nullptr; }

    [[noreturn]] void bad(const std::string& cls, const std::string& m) { ctx.violate(cls, m); }

    void misuse(const std::string& what) override
    {
        if (prop == 26)
            bad("graphics", what);
    }

    // ------------------------------------------------------------------ camera
    struct View
    {
        double cx, cy, sx, sy; // ndc = (p - c) * s
    };
    View view(const Camera& c)
    {
        double z = c.zoom();
        Vec2   v = c.viewDimensions();
        return {c.center()[0], c.center()[1], 2 * z / v[0], 2 * z / v[1]};
    }
    P2 toWindow(Vec2 p)
    {
        View v = view(shownScene()->camera());
        return {(v.sx * (p[0] - v.cx) + 1) / 2 * S().w, S().h - (v.sy * (p[1] - v.cy) + 1) / 2 * S().h};
    }
    P2 toScene(double x, double y)
    {
        View   v  = view(shownScene()->camera());
        double nx = 2 * x / S().w - 1, ny = 2 * (S().h - y) / S().h - 1;
        return {v.cx + nx / v.sx, v.cy + ny / v.sy};
    }
    double posTol()
    {
        View v = view(shownScene()->camera());
        double far = std::max({1.0, std::fabs(2 * S().cx / S().w - 1), std::fabs(2 * S().cy / S().h - 1)});
        return 2e-5 * far * (1 / v.sx + 1 / v.sy) + 2e-6 * (std::fabs(v.cx) + std::fabs(v.cy));
    }

    void checkCamera(TestScene& s)
    {
        if (prop != 27)
            return;
        View v = view(s.camera());
        Mat3 t = s.camera().transform(), inv = s.camera().invTransform();
        for (int i = 0; i < 9; ++i)
            if (!std::isfinite(t.data[i]) || !std::isfinite(inv.data[i]))
                bad("camera-degenerate", fmt("zoom %g, center (%g, %g): the transform is not finite", s.camera().zoom(), v.cx, v.cy));
        if (!(t.data[0] > 1e-30f && t.data[4] > 1e-30f && inv.data[0] > 1e-30f && inv.data[4] > 1e-30f))
            bad("camera-degenerate", fmt("zoom %g, view %g x %g: the transform cannot be inverted", s.camera().zoom(), s.camera().viewDimensions()[0], s.camera().viewDimensions()[1]));
    }

    // --------------------------------------------------------------- mouse grab
    std::vector<MouseConstraint*> grabs(TestScene& s, bool all = false)
    {
        std::vector<MouseConstraint*> r;
        for (Constraint& c : s.world().constraints())
            if (auto* m = dynamic_cast<MouseConstraint*>(&c))
                if (all || !m->isDead())
                    r.push_back(m);
        return r;
    }

    void checkGrab(const char* when)
    {
        TestScene* s = shownScene();
        if (s == nullptr)
            return;
        auto g = grabs(*s);
        if (!grab.known)
        {
            grab.known  = true;
            grab.on     = !g.empty();
            grab.body   = g.empty() ? nullptr : g[0]->bodies()[0];
            grab.target = g.empty() ? Vec2{} : g[0]->mousePos();
            grab.quiet  = 0;
            grab.start  = 1e9;
        }
        if (prop != 24)
            return;
        if (g.size() > 1)
            bad("grab-many", fmt("%zu grabs in the world after %s", g.size(), when));
        if (grab.mustEnd)
            return;
        if (grab.on && grab.body->isDead())
            grab.on = false;
        if (!grab.on && !g.empty())
            bad("grab-stays", fmt("a grab that ended is still in the world after %s", when));
        if (grab.on)
        {
            if (g.empty())
                bad("grab-lost", fmt("the grab disappeared after %s", when));
            if (g[0]->bodies()[0] != grab.body)
                bad("grab-body", fmt("the grab holds another body after %s", when));
            Vec2 p = g[0]->mousePos();
            if (!all(p == grab.target))
                bad("grab-target", fmt("the grab's target is (%g, %g), the mouse is at (%g, %g) after %s", p[0], p[1], grab.target[0], grab.target[1], when));
        }
    }

    bool insideShape(const Collider& c, Vec2 p, double margin)
    {
        // strictly inside of a convex shape
        auto   v = c.vertexView();
        Vec2   prev{};
        bool   first = true;
        Vec2   f{};
        double m = 1e300;
        auto   edge = [&](Vec2 a, Vec2 b) {
            double dx = double(b[0]) - a[0], dy = double(b[1]) - a[1];
            double l = std::hypot(dx, dy);
            m = std::min(m, (dx * (double(p[1]) - a[1]) - dy * (double(p[0]) - a[0])) / (l > 0 ? l : 1));
        };
        for (Vec2 x : v)
        {
            if (first)
                f = x;
            else
                edge(prev, x);
            first = false;
            prev  = x;
        }
        edge(prev, f);
        return m > margin;
    }

    // presses the left button at the cursor with the box spawner
    void spawnPress(P2 at)
    {
        TestScene*      s = shownScene();
        std::set<Body*> before;
        for (Body& b : s->world().bodies())
            before.insert(&b);
        S().sendButton(0, 1, 0);
        std::vector<Body*> made;
        for (Body& b : s->world().bodies())
            if (!before.count(&b))
                made.push_back(&b);
        if (made.size() != 1)
            bad("spawn-count", fmt("pressing the button made %zu bodies", made.size()));
        nKnown = nBodies(*s);
        ctx.count("boxes spawned");
        ctx.nontrivial  = true;
        Body&       b   = *made[0];
        const auto& o   = s->box;
        double      tol = posTol() + 1e-4 * (o[0] + o[1]);
        int         n   = 0;
        for (const Collider& c : b.colliders())
        {
            ++n;
            // a box looks the same after half a turn
            double th = o[5] * M_PI / 180, cs = std::cos(th), sn = std::sin(th);
            double wt = tol + 1e-5 * (std::fabs(at[0]) + std::fabs(at[1]));
            int    corners = 0, found = 0;
            for (Vec2 v : c.vertexView())
            {
                ++corners;
                double dx = v[0] - at[0], dy = v[1] - at[1];
                double x = cs * dx + sn * dy, y = -sn * dx + cs * dy;
                found += std::fabs(std::fabs(x) - o[0] / 2) <= wt && std::fabs(std::fabs(y) - o[1] / 2) <= wt;
            }
            if (corners != 4 || found != 4)
                bad("spawn-shape", fmt("the box made at (%g, %g) is not one of %g by %g, turned by %g degrees, that is centred there: %d corners out of %d are", at[0], at[1], o[0], o[1], o[5], found, corners));
            auto is = [](double a, double e) { return std::fabs(a - e) <= 1e-5 * (std::fabs(e) + 0.01); };
            if (!is(c.properties().m, o[2] * o[0] * o[1]) || !is(c.material().density, o[2]))
                bad("spawn-mass", fmt("a box of %g by %g and density %g has a mass of %g", o[0], o[1], o[2], c.properties().m));
            if (!is(c.material().friction.value, o[3]) || !is(c.material().bounciness.value, o[4]))
                bad("spawn-material", fmt("a box has a friction of %g and a bounciness of %g instead of %g and %g", c.material().friction.value, c.material().bounciness.value, o[3], o[4]));
        }
        if (n != 1)
            bad("spawn-shape", fmt("the box has %d colliders", n));
        if (b.isStructural() || !all(b.velocity() == Vec2{}) || b.angularVelocity() != 0)
            bad("spawn-body", "a box that was made is not one at rest that can move");
        if (b.isDead() || dynamic_cast<VisibleBody*>(&b) == nullptr)
            bad("spawn-body", "a box that was made is dead, or not visible");
    }

    u64 nKnown = 0;

    void checkSpawns(const char* when)
    {
        TestScene* s = shownScene();
        if (prop != 29 || s == nullptr)
            return;
        u64 n = nBodies(*s);
        if (n > nKnown)
            bad("spawn-count", fmt("there are %d bodies more after %s", int(n - nKnown), when));
        nKnown = n;
    }

    void slider(const std::string& where, const std::string& label, double before, double now, bool edited) override
    {
        TestScene* s = shownScene();
        if (prop != 29 || s == nullptr || where != std::string{BoxSpawner::name} + " options")
            return;
        for (int i = 0; i < 6; ++i)
            if (label == boxOptions[i])
            {
                ctx.count("options shown");
                double d = before - s->box[i];
                if (i == 5)
                    d = std::remainder(d, 180.0);
                if (std::fabs(d) > 1e-5)
                    bad("option-shown", fmt("%s is shown as %g, it was left at %g", label.c_str(), before, s->box[i]));
                if (edited)
                {
                    ctx.count("options edited");
                    s->box[i] = now;
                }
            }
    }

    // presses the left button at the cursor with the grab tool
    void grabPress()
    {
        TestScene* s = shownScene();
        P2         p = toScene(S().cx, S().cy);
        Vec2       q{float(p[0]), float(p[1])};
        double     tol = posTol() + 1e-4;
        struct
        {
            std::vector<Body*> must, may;
            bool               dead = false;
        } c;
        for (Body& b : s->world().bodies())
        {
            if (b.isStructural())
                continue;
            bool must = false, may = false;
            for (const Collider& col : b.colliders())
            {
                must = must || insideShape(col, q, tol);
                BoundingBox x = col.boundingBox();
                may = may || (q[0] >= x.min()[0] - tol && q[0] <= x.max()[0] + tol && q[1] >= x.min()[1] - tol && q[1] <= x.max()[1] + tol);
            }
            if (may)
                c.may.push_back(&b);
            if (must)
                c.must.push_back(&b);
            if (may && b.isDead())
                c.dead = true;
        }
        S().sendButton(0, 1, 0);
        grab.mustEnd = false;
        if (c.may.empty())
        {
            // nothing to grab; what a lost release left may stay
            if (grab.on)
                grab.known = false;
            else if (!grab.known)
                ;
            return;
        }
        auto g = grabs(*s);
        if (prop == 24 && !c.must.empty() && !c.dead)
        {
            ctx.count("grab attempts on a body");
            if (c.may.size() > 1)
                ctx.count("grab attempts on several bodies");
            if (g.empty())
                bad("grab-none", "pressing the button over a movable body grabbed nothing");
            if (g.size() > 1)
                bad("grab-many", fmt("pressing the button once left %zu grabs", g.size()));
            if (std::find(c.may.begin(), c.may.end(), g[0]->bodies()[0]) == c.may.end())
                bad("grab-elsewhere", "the grabbed body is not under the pointer");
            Vec2 m = g[0]->mousePos(), b = g[0]->bodyPos();
            if (std::hypot(m[0] - p[0], m[1] - p[1]) > tol || std::hypot(b[0] - p[0], b[1] - p[1]) > tol + 1e-4 * (std::fabs(p[0]) + std::fabs(p[1]) + 1))
                bad("grab-point", fmt("the grab begins at (%g, %g) on the body and (%g, %g) for the mouse, the pointer is at (%g, %g)", b[0], b[1], m[0], m[1], p[0], p[1]));
        }
        grab.known = false; // whichever body it took
    }

    // -------------------------------------------------------------------- events
    bool usingGrabber() { return shownScene() && std::string{shownScene()->tool()->getName()} == Grabber::name; }
    bool usingSpawner() { return shownScene() && std::string{shownScene()->tool()->getName()} == BoxSpawner::name; }
    bool usingNoTool() { return shownScene() && std::string{shownScene()->tool()->getName()} == NoTool::name; }

    void leaveTool(const std::string& to)
    {
        if (shownScene() && to != shownScene()->tool()->getName())
        {
            if (usingGrabber() && grab.on)
                grab.mustEnd = true;
        }
    }

    void afterToolChange()
    {
        if (grab.mustEnd)
            grab.on = false;
    }

    void move(double x, double y)
    {
        TestScene* s = shownScene();
        received.reset();
        receivedCount = 0;
        S().sendMove(x, y);
        if (!s)
            return;
        P2 p = toScene(x, y);
        if (usingGrabber() && grab.on && !grab.mustEnd)
        {
            auto g = grabs(*s);
            if (prop == 24 && !g.empty())
            {
                Vec2   m   = g[0]->mousePos();
                double tol = posTol();
                if (std::hypot(m[0] - p[0], m[1] - p[1]) > tol)
                    bad("grab-target", fmt("the grab's target is (%g, %g) after the mouse moved to (%g, %g)", m[0], m[1], p[0], p[1]));
            }
            if (!g.empty())
                grab.target = g[0]->mousePos();
            grab.quiet = 0;
            grab.start = -1;
        }
        checkReceived(p, usingNoTool(), "moved to");
    }

    void checkReceived(P2 p, bool must, const char* what)
    {
        if (prop != 27)
            return;
        if (must && receivedCount != 1)
            bad("mouse-event", fmt("the scene received %d mouse events instead of 1", receivedCount));
        if (!received)
            return;
        ctx.count("mouse positions checked");
        ctx.nontrivial = true;
        double e = std::hypot((*received)[0] - p[0], (*received)[1] - p[1]);
        if (!(e <= posTol()))
            bad("picking", fmt("the pointer %s (%g, %g), where the camera draws (%g, %g); the scene was told (%g, %g)", what, S().cx, S().cy, p[0], p[1], (*received)[0], (*received)[1]));
    }

    void apply(const Op& op)
    {
        TestScene* s   = shownScene();
        appsim::Sim& W = S();
        bool sized     = W.w > 0 && W.h > 0;
        if (op.kind == "key")
        {
            int  k = int(op.arg(0)), a = int(op.arg(1));
            bool delivered = s && !W.captureKeyboard;
            if (delivered && a != 0)
            {
                if (k == 'S')
                    ++pendingS;
                if (a == 1 && k == 'P')
                    s->mPaused = !s->mPaused;
                if (a == 1 && k == '-')
                    speed(*s, 0.5f);
                if (a == 1 && k == '=')
                    speed(*s, 2.f);
                if (a == 1 && k == 'R')
                    ended();
            }
            W.sendKey(k, a, 0);
            if (prop == 23 && pendingS != 0)
                bad("single-step", "a single-step request did not step the scene");
            pendingS = 0;
        }
        else if (op.kind == "btn" && sized)
        {
            int b = int(op.arg(0)), a = int(op.arg(1));
            bool delivered = s && !W.captureMouse;
            received.reset();
            receivedCount = 0;
            P2 p{};
            if (s)
                p = toScene(W.cx, W.cy);
            if (prop == 29 && delivered && usingSpawner() && b == 0 && a == 1)
                spawnPress(p);
            else if (delivered && usingGrabber() && b == 0 && a == 1)
                grabPress();
            else
            {
                W.sendButton(b, a, 0);
                if (delivered && usingGrabber() && b == 0 && a == 0)
                {
                    grab.known = true;
                    grab.on    = false;
                }
            }
            if (s)
                checkReceived(p, delivered && usingNoTool(), "is pressed at");
        }
        else if (op.kind == "move" && sized)
            move(op.arg(0) * W.w, op.arg(1) * W.h);
        else if (op.kind == "over" && sized)
        {
            if (s == nullptr)
                return;
            std::vector<Body*> bs;
            for (Body& b : s->world().bodies())
                if (!b.isStructural() && b.colliders().begin() != b.colliders().end())
                    bs.push_back(&b);
            if (bs.empty())
                return;
            Body* b = bs[op.pick(0) % bs.size()];
            P2    p = toWindow(b->centroid() + Vec2{float(op.arg(1)), float(op.arg(2))});
            if (std::isfinite(p[0]) && std::isfinite(p[1]) && std::fabs(p[0]) < 1e6 && std::fabs(p[1]) < 1e6)
                move(p[0], p[1]);
        }
        else if (op.kind == "scroll")
        {
            bool   delivered = s && !W.captureMouse;
            double y = op.arg(1);
            float  z = s ? s->camera().zoom() : 0;
            Vec2   c = s ? s->camera().center() : Vec2{};
            W.sendScroll(op.arg(0), y);
            if (prop == 27 && s)
            {
                float n = s->camera().zoom();
                ctx.count("scrolls");
                if (!all(c == s->camera().center()))
                    bad("zoom-pan", "scrolling moved the view");
                if (!delivered && n != z)
                    bad("zoom-captured", "the view zoomed for an event that the GUI captured");
                if (delivered)
                {
                    if (y > 0 && !(n > z) && !(n == z && z >= 1e5f))
                        bad("zoom-direction", fmt("scrolling by %g changed the zoom from %g to %g", y, z, n));
                    if (y < 0 && !(n < z) && !(n == z && z <= 1e-5f))
                        bad("zoom-direction", fmt("scrolling by %g changed the zoom from %g to %g", y, z, n));
                    if (y == 0 && n != z)
                        bad("zoom-direction", fmt("scrolling sideways changed the zoom from %g to %g", z, n));
                }
                checkCamera(*s);
            }
        }
        else if (op.kind == "resize")
        {
            int    w = int(op.arg(0)), h = int(op.arg(1));
            double k = op.arg(2, 1);
            W.sendResize(w, h, int(w * k), int(h * k), op.arg(3) > 0);
            if (s)
                checkCamera(*s);
        }
        else if (op.kind == "capture")
        {
            W.captureKeyboard = op.arg(0) > 0;
            W.captureMouse    = op.arg(1) > 0;
        }
        else if (op.kind == "click")
            clicks.insert(int(op.pick(0)) % nClicks);
        else if (op.kind == "edit")
            edits[op.arg(0) >= 10 ? boxOptions[op.pick(0) % 6] : op.pick(0) % 2 ? "Velocity iterations" : "Position iterations"] = op.arg(1);
        else if (op.kind == "kill")
        {
            if (s == nullptr)
                return;
            std::vector<Body*> bs;
            for (Body& b : s->world().bodies())
                if (&b != s->clock)
                    bs.push_back(&b);
            if (bs.empty())
                return;
            Body* b = nullptr;
            if (op.arg(0) < 0 && grab.on) // the grabbed body
                b = grab.body;
            else
                b = bs[op.pick(0) % bs.size()];
            b->kill();
            ctx.count("bodies killed");
        }
        else if (op.kind == "killgrab")
        {
            if (s)
                for (auto* m : grabs(*s))
                {
                    m->kill();
                    grab.known = true;
                    grab.on    = false;
                    ctx.count("grabs killed by the scene");
                }
        }
        else if (op.kind == "use")
        {
            if (s)
            {
                static const char* n[] = {NoTool::name, Grabber::name, BoxSpawner::name};
                const char*        t   = n[op.pick(0) % 3];
                leaveTool(t);
                s->use(t);
                afterToolChange();
            }
        }
        else if (op.kind == "reset")
        {
            if (s)
            {
                ended();
                s->reset();
            }
        }
        else if (op.kind == "pause" && s)
        {
            if (op.arg(0) > 0)
                s->pause();
            else
                s->resume();
            s->mPaused = op.arg(0) > 0;
        }
        ctx.ev(op.kind.c_str(), i64(next));
        checkSpawns(op.kind.c_str());
        checkGrab(op.kind.c_str());
        if (TestScene* t = shownScene())
        {
            checkControls(*t, op.kind.c_str());
            t->lastCenter = t->camera().center();
        }
    }

    void ended()
    {
        grab       = Grab{};
        grab.known = true;
    }

    void speed(TestScene& s, float k)
    {
        float n = s.mSpeed * k;
        if (n > 0.f && std::isfinite(n))
            s.mSpeed = n;
    }

    void checkControls(TestScene& s, const char* when)
    {
        if (prop != 23)
            return;
        if (s.isPaused() != s.mPaused)
            bad("pause-state", fmt("the scene is %s, it was asked to be %s (after %s)", s.isPaused() ? "paused" : "running", s.mPaused ? "paused" : "running", when));
        float p = s.playSpeed();
        if (!(p > 0) || !std::isfinite(p))
            bad("play-speed", fmt("the play speed is %g", p));
        if (s.mSpeed < 1e-30f || s.mSpeed > 1e30f)
            s.mSpeed = p; // it may be limited
        else if (std::fabs(p - s.mSpeed) > 1e-6f * s.mSpeed)
            bad("play-speed", fmt("the play speed is %g instead of %g (after %s)", p, s.mSpeed, when));
    }

    // ------------------------------------------------------------------- frames
    void poll() override
    {
        inPoll = true;
        if (!skipPoll)
        {
            bool got = false;
            while (next < plan.ops.size())
            {
                const Op& op = plan.ops[next++];
                ctx.opIndex  = int(next) - 1;
                if (op.kind == "frame")
                {
                    S().now += op.arg(0) * tick;
                    renderTicks = op.arg(1);
                    swapTicks   = op.arg(2);
                    got         = true;
                    break;
                }
                if (op.kind != "item")
                    apply(op);
            }
            if (!got)
                S().shouldClose = true;
        }
        skipPoll = false;
        if (twinBase)
        {
            S().base = *twinBase;
            twinBase.reset();
        }
        elapsed    = S().now - lastRead;
        lastRead   = S().now;
        inPoll     = false;
        frameSteps = 0;
        expectedValid = false;
        inGui      = true;
        S().pic    = appsim::Picture{};
        ++frame;
        ctx.simTime += elapsed;
        ctx.count(elapsed > 0.02 ? "slow frames" : elapsed == 0 ? "frames of no duration" : "frames");
        if (TestScene* s = shownScene())
            s->lastCenter = s->camera().center();
    }

    double renderTicks = 0, swapTicks = 0;
    bool   inGui = false;

    void render() override { S().now += renderTicks * tick; }

    void swap() override
    {
        S().now += swapTicks * tick;
        clicks.clear();
        edits.clear();
        TestScene* s = shownScene();
        checkSpawns("a frame");
        if (s && (prop == 23 || prop == 25) && frameSteps != 1)
            bad("steps-per-frame", fmt("the shown scene was stepped %d times in a frame", frameSteps));
        if (s && prop == 26)
            checkPicture();
        if (s && prop == 27)
            checkDrawnView(*s);
        if (s && prop == 25)
            twinFrame(*s);
        if (s)
        {
            u64 h = worldHash(*s);
            ctx.mix(&h, sizeof h);
            // what the scene is like, roughly
            ctx.state(mixHash(mixHash(u64(s->index) * 8 + s->isPaused() * 4 + (grab.on ? 1 : 0), nBodies(*s)), mixHash(u64(std::lround(std::log2(s->camera().zoom()) * 4) + 1000), mixHash(u64(std::string{s->tool()->getName()}.size()), u64(S().pic.tris.size() / 4)))));
        }
    }

    static u64 nBodies(TestScene& s)
    {
        u64 n = 0;
        for (Body& b : s.world().bodies())
        {
            (void)b;
            ++n;
        }
        return n;
    }

    u64 worldHash(TestScene& s)
    {
        u64  h   = 1;
        auto add = [&](float f) {
            unsigned u;
            std::memcpy(&u, &f, 4);
            h = mixHash(h, u);
        };
        for (Body& b : s.world().bodies())
        {
            add(b.position()[0]);
            add(b.position()[1]);
            add(b.orientation());
            add(b.velocity()[0]);
            add(b.velocity()[1]);
            add(b.angularVelocity());
            int n = 0;
            for (auto* c : b.contacts())
            {
                (void)c;
                ++n;
            }
            h = mixHash(h, u64(n));
        }
        u64 n = 0;
        for (Constraint& c : s.world().constraints())
        {
            (void)c;
            ++n;
        }
        h = mixHash(h, n);
        n = 0;
        for (ForceField& f : s.world().forceFields())
        {
            (void)f;
            ++n;
        }
        return mixHash(h, n);
    }

    // --------------------------------------------------------------------- steps
    void preStep(TestScene& s, float dt)
    {
        if (&s != shownScene())
        {
            if (prop == 23 || prop == 25)
                bad("hidden-step", "a scene that is not shown was stepped");
            return;
        }
        inGui = false;
        float want;
        if (inPoll)
        {
            if (prop == 23 && pendingS == 0)
                bad("unrequested-step", "the scene was stepped while events are delivered");
            --pendingS;
            want = 1.f / 60.f * s.playSpeed();
            ctx.count("single steps");
        }
        else
        {
            ++frameSteps;
            want = s.isPaused() ? 0.f : float(std::min(elapsed, 1. / 60.)) * s.playSpeed();
        }
        if (!inPoll) // a single step of a paused scene may resume it meanwhile
            checkControls(s, "the beginning of a step");
        if (prop == 23)
        {
            ctx.nontrivial = true;
            if (inPoll ? false : s.mPaused)
                ctx.count("paused frames");
            if (!(std::fabs(dt - want) <= 1e-5f * want))
                bad("step-duration", fmt("stepped by %.9g instead of %.9g (%s, %s, %.6g s elapsed, play speed %g)", dt, want, inPoll ? "single step" : "frame", s.isPaused() ? "paused" : "running", elapsed, s.playSpeed()));
        }
        if (prop == 27)
        {
            checkCamera(s);
            checkPan(s);
        }
        expected.clear();
        expectedValid = true;
    }

    void checkPan(TestScene& s)
    {
        double dx = 0, dy = 0;
        dx -= S().keys.count(263);
        dx += S().keys.count(262);
        dy += S().keys.count(265);
        dy -= S().keys.count(264);
        Vec2   c = s.camera().center();
        double mx = double(c[0]) - s.lastCenter[0], my = double(c[1]) - s.lastCenter[1];
        double t    = inPoll ? 1. / 60. : std::min(elapsed, 1. / 60.);
        double size = 500 * s.camera().pixelSize() / s.camera().zoom() * t;
        double eps  = 2e-7 * (std::fabs(c[0]) + std::fabs(c[1]));
        s.lastCenter = c;
        if (dx == 0 && dy == 0)
        {
            if (mx != 0 || my != 0)
                bad("pan", "the view moved although no direction is asked");
            return;
        }
        if (size < 50 * eps || size == 0)
            return;
        ctx.count("pans");
        double l = std::hypot(dx, dy);
        dx /= l;
        dy /= l;
        double along = mx * dx + my * dy, across = std::fabs(mx * dy - my * dx);
        if (!(along > 0) || across > 1e-3 * along + 2 * eps)
            bad("pan", fmt("the view moved by (%g, %g) when asked to move towards (%g, %g)", mx, my, dx, dy));
    }

    void postStep(TestScene& s, float dt)
    {
        if (&s != shownScene())
            return;
        if (s.clock)
        {
            double x    = s.clock->position()[0];
            double want = dt;
            if (prop == 23 && !(std::fabs(x - s.clockX - want) <= 1e-5 * want + 2e-6 * std::max(1.0, std::fabs(x))))
                bad("world-time", fmt("the world advanced by %.9g when stepped by %.9g", x - s.clockX, want));
            s.clockX = x;
        }
        // grabs that ended are gone, living ones are as they were
        if (grab.mustEnd)
        {
            if (prop == 24 && !grabs(s, true).empty())
                bad("grab-stays", "the grab is still in the world after its tool was switched away");
            grab.mustEnd = false;
            grab.on      = false;
        }
        checkGrab("a step");
        if (prop == 24)
        {
            std::size_t a = grabs(s, true).size(), l = grabs(s).size();
            if (a != l)
                bad("grab-remains", fmt("%zu grabs that ended are in the world after a step", a - l));
            if (grab.on)
            {
                ctx.count("steps with a grab");
                ctx.nontrivial = true;
                checkFollows(s, dt);
            }
        }
        if (prop == 26)
            expectPicture(s);
    }

    void checkFollows(TestScene& s, float dt)
    {
        auto  g = grabs(s);
        Vec2  a = g[0]->bodyPos(), b = g[0]->mousePos();
        double d = std::hypot(double(a[0]) - b[0], double(a[1]) - b[1]);
        Body* body = grab.body;
        bool  alone = true;
        for (auto* c : body->contacts())
        {
            (void)c;
            alone = false;
        }
        int n = 0;
        for (auto* c : body->constraints())
        {
            (void)c;
            ++n;
        }
        if (!alone || n != 1 || grab.start < 0 || grab.start > 1e8)
        {
            grab.quiet = 0;
            grab.start = d;
            return;
        }
        if (dt <= 0.f)
            return;
        if (dt > 1.f / 59.f)
        {
            grab.quiet = 0;
            grab.start = d;
            return;
        }
        // the grab is soft: heavy bodies take longer and sag more
        double mass = 0;
        for (const Collider& c : body->colliders())
            mass += c.properties().m;
        if (++grab.quiet == 100 + int(std::min(1e6, 8 * mass)))
        {
            ctx.count("grabs followed");
            if (!(d <= 0.1 * grab.start + 0.25 + 0.08 * mass))
                bad("grab-follows", fmt("after %d steps the grabbed point is %g away from the mouse (it was %g away)", grab.quiet, d, grab.start));
        }
    }

    // ---------------------------------------------------------------------- GUI
    bool click(const char* kind, const std::string& ctxName, const std::string& label) override
    {
        std::string k = kind;
        auto        take = [&](int id) {
            if (!clicks.count(id))
                return false;
            clicks.erase(id);
            ctx.ev("clicked", id);
            return true;
        };
        TestScene* s = shownScene();
        if (k == "menu")
        {
            if (ctxName == "Application" && label == "Select Scene")
                return take(kMenuScene);
            if (ctxName == "Engine" && label == "Settings")
                return take(kMenuSettings);
            if (ctxName == "Engine" && label == "Profiler")
                return take(kMenuProfiler);
            if (ctxName == "Tools" && label == "Select")
                return take(kMenuTools);
            if (ctxName == "Tools" && label == "Options")
                return take(kMenuToolOptions);
            if (ctxName == "Scene" && label == "Controls")
                return take(kMenuControls);
            if (ctxName == "Scene" && label == "Options")
                return take(kMenuOptions);
            return false;
        }
        if (k == "close")
            return ctxName == "Scene Controls" && take(kCloseControls);
        if (k == "selectable")
        {
            for (int i = 0; i < 3; ++i)
                if (label == sceneNames[i] && take(kSelectScene + i))
                {
                    ctx.count("scene selections");
                    if (s && s->index != i)
                    {
                        ended();
                        clicks.clear();
                    }
                    return true;
                }
            static const char* n[] = {NoTool::name, Grabber::name, BoxSpawner::name};
            for (int i = 0; i < 3; ++i)
                if (label == n[i] && take(kTool + i))
                {
                    ctx.count("tool selections");
                    leaveTool(label);
                    toolClicked = true;
                    return true;
                }
            return false;
        }
        if (k == "button" && s)
        {
            if (label.find("(P)") != std::string::npos)
            {
                if (!take(kPause))
                    return false;
                s->mPaused = !s->mPaused;
                ctx.count("pauses by the menu");
                return true;
            }
            if (label == "-" && take(kMinus))
            {
                speed(*s, 0.5f);
                return true;
            }
            if (label == "+" && take(kPlus))
            {
                speed(*s, 2.f);
                return true;
            }
            if (label.find("(R)") != std::string::npos && take(kRestart))
            {
                ended();
                clicks.clear();
                ctx.count("restarts by the menu");
                return true;
            }
            if (label == "Reset profiler")
                return take(kResetProfiler);
            return false;
        }
        if (k == "checkbox")
            return take(kWarm);
        return false;
    }
    bool toolClicked = false;

    std::optional<double> edit(const std::string&, const std::string& label) override
    {
        auto it = edits.find(label);
        if (it == edits.end())
            return std::nullopt;
        double v = it->second;
        edits.erase(it);
        return v;
    }

    // ------------------------------------------------------------------ drawing
    void expectShape(unsigned colour, Shape s)
    {
        Expected& e = expected[colour];
        double    a = polyArea(s);
        e.area += a;
        e.unit = std::min(e.unit, a);
        for (auto& p : s)
            e.scale = std::max({e.scale, std::fabs(p[0]), std::fabs(p[1])});
        e.shapes.push_back(std::move(s));
    }
    void expectArea(unsigned colour, double a, double scale)
    {
        Expected& e = expected[colour];
        e.area += a;
        if (a > 0)
            e.unit = std::min(e.unit, a);
        e.scale = std::max(e.scale, scale);
    }

    double pointArea(Renderer& r)
    {
        double n = r.getPointPrecision(), rad = r.getPointRadius();
        return n / 2 * rad * rad * std::sin(2 * M_PI / n);
    }

    void expectPicture(TestScene& s)
    {
        Renderer& r = *app->renderer();
        std::set<ContactConstraint*> contacts;
        for (Body& b : s.world().bodies())
        {
            for (auto* c : b.contacts())
                contacts.insert(c);
            Rgba colour;
            if (auto* v = dynamic_cast<SeenBody*>(&b))
                colour = v->seen;
            else if (dynamic_cast<VisibleBody*>(&b))
                colour = Rgba{225, 150, 240, 255}; // made by the box spawner
            else
                continue;
            for (const Collider& c : b.colliders())
            {
                Shape poly;
                for (Vec2 v : c.vertexView())
                    poly.push_back({v[0], v[1]});
                expectShape(key(colour), poly);
                BoundingBox x  = c.boundingBox();
                Rgba        bc = colour;
                bc[3]          = 80;
                expectShape(
                    key(bc),
                    {{x.min()[0], x.min()[1]}, {x.max()[0], x.min()[1]}, {x.max()[0], x.max()[1]}, {x.min()[0], x.max()[1]}}
                );
            }
        }
        for (ContactConstraint* c : contacts)
        {
            ContactInfo info = c->contactInfo();
            double      size = 1;
            for (Body* b : c->bodies())
                size = std::max({size, double(std::fabs(b->centroid()[0])), double(std::fabs(b->centroid()[1]))});
            for (Uint32 i = 0; i < info.nContacts; ++i)
            {
                double l = 10. * r.getLineWidth();
                expectArea(key(Rgba::filled(255)), 2 * pointArea(r) + l * r.getLineWidth(), size);
                checkMarkers(*c, info.refContacts[i], info.incContacts[i]);
                auto& pts = expected[key(Rgba::filled(255))].points;
                pts.push_back({info.refContacts[i][0], info.refContacts[i][1]});
                pts.push_back({info.incContacts[i][0], info.incContacts[i][1]});
                Vec2 n = info.refContacts[i] + info.normal * float(0.9 * l);
                pts.push_back({n[0], n[1]});
            }
            if (info.nContacts == 0)
                for (Body* b : c->bodies())
                {
                    expectArea(key(Rgba{255, 0, 0, 255}), pointArea(r), size);
                    expected[key(Rgba{255, 0, 0, 255})].points.push_back({b->centroid()[0], b->centroid()[1]});
                }
        }
        ctx.count("contacts drawn", i64(contacts.size()));
        for (Constraint& c : s.world().constraints())
        {
            if (auto* rope = dynamic_cast<Rope*>(&c))
            {
                expectArea(key(Rgba{50, 235, 235, 255}), rope->length() * r.getLineWidth(), 50);
                if (rope->length() > 0.1)
                    for (float x : {0.1f, 0.9f})
                        expected[key(Rgba{50, 235, 235, 255})].points.push_back(rope->along(x));
            }
            if (auto* m = dynamic_cast<VisibleMouseConstraint*>(&c))
            {
                Vec2 a = m->bodyPos(), b = m->mousePos();
                if (std::hypot(double(a[0]) - b[0], double(a[1]) - b[1]) > 0.1)
                    for (float x : {0.1f, 0.9f})
                    {
                        Vec2 q = a + (b - a) * x;
                        expected[key(Rgba{235, 50, 235, 255})].points.push_back({q[0], q[1]});
                    }
                expectArea(key(Rgba{235, 50, 235, 255}), std::hypot(double(a[0]) - b[0], double(a[1]) - b[1]) * r.getLineWidth(), 50);
            }
        }
        drawItems(s, r);
    }

    static bool near(Body& b, Vec2 p)
    {
        double m   = 1 + 0.1 * (std::fabs(b.velocity()[0]) + std::fabs(b.velocity()[1]) + 10 * std::fabs(b.angularVelocity()));
        bool   any = false;
        double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
        for (const Collider& col : b.colliders())
        {
            any           = true;
            BoundingBox x = col.boundingBox();
            x0 = std::min<double>(x0, x.min()[0]);
            y0 = std::min<double>(y0, x.min()[1]);
            x1 = std::max<double>(x1, x.max()[0]);
            y1 = std::max<double>(y1, x.max()[1]);
        }
        return !any || (p[0] > x0 - m && p[0] < x1 + m && p[1] > y0 - m && p[1] < y1 + m);
    }

    // a contact is marked by a point on each body
    void checkMarkers(ContactConstraint& c, Vec2 p, Vec2 q)
    {
        Body &a = *c.bodies()[0], &b = *c.bodies()[1];
        if (!((near(a, p) && near(b, q)) || (near(a, q) && near(b, p))))
            bad("contact-marker", fmt("a contact is drawn at (%g, %g) and (%g, %g), away from the bodies that touch, at (%g, %g) and (%g, %g)", p[0], p[1], q[0], q[1], a.centroid()[0], a.centroid()[1], b.centroid()[0], b.centroid()[1]));
    }

    void drawItems(TestScene& s, Renderer& r)
    {
        int n = 0;
        for (const Op& it : items)
        {
            if (int(it.arg(0)) != s.index || int(it.arg(1)) != iDraw)
                continue;
            ++n;
            Rng    g{u64(it.arg(4)) + 1};
            int    kind  = int(it.arg(2));
            int    count = int(it.arg(3));
            Rgba   col{Uint8(n % 256), Uint8(n / 256), 7, 200};
            Vec2   c{float(g.uni(-30, 30)), float(g.uni(-20, 20))};
            Shape  shape;
            std::vector<Vec2> v;
            auto poly = [&](int k, double rad) {
                double a0 = g.uni(0, 6.28);
                for (int i = 0; i < k; ++i)
                {
                    double a = a0 + 2 * M_PI * i / k;
                    v.push_back(c + Vec2{float(rad * std::cos(a)), float(rad * std::sin(a))});
                    shape.push_back({v.back()[0], v.back()[1]});
                }
            };
            const Vec2 *vb, *ve;
            switch (kind)
            {
                case 0:
                    poly(std::max(3, count), g.uni(0.5, 15));
                    vb = v.data();
                    ve = vb + v.size();
                    r.drawPolygon(c, makeView(vb, ve), col);
                    expectShape(key(col), shape);
                    break;
                case 1:
                    poly(3, g.uni(0.5, 10));
                    if (count % 2)
                        std::swap(v[0], v[1]);
                    r.drawTriangle(v[0], v[1], v[2], col);
                    expectShape(key(col), shape);
                    break;
                case 2:
                {
                    Vec2 b = c + Vec2{float(g.uni(0.5, 20)), float(g.uni(-20, 20))};
                    r.drawLine(c, b, col);
                    double l = std::hypot(double(b[0]) - c[0], double(b[1]) - c[1]), h = r.getLineWidth() / 2;
                    double nx = -(double(b[1]) - c[1]) / l * h, ny = (double(b[0]) - c[0]) / l * h;
                    expectShape(key(col), {{c[0] + nx, c[1] + ny}, {b[0] + nx, b[1] + ny}, {b[0] - nx, b[1] - ny}, {c[0] - nx, c[1] - ny}});
                    break;
                }
                case 3:
                {
                    r.drawPoint(c, col);
                    int    k   = int(r.getPointPrecision());
                    double rad = r.getPointRadius();
                    for (int i = 0; i < k; ++i)
                        shape.push_back({c[0] + rad * std::cos(2 * M_PI * i / k), c[1] + rad * std::sin(2 * M_PI * i / k)});
                    expectShape(key(col), shape);
                    break;
                }
                default:
                {
                    poly(std::max(3, count % 12), g.uni(0.5, 10));
                    Rgba edge{Uint8(n % 256), Uint8(n / 256), 9, 200};
                    vb = v.data();
                    ve = vb + v.size();
                    r.drawContouredPolygon(c, makeView(vb, ve), col, edge, float(g.uni(0.05, 1)));
                    expectShape(key(col), shape);
                    expected[key(edge)].inside.push_back(shape);
                    break;
                }
            }
        }
        ctx.count("shapes drawn by the scene", n);
    }

    static int contains(const appsim::Tri& t, P2 q)
    {
        double x0 = t.v[0].x, y0 = t.v[0].y, x1 = t.v[1].x, y1 = t.v[1].y, x2 = t.v[2].x, y2 = t.v[2].y;
        double d = (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0);
        if (d == 0)
            return 0;
        double a = ((q[0] - x0) * (y2 - y0) - (x2 - x0) * (q[1] - y0)) / d;
        double b = ((x1 - x0) * (q[1] - y0) - (q[0] - x0) * (y1 - y0)) / d;
        double m = std::min({a, b, 1 - a - b});
        return m > 1e-3 ? 1 : m < -1e-3 ? 0 : -1;
    }
    // -1: too close to the border to tell
    static int contains(const Shape& s, P2 q)
    {
        double m = 1e300, size = 0;
        double sign = 0;
        for (std::size_t i = 0; i < s.size(); ++i)
        {
            auto &a = s[i], &b = s[(i + 1) % s.size()];
            sign += (a[0] - s[0][0]) * (b[1] - s[0][1]) - (b[0] - s[0][0]) * (a[1] - s[0][1]);
            size = std::max({size, std::fabs(a[0] - s[0][0]), std::fabs(a[1] - s[0][1])});
        }
        sign = sign < 0 ? -1 : 1;
        for (std::size_t i = 0; i < s.size(); ++i)
        {
            auto & a = s[i], &b = s[(i + 1) % s.size()];
            double dx = b[0] - a[0], dy = b[1] - a[1], l = std::hypot(dx, dy);
            if (l > 0)
                m = std::min(m, sign * (dx * (q[1] - a[1]) - dy * (q[0] - a[0])) / l);
        }
        double eps = 1e-3 * size;
        return m > eps ? 1 : m < -eps ? 0 : -1;
    }

    void checkPicture()
    {
        auto& pic = S().pic;
        if (!expectedValid)
            bad("not-drawn", "a frame was shown for which the scene was not drawn");
        if (pic.badDraws || pic.badIndices)
            bad("indices", fmt("%ld draw calls and %ld triangles refer to what was not uploaded: ", pic.badDraws, pic.badIndices) + pic.bad);
        if (pic.clears != 1)
            bad("clears", fmt("the screen was cleared %d times in a frame", pic.clears));
        ctx.nontrivial = true;
        ctx.count("triangles", i64(pic.tris.size()));
        ctx.count("draw calls", pic.draws);
        if (pic.draws > 1)
            ctx.count("frames of several batches");
        checkTransforms();

        std::map<unsigned, std::vector<const appsim::Tri*>> drawn;
        for (auto& t : pic.tris)
        {
            if (key(t.v[0].c) != key(t.v[1].c) || key(t.v[0].c) != key(t.v[2].c))
                bad("colour", "the vertices of a triangle have different colours");
            drawn[key(t.v[0].c)].push_back(&t);
        }
        for (auto& [k, ts] : drawn)
            if (!expected.count(k))
                bad("extra", fmt("%zu triangles of colour %08x which nothing asked for", ts.size(), k));
        Rng g{u64(frame) + 5};
        for (auto& [k, e] : expected)
        {
            auto&  ts = drawn[k];
            double a = 0;
            for (auto* t : ts)
            {
                for (auto& v : t->v)
                    if (!std::isfinite(v.x) || !std::isfinite(v.y))
                        bad("vertices", "a vertex is not finite");
                a += std::fabs((double(t->v[1].x) - t->v[0].x) * (double(t->v[2].y) - t->v[0].y) - (double(t->v[2].x) - t->v[0].x) * (double(t->v[1].y) - t->v[0].y)) / 2;
            }
            if (!e.inside.empty())
            {
                for (auto& s : e.inside)
                {
                    if (a < polyArea(s))
                        bad("contour", "a contour is smaller than its polygon");
                    for (auto& p : s)
                    {
                        bool in = false;
                        for (auto* t : ts)
                            in = in || contains(*t, p) != 0;
                        if (!in)
                            bad("contour", "a contour does not surround its polygon");
                    }
                }
                continue;
            }
            double tol = 1e-3 * e.area + 1e-4 * e.scale * (1 + e.scale * 0.01) * 0.1 + 1e-9;
            if (e.shapes.empty())
                tol = std::max(1e-3 * e.area, std::min(0.3 * e.unit, 0.02 * e.area + 1e-4 * e.scale)) + 1e-5 * e.scale;
            if (!(std::fabs(a - e.area) <= tol))
                bad(a < e.area ? "missing" : "repeated", fmt("colour %08x covers an area of %.9g instead of %.9g (%zu triangles)", k, a, e.area, ts.size()));
            for (auto& p : e.points)
            {
                bool in = false;
                for (auto* t : ts)
                    in = in || contains(*t, p) != 0;
                if (!in)
                    bad("misplaced", fmt("nothing of colour %08x is drawn at (%g, %g)", k, p[0], p[1]));
            }
            // sample points
            int samples = std::min<int>(40, int(e.shapes.size()) * 2);
            for (int i = 0; i < samples; ++i)
            {
                const Shape& s = e.shapes[g.below(e.shapes.size())];
                P2           q{0, 0};
                double       w = 0;
                for (int j = 0; j < 3; ++j)
                {
                    auto&  p = s[g.below(s.size())];
                    double u = g.uni(0.05, 1);
                    q[0] += u * p[0];
                    q[1] += u * p[1];
                    w += u;
                }
                q[0] /= w;
                q[1] /= w;
                int want = 0, got = 0;
                bool unsure = false;
                for (auto& x : e.shapes)
                {
                    int c = contains(x, q);
                    unsure = unsure || c < 0;
                    want += c > 0;
                }
                for (auto* t : ts)
                {
                    int c = contains(*t, q);
                    unsure = unsure || c < 0;
                    got += c > 0;
                }
                if (unsure)
                    continue;
                ctx.count("points sampled");
                if (want != got)
                    bad("coverage", fmt("(%g, %g) is covered %d times instead of %d by colour %08x", q[0], q[1], got, want, k));
            }
        }
    }

    void checkTransforms()
    {
        TestScene* s   = shownScene();
        auto&      pic = S().pic;
        View       v   = view(s->camera());
        double     m[9] = {v.sx, 0, -v.sx * v.cx, 0, v.sy, -v.sy * v.cy, 0, 0, 1};
        for (auto& t : pic.tris)
            (void)t;
        for (auto& t : pic.transforms)
            for (int i = 0; i < 9; ++i)
            {
                double tol = 1e-5 * (1 + std::fabs(m[i]));
                if (!(std::fabs(t[i] - m[i]) <= tol))
                    bad("transform", fmt("drawn with element %d of the camera transform equal to %g instead of %g", i, t[i], m[i]));
            }
    }

    void checkDrawnView(TestScene& s)
    {
        checkTransforms();
        for (auto& p : S().pic.viewports)
            if (p[0] != 0 || p[1] != 0 || p[2] != S().fw || p[3] != S().fh)
                bad("viewport", fmt("drawn in (%d, %d) %d x %d of a framebuffer of %d x %d", p[0], p[1], p[2], p[3], S().fw, S().fh));
        if (S().w > 0 && S().h > 0)
        {
            Vec2   d = s.camera().viewDimensions();
            double x = S().w * double(s.camera().pixelSize()), y = S().h * double(s.camera().pixelSize());
            if (std::fabs(d[0] - x) > 1e-5 * x || std::fabs(d[1] - y) > 1e-5 * y)
                bad("pixel-size", fmt("the view is %g x %g in a window of %d x %d pixels of size %g", d[0], d[1], S().w, S().h, s.camera().pixelSize()));
        }
    }


    // --------------------------------------------------------------------- twins
    void twinFrame(TestScene& s)
    {
        TwinFrame f{};
        u64       pic = 0;
        for (auto& t : S().pic.tris)
        {
            u64 h = 3;
            for (auto& v : t.v)
            {
                unsigned x, y;
                std::memcpy(&x, &v.x, 4);
                std::memcpy(&y, &v.y, 4);
                h = mixHash(mixHash(h, x), mixHash(y, key(v.c)));
            }
            pic += h; // contacts are drawn in any order
        }
        f.hash   = mixHash(worldHash(s), pic);
        f.bodies = int(nBodies(s));
        for (Constraint& c : s.world().constraints())
        {
            (void)c;
            ++f.constraints;
        }
        for (Body& b : s.world().bodies())
        {
            f.x += b.position()[0];
            f.y += b.position()[1];
        }
        if (twin)
        {
            twinLog->push_back(f);
            return;
        }
        if (!comparing || refScene != s.index)
            return;
        ctx.count("frames compared with a fresh application");
        if (refAt >= reference.size())
            return;
        ctx.nontrivial = true;
        TwinFrame& r = reference[refAt++];
        if (r.hash != f.hash)
            bad("twin", fmt("frame %zu after the scene restarted differs from a fresh application's: %d bodies (%d), %d constraints (%d), sum of positions %.9g %.9g (%.9g %.9g)", refAt, f.bodies, r.bodies, f.constraints, r.constraints, f.x, f.y, r.x, r.y));
    }

    void afterInit(TestScene& s);
    void runTwin(TestScene& from, int fd, bool fromGui);

    void run(Application& a, int nScenes)
    {
        app = &a;
        for (int i = 0; i < nScenes; ++i)
            a.registerScene<TestScene>(sceneNames[i], *this, i);
    }
};

TestScene::TestScene(Driver& dr, int i) : d{dr}, index{i}
{
    registerAllTools();
    d.scenes.push_back(this);
    int t = int(d.plan.get("tool", 1));
    use(t == 0 ? NoTool::name : t == 1 ? Grabber::name : BoxSpawner::name);
    camera().setPixelSize(float(d.plan.get("pixel", 0.1)));
    auto st               = world().settings();
    st.enableSleeping     = d.plan.get("sleep", 0) > 0;
    world().updateSettings(st);
}

void TestScene::init(Renderer& r)
{
    ++inits;
    if (d.prop == 25)
    {
        int n = 0;
        for (Body& b : world().bodies())
        {
            (void)b;
            ++n;
        }
        for (Constraint& c : world().constraints())
        {
            (void)c;
            ++n;
        }
        for (ForceField& f : world().forceFields())
        {
            (void)f;
            ++n;
        }
        world().forEachIn(BoundingBox{Vec2{-1e6f, -1e6f}, Vec2{1e6f, 1e6f}}, [&](Body*) { ++n; });
        if (n != 0)
            d.bad("not-cleared", fmt("%d objects are in the world when the scene is initialised", n));
    }
    d.ctx.count("scene initialisations");
    d.ctx.ev("init", index, inits);
    made.clear();
    clock = nullptr;

    r.setPointPrecision(Uint32(d.plan.get("precision", 4)));
    r.setPointRadius(float(d.plan.get("radius", 0.1)));
    r.setLineWidth(float(d.plan.get("width", 0.1)));

    int  colour = 0;
    auto place  = [&](const Op& op, const std::vector<Polygon>& polys, double dom, bool vis) {
        BodyDescriptor bd{Vec2{float(op.arg(2)), float(op.arg(3))}, float(op.arg(6)), float(dom)};
        Body*          b;
        ++colour;
        if (vis)
        {
            Rgba c{Uint8(colour % 256), Uint8(colour / 256), Uint8(40 + index), 255};
            b = world().makeBody<SeenBody>(bd, c, &r);
        }
        else
            b = world().makeBody<Body>(bd);
        for (auto& p : polys)
        {
            ColliderDescriptor cd{p};
            cd.material.friction.value = 0.5f;
            b->addCollider(cd);
        }
        made.push_back(b);
        return b;
    };
    for (const Op& op : d.items)
    {
        if (int(op.arg(0)) != index)
            continue;
        switch (int(op.arg(1)))
        {
            case iBox: place(op, {Polygon::box(Vec2{float(op.arg(4)), float(op.arg(5))})}, 1, true); break;
            case iPlain: place(op, {Polygon::box(Vec2{float(op.arg(4)), float(op.arg(5))})}, 1, false); break;
            case iFloor: place(op, {Polygon::box(Vec2{float(op.arg(4)), float(op.arg(5))})}, 0, true); break;
            case iDouble:
                place(
                    op,
                    {Polygon::box(Vec2{float(op.arg(4)), float(op.arg(5))}),
                     Polygon::box(Vec2{float(op.arg(5)), float(op.arg(4))}, Vec2{float(op.arg(4)) / 2, 0.3f})},
                    1,
                    true
                );
                break;
            case iNgon:
            {
                Vertices v;
                int      n = std::max(3, int(op.arg(5)));
                for (int i = 0; i < n; ++i)
                {
                    double a = 2 * M_PI * i / n;
                    v.emplace_back(float(op.arg(4)) * Vec2{float(std::cos(a)), float(std::sin(a))});
                }
                place(op, {Polygon{v.begin(), v.end()}}, 1, true);
                break;
            }
            case iGravity: world().makeForceField<Gravity>(Vec2{float(op.arg(2)), float(op.arg(3))}); break;
            case iClock:
            {
                clock = world().makeBody<Body>(BodyDescriptor{Vec2{0, 500}, 0, 0});
                clock->setVelocity(Vec2{1, 0});
                clockX = 0;
                break;
            }
            case iRope:
            case iHinge:
            {
                if (made.size() < 2)
                    break;
                Body* a = made[op.pick(2) % made.size()];
                Body* b = made[op.pick(3) % made.size()];
                if (a == b || (a->isStructural() && b->isStructural()))
                    break;
                Bodies bodies{a, b};
                if (int(op.arg(1)) == iHinge)
                    world().makeConstraint<HingeConstraint>(bodies, (a->centroid() + b->centroid()) / 2.f);
                else
                {
                    std::array<Vec2, 2> pts{a->centroid(), b->centroid()};
                    if (op.arg(4) >= 3) // a slack rope, whose ends are at the same place
                        pts[1] = pts[0];
                    float len = std::hypot(pts[0][0] - pts[1][0], pts[0][1] - pts[1][1]);
                    if (op.arg(4) >= 1)
                        world().makeConstraint<Rope>(bodies, pts, std::nullopt, std::optional<float>{len + 1.f}, &r, op.arg(5) > 0);
                    else
                        world().makeConstraint<Rope>(bodies, pts, &r, op.arg(5) > 0);
                }
                break;
            }
            default: break;
        }
    }
    d.afterInit(*this);
}

void TestScene::preStep(float dt) { d.preStep(*this, dt); }
void TestScene::postStep(float dt) { d.postStep(*this, dt); }
bool TestScene::onMousePress(Mouse::Input in)
{
    d.received = in.pos;
    ++d.receivedCount;
    return Scene::onMousePress(in);
}
bool TestScene::onMouseMove(Vec2 p)
{
    d.received = p;
    ++d.receivedCount;
    return Scene::onMouseMove(p);
}

// A scene was initialised: from now on it must evolve like one of a fresh application.
void Driver::afterInit(TestScene& s)
{
    nKnown = nBodies(s);
    if (prop == 24 || prop == 23)
        return;
    if (prop != 25 || twin || !started)
        return;
    comparing = false;
    int left = 0;
    for (std::size_t i = next; i < plan.ops.size(); ++i)
        left += plan.ops[i].kind == "frame";
    if (left < 3 || twins >= 4)
        return;
    ++twins;
    ctx.count("fresh applications");
    int fd[2];
    if (pipe(fd) != 0)
        ctx.error("pipe");
    pid_t pid = fork();
    if (pid < 0)
        ctx.error("fork");
    if (pid == 0)
    {
        close(fd[0]);
        beginChild();
        runTwin(s, fd[1], inGui);
    }
    close(fd[1]);
    std::string p = joinChild(pid, fd[0]);
    reference.assign(p.size() / sizeof(TwinFrame), TwinFrame{});
    std::memcpy(reference.data(), p.data(), reference.size() * sizeof(TwinFrame));
    refAt     = 0;
    comparing = true;
    refScene  = s.index;
}

void Driver::runTwin(TestScene& from, int fd, bool fromGui)
{
    static std::vector<TwinFrame> log;
    appsim::Sim before = S();
    S().reset(nullptr);
    Driver* t = new Driver{plan, ctx, prop};
    appsim::Sim fresh = S();
    S()               = before; // the window, and everything that is held down, are as they were
    S().hooks         = t;
    S().pic           = fresh.pic;
    S().viewport      = fresh.viewport;
    t->items   = items;
    t->next    = next;
    t->clicks  = clicks;
    t->edits   = edits;
    t->twin    = true;
    t->twinLog = &log;
    t->started = true;
    t->frame   = frame;
    t->skipPoll = fromGui;
    t->renderTicks = renderTicks;
    t->swapTicks = swapTicks;
    t->twinBase = fromGui ? S().now - elapsed : S().base;
    t->lastRead = lastRead;
    Application* a = new Application;
    t->app         = a;
    // scenes before it are not shown; its own is
    t->scenes.clear();
    a->registerScene<TestScene>(sceneNames[from.index], *t, from.index);
    TestScene& s = *t->shownScene();
    s.camera().setZoom(from.camera().zoom());
    s.camera().panTo(from.camera().center());
    s.setPlaySpeed(from.playSpeed());
    if (from.isPaused())
        s.pause();
    s.use(from.tool()->getName());
    s.world().updateSettings(from.world().settings());
    s.mPaused = from.mPaused;
    s.mSpeed  = from.mSpeed;
    a->run();
    endChild(fd, std::string(reinterpret_cast<const char*>(log.data()), log.size() * sizeof(TwinFrame)));
}

void exec(int prop, const Plan& plan, Ctx& ctx)
{
    if (appsim::S == nullptr)
        appsim::S = new appsim::Sim;
    Driver d{plan, ctx, prop};
    appsim::S->reset(&d);
    appsim::S->w  = int(plan.get("w", 640));
    appsim::S->h  = int(plan.get("h", 480));
    appsim::S->fw = int(plan.get("w", 640) * plan.get("scale", 1));
    appsim::S->fh = int(plan.get("h", 480) * plan.get("scale", 1));
    for (auto& op : plan.ops)
        if (op.kind == "item")
            d.items.push_back(op);
    {
        Application app;
        d.started = plan.get("scenes", 1) > 0;
        d.lastRead = appsim::S->now;
        d.run(app, int(plan.get("scenes", 1)));
        app.run();
        d.app = nullptr;
    }
    appsim::S->hooks = nullptr;
}

// ------------------------------------------------------------------- generation
Plan gen(int prop, Rng& r, int tier)
{
    Plan p;
    p.cfg["heapSeed"]  = double(r.below(1000));
    p.cfg["heapFill"]  = double(r.below(4));
    p.cfg["clockTick"] = double(r.below(1000));
    p.cfg["w"]         = r.range(200, 1600);
    p.cfg["h"]         = r.range(200, 1200);
    static const double scales[] = {1, 1, 1, 1.5, 2};
    p.cfg["scale"]     = scales[r.below(5)];
    int nScenes        = prop == 25 ? r.range(1, 3) : r.chance(0.7) ? 1 : r.range(2, 3);
    p.cfg["scenes"]    = nScenes;
    p.cfg["tool"]      = prop == 24 ? 1 : prop == 29 ? (r.chance(0.8) ? 2 : double(r.below(2))) : prop == 27 ? (r.chance(0.7) ? 0 : 1) : double(r.below(3));
    p.cfg["pixel"]     = r.chance(0.6) ? 0.1 : r.uni(0.03, 0.3);
    p.cfg["sleep"]     = r.chance(0.2);
    p.cfg["precision"] = prop == 26 ? (r.chance(0.1) ? r.range(13, 300) : r.range(3, 12)) : 4;
    p.cfg["radius"]    = prop == 26 ? r.uni(0.05, 0.5) : 0.1;
    p.cfg["width"]     = prop == 26 ? r.uni(0.05, 0.5) : 0.1;

    bool extremeSpeed = prop == 23 && r.chance(0.15);
    bool stopGo       = prop == 26 && r.chance(0.4);
    bool extremeZoom  = prop == 27 && r.chance(0.2);

    for (int s = 0; s < nScenes; ++s)
    {
        double S = s;
        if (prop == 23 || r.chance(0.3))
            p.add("item", {S, double(iClock)});
        if (extremeSpeed)
            continue;
        bool gravity = r.chance(0.75);
        if (r.chance(0.75))
            p.add("item", {S, double(iFloor), 0, -14, r.uni(40, 80), 4, 0});
        bool many = prop == 26 && !stopGo && r.chance(0.15);
        int  n    = stopGo ? r.range(4, 30) : many ? r.range(60, tier ? 400 : 160) : prop == 25 && r.chance(0.2) ? r.range(10, 30) : r.range(1, 8);
        for (int i = 0; i < n; ++i)
        {
            double x = r.uni(-20, 20), y = r.uni(-10, 15);
            if (many)
                x = r.uni(-200, 200), y = r.uni(-10, 150);
            if (stopGo) // many contacts begin
                x = r.uni(-15, 15), y = r.uni(-11.5, -2);
            if (prop == 24 && r.chance(0.4))
                x = r.uni(-3, 3), y = r.uni(-3, 3); // overlapping
            double th = r.chance(0.5) ? 0 : r.uni(-3, 3);
            double a = r.uni(0.6, 4), b = r.uni(0.6, 4);
            if (prop == 24 && r.chance(0.6))
                a = r.uni(0.6, 1.5), b = r.uni(0.6, 1.5);
            switch (r.below(6))
            {
                case 0: p.add("item", {S, double(iNgon), x, y, r.uni(0.5, 2.5), double(r.chance(0.05) ? r.range(20, 60) : r.range(3, 10)), th}); break;
                case 1: p.add("item", {S, double(iDouble), x, y, a, b, th}); break;
                case 2: p.add("item", {S, double(iPlain), x, y, a, b, th}); break;
                default: p.add("item", {S, double(iBox), x, y, a, b, th}); break;
            }
        }
        int joints = r.chance(0.5) ? 0 : r.range(1, 3);
        for (int i = 0; i < joints; ++i)
        {
            if (r.chance(0.7))
                p.add("item", {S, double(iRope), double(r.below(20)), double(r.below(20)), double(r.below(prop == 26 ? 4 : 2)), double(r.below(2))});
            else
                p.add("item", {S, double(iHinge), double(r.below(20)), double(r.below(20))});
        }
        if (gravity)
            p.add("item", {S, double(iGravity), 0, -10});
        if (prop == 26)
        {
            int k = stopGo || r.chance(0.3) ? 0 : r.chance(0.3) ? r.range(20, 300) : r.range(1, 12);
            for (int i = 0; i < k; ++i)
            {
                double c = r.chance(0.9) ? r.range(3, 12) : r.chance(0.9) ? r.range(100, 2000) : r.chance(0.8) ? r.range(900, 1100) : r.range(5000, 60000);
                p.add("item", {S, double(iDraw), double(r.below(5)), c, double(r.below(100000))});
            }
        }
    }

    int    frames   = prop == 23 ? r.range(20, 120) : prop == 26 ? (stopGo ? r.range(30, 60) : r.range(4, 25)) : prop == 25 ? r.range(15, 80) : r.range(20, 120);
    bool   held     = false;
    double speedLog = 0;
    auto   frame    = [&](double seconds) {
        double ticks  = std::floor(seconds / tick);
        double render = std::floor(ticks * r.uni(0, 0.4)), swap = std::floor(ticks * r.uni(0, 0.4));
        p.add("frame", {ticks - render - swap, render, swap});
    };
    auto duration = [&] {
        switch (r.below(12))
        {
            case 0: return 0.0;
            case 1: return r.uni(0.05, 3);
            case 2:
            case 3: return r.uni(0.0005, 0.008);
            default: return r.uni(0.012, 0.025);
        }
    };
    auto pressKey = [&](double k) {
        p.add("key", {k, 1});
        if (r.chance(0.15))
            p.add("key", {k, 2});
        if (r.chance(0.9))
            p.add("key", {k, 0});
    };
    auto slower = [&] {
        if (speedLog > -4)
        {
            --speedLog;
            return true;
        }
        return false;
    };
    auto faster = [&] {
        if (speedLog < (prop == 23 ? 1 : 2))
        {
            ++speedLog;
            return true;
        }
        return false;
    };
    bool controls = false;
    // controls are usually opened first
    if (prop == 29 && r.chance(0.9))
        p.add("click", {double(kMenuToolOptions)});
    if (prop == 23 || prop == 25)
        if (r.chance(0.7))
        {
            p.add("click", {double(kMenuControls)});
            controls = true;
            frame(0.016);
        }

    std::vector<double> w(20, 0);
    enum
    {
        eS,
        eP,
        eSpeed,
        eReset,
        eBtn,
        eMove,
        eOver,
        eScroll,
        eResize,
        eCapture,
        eClick,
        eKill,
        eUse,
        ePan,
        eHold,
        ePauseApi,
        eEdit,
        eKillGrab,
        eSceneSel,
        eOther
    };
    switch (prop)
    {
        case 23: w = {3, 3, 2, 0.7, 1, 1, 1, 0.3, 0.3, 0.6, 4, 0.4, 0.4, 0.5, 0, 0.5, 0.3, 0, 0.8, 0.3}; break;
        case 24: w = {0.4, 0.4, 0, 0.5, 5, 4, 5, 0.5, 0.3, 0.5, 1, 1.5, 1.2, 0.3, 0.7, 0.1, 0, 0.6, 0.5, 0.3}; break;
        case 25: w = {0.7, 0.6, 0.5, 1.6, 2, 2, 2.5, 0.4, 0.3, 0.2, 0.6, 0.7, 0.6, 0.4, 0, 0.2, 0, 0, 1.2, 0.3}; break;
        case 29: w = {0.3, 0.3, 0, 0.3, 5, 4, 1, 0.8, 0.6, 0.4, 0.3, 0.6, 0.5, 0.6, 0, 0.1, 3, 0, 0.5, 0.3}; break;
        case 26: w = {0.8, 0.5, 0, 0.5, 2, 1, 2, 0.8, 0.4, 0.2, 0.3, 0.8, 0.5, 0.7, 0, 0.2, 0, 0.2, 0.4, 0.2}; break;
        default: w = {0.4, 0.3, 0, 0.3, 2, 5, 1.5, 3.5, 1.5, 0.4, 0.3, 0.2, 0.4, 3, 0, 0.1, 0, 0, 0.7, 0.3}; break;
    }
    bool   stopped = true;
    double perFrame = prop == 24 ? 0.8 : prop == 27 ? 1.2 : 0.7;
    int    burst    = 0;
    for (int f = 0; f < frames; ++f)
    {
        while (r.chance(perFrame / (1 + perFrame)))
        {
            switch (r.weighted(w))
            {
                case eS: pressKey('S'); break;
                case eP: pressKey('P'); break;
                case eSpeed:
                    if (r.chance(0.5) ? slower() : false)
                        pressKey('-');
                    else if (faster())
                        pressKey('=');
                    break;
                case eReset:
                    if (r.chance(0.6))
                        pressKey('R');
                    else if (r.chance(0.5))
                        p.add("reset");
                    else if (controls)
                        p.add("click", {double(kRestart)});
                    break;
                case eBtn:
                {
                    double b = r.chance(0.85) ? 0 : double(r.range(1, 2));
                    bool   down = b == 0 ? (r.chance(0.85) ? !held : held) : r.chance(0.5);
                    if (b == 0)
                        held = down;
                    p.add("btn", {b, down ? 1.0 : 0.0});
                    break;
                }
                case eMove: p.add("move", {r.uni(-0.1, 1.1), r.uni(-0.1, 1.1)}); break;
                case eOver:
                    p.add("over", {double(r.below(30)), r.uni(-0.3, 0.3), r.uni(-0.3, 0.3)});
                    if (r.chance(0.7))
                    {
                        p.add("btn", {0, 1});
                        held = true;
                    }
                    break;
                case eScroll:
                    p.add("scroll", {r.chance(0.7) ? 0 : r.uni(-2, 2), r.chance(0.5) ? (r.chance(0.5) ? 1.0 : -1.0) : r.chance(0.2) ? 0 : r.chance(0.5) ? double(r.range(-3, 3)) : r.uni(-3, 3)});
                    break;
                case eResize:
                {
                    static const double sc[] = {1, 1, 1.5, 2};
                    if (r.chance(0.2)) // minimised
                        p.add("resize", {r.chance(0.6) ? 0.0 : double(r.range(100, 900)), 0, 1, double(r.below(2))});
                    p.add("resize", {double(r.range(100, 1600)), double(r.range(100, 1200)), sc[r.below(4)], double(r.below(2))});
                    break;
                }
                case eCapture: p.add("capture", {double(r.chance(0.3)), double(r.chance(0.3))}); break;
                case eClick:
                {
                    int c = int(r.below(nClicks));
                    if (prop == 23 && r.chance(0.6))
                        c = r.chance(0.5) ? kPause : r.chance(0.5) ? kMenuControls : r.chance(0.5) ? (slower() ? kMinus : kRestart) : (faster() ? kPlus : kRestart);
                    if (c == kMenuSettings && prop == 25)
                        c = kMenuProfiler; // its settings outlive scenes
                    if (c == kMinus || c == kPlus)
                        if (!(prop == 23))
                            c = kMenuScene;
                    if (prop == 29 && r.chance(0.3))
                        c = kMenuToolOptions;
                    p.add("click", {double(c)});
                    break;
                }
                case eKill:
                    p.add("kill", {prop == 24 && r.chance(0.5) ? -1.0 : double(r.below(30))});
                    break;
                case eUse:
                    if (r.chance(0.5))
                        p.add("use", {double(prop == 24 && r.chance(0.6) ? 1 : prop == 29 && r.chance(0.7) ? 2 : r.below(3))});
                    else
                        p.add("click", {double(kTool + int(prop == 24 && r.chance(0.6) ? 1 : prop == 29 && r.chance(0.7) ? 2 : r.below(3)))});
                    break;
                case ePan:
                {
                    double k = 262 + double(r.below(4));
                    p.add("key", {k, r.chance(0.6) ? 1.0 : 0.0});
                    break;
                }
                case eHold:
                    if (r.chance(0.3))
                        burst = 1;
                    break;
                case ePauseApi: p.add("pause", {double(r.below(2))}); break;
                case eEdit:
                    if (prop == 29)
                        p.add("edit", {12 + double(r.below(6)), r.chance(0.1) ? double(r.below(2)) : r.uni(0, 1)});
                    else
                        p.add("edit", {double(r.below(2)), r.uni(0.1, 1)});
                    break;
                case eKillGrab: p.add("killgrab"); break;
                case eSceneSel: p.add("click", {double(kSelectScene + int(r.below(u64(nScenes))))}); break;
                default: p.add("key", {double(r.range(65, 90)) == 'R' ? 90.0 : double('X'), double(r.below(3))}); break;
            }
        }
        if (burst)
        {
            // nothing happens for a while
            burst = 0;
            for (int i = 0; i < 130; ++i)
                frame(r.uni(0.014, 0.02));
        }
        frame(duration());
        if (stopGo)
        {
            p.add("pause", {double(stopped)});
            stopped = !stopped;
        }
    }
    if (extremeSpeed)
    {
        int n = r.range(100, 170);
        if (r.chance(0.7))
            p.add("key", {double('P'), 1});
        bool up = r.chance(0.7);
        for (int i = 0; i < n; ++i)
        {
            p.add("key", {double(up ? '=' : '-'), 1});
            if (i % 20 == 0 && up && p.ops.back().kind == "x")
                frame(0.016);
        }
        p.add("pause", {1});
        frame(0.016);
        frame(0.016);
        for (int i = 0; i < n - 10; ++i)
            p.add("key", {double(up ? '-' : '='), 1});
        frame(0.01);
    }
    if (extremeZoom)
    {
        double y = r.chance(0.5) ? r.uni(1, 5) : -r.uni(1, 5);
        int    n = r.range(50, 500);
        for (int i = 0; i < n; ++i)
        {
            p.add("scroll", {0, y});
            if (r.chance(0.03))
                p.add("move", {r.uni(0, 1), r.uni(0, 1)});
            if (r.chance(0.03))
                frame(0.016);
        }
        p.add("key", {262.0 + double(r.below(4)), 1});
        for (int i = 0; i < 5; ++i)
        {
            p.add("move", {r.uni(0, 1), r.uni(0, 1)});
            frame(0.016);
        }
    }
    frame(0.016);
    frame(0.016);
    return p;
}

Prop make(const char* id, int n)
{
    Prop p;
    p.id      = id;
    p.gen     = [n](Rng& r, int tier) { return gen(n, r, tier); };
    p.exec    = [n](const Plan& pl, Ctx& c) { exec(n, pl, c); };
    p.isolate = true;
    return p;
}

Register r23{make("C23", 23)}, r24{make("C24", 24)}, r25{make("C25", 25)}, r26{make("C26", 26)}, r27{make("C27", 27)}, r29{make("C29", 29)};

} // namespace
} // namespace sim
