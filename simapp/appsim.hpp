// The simulated window system, graphics library and GUI which the application runs on.
#pragma once

#include <array>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace appsim
{

struct Vertex
{
    float         x = 0, y = 0;
    unsigned char c[4]{};
};

struct Tri
{
    Vertex v[3];
    int    transform = 0; // index in Picture::transforms
};

// what one frame draws: everything since the screen was last cleared
struct Picture
{
    std::vector<Tri>                  tris;
    std::vector<std::array<float, 9>> transforms; // row major
    std::vector<std::array<int, 4>>   viewports;  // in use at each draw call
    int                               clears = 0;
    int                               draws  = 0;
    long                              badIndices = 0, badDraws = 0;
    std::string                       bad;
};

// what the simulation decides and observes
struct Hooks
{
    virtual ~Hooks() = default;

    virtual void poll() {}      // deliver events until the frame begins
    virtual void render() {}    // the GUI is being drawn
    virtual void swap() {}      // the frame is shown
    // is the widget clicked now?
    virtual bool click(const char* kind, const std::string& context, const std::string& label) { return false; }
    // the widget's new value, as a ratio of its range
    virtual std::optional<double> edit(const std::string& context, const std::string& label) { return std::nullopt; }
    // a slider was drawn: its value before, and whether it was just changed
    virtual void slider(const std::string& context, const std::string& label, double before, double now, bool edited) {}
    virtual void shown(const char* kind, const std::string& context, const std::string& label) {}
    virtual void misuse(const std::string& what) {}
};

struct Sim
{
    bool keepTriangles = true; // in the picture, else they are checked only
    Hooks* hooks = nullptr;

    // window
    double        now = 0, base = 0; // seconds
    int           w = 640, h = 480, fw = 640, fh = 480;
    bool          shouldClose = false;
    std::set<int> keys, buttons;
    double        cx = 0, cy = 0;
    bool          captureKeyboard = false, captureMouse = false;
    int           windows = 0, inits = 0;

    // graphics
    Picture            pic;
    std::array<int, 4> viewport{0, 0, 0, 0};

    void sendKey(int key, int action, int mods);
    void sendButton(int button, int action, int mods);
    void sendMove(double x, double y);
    void sendScroll(double x, double y);
    // order: framebuffer event first or last
    void sendResize(int w, int h, int fw, int fh, bool framebufferFirst);

    // starts over
    void reset(Hooks* h);
};

extern Sim* S;

} // namespace appsim
