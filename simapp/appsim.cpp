#include "appsim.hpp"

#include <cmath>
#include <cstdarg>
#include <cstring>
#include <memory>

#include "GLFW/glfw3.h"
#include "glbinding/glbinding.h"
#include "glbinding/gl33core/gl.h"
#include "imgui.h"
#include "imgui_internal.h"
#include "backends/imgui_impl_glfw.h"
#include "backends/imgui_impl_opengl3.h"

struct GLFWwindow
{
    void*                  user = nullptr;
    GLFWwindowsizefun      size = nullptr;
    GLFWframebuffersizefun fb   = nullptr;
    GLFWkeyfun             key  = nullptr;
    GLFWmousebuttonfun     button = nullptr;
    GLFWcursorposfun       move = nullptr;
    GLFWscrollfun          scroll = nullptr;
    GLFWcharfun            ch = nullptr;
    GLFWcursorenterfun     enter = nullptr;
    GLFWwindowclosefun     close = nullptr;
    GLFWwindowfocusfun     focus = nullptr;
    GLFWwindowiconifyfun   iconify = nullptr;
    GLFWwindowrefreshfun   refresh = nullptr;
};

namespace appsim
{

Sim* S = nullptr;

namespace
{

GLFWwindow* win     = nullptr;
GLFWwindow* current = nullptr;

struct Attrib
{
    bool        enabled = false;
    int         size    = 4;
    unsigned    type    = gl::GL_FLOAT;
    bool        norm    = false;
    int         stride  = 0;
    std::size_t offset  = 0;
    unsigned    vbo     = 0;
};

struct Vao
{
    Attrib   a[4];
    unsigned ebo = 0;
};

struct Gl
{
    unsigned                                      next = 1;
    std::map<unsigned, Vao>                       vaos;
    std::map<unsigned, std::vector<unsigned char>> buffers;
    std::map<unsigned, std::map<int, std::array<float, 9>>> programs;
    unsigned                                      vao = 0, vbo = 0, program = 0;
};
Gl* G = nullptr;

struct Gui
{
    bool                         context = false, inFrame = false;
    ImGuiIO                      io;
    ImGuiStyle                   style;
    ImGuiViewport                viewport;
    std::vector<std::string>     stack; // nested windows and menus
    std::map<std::string, ImGuiWindow> windows;
    std::set<std::string>        names;
    ImGuiWindow                  none;
    int                          dock = 1;
};
Gui* U = nullptr;

void misuse(const std::string& s)
{
    if (S->hooks)
        S->hooks->misuse(s);
}

} // namespace

void Sim::reset(Hooks* h)
{
    double keepNow = now;
    *this          = Sim{};
    now            = keepNow;
    base           = now;
    hooks          = h;
    delete win;
    win = current = nullptr;
    delete G;
    G = new Gl;
    delete U;
    U = new Gui;
}

void Sim::sendKey(int key, int action, int mods)
{
    if (action == GLFW_RELEASE)
        keys.erase(key);
    else
        keys.insert(key);
    if (win && win->key)
        win->key(win, key, 0, action, mods);
}
void Sim::sendButton(int b, int action, int mods)
{
    if (action == GLFW_RELEASE)
        buttons.erase(b);
    else
        buttons.insert(b);
    if (win && win->button)
        win->button(win, b, action, mods);
}
void Sim::sendMove(double x, double y)
{
    cx = x;
    cy = y;
    if (win && win->move)
        win->move(win, x, y);
}
void Sim::sendScroll(double x, double y)
{
    if (win && win->scroll)
        win->scroll(win, x, y);
}
void Sim::sendResize(int w_, int h_, int fw_, int fh_, bool fbFirst)
{
    w  = w_;
    h  = h_;
    fw = fw_;
    fh = fh_;
    if (!win)
        return;
    if (fbFirst && win->fb)
        win->fb(win, fw, fh);
    if (win->size)
        win->size(win, w, h);
    if (!fbFirst && win->fb)
        win->fb(win, fw, fh);
}

} // namespace appsim

using namespace appsim;

// ------------------------------------------------------------------------- GLFW
extern "C"
{
int glfwInit(void)
{
    ++S->inits;
    return 1;
}
void         glfwTerminate(void) {}
GLFWerrorfun glfwSetErrorCallback(GLFWerrorfun) { return nullptr; }
void         glfwWindowHint(int, int) {}
void         glfwDefaultWindowHints(void) {}
GLFWwindow*  glfwCreateWindow(int w, int h, const char*, GLFWmonitor*, GLFWwindow*)
{
    ++S->windows;
    // the window manager decides the size that the window gets
    win = new GLFWwindow{};
    return win;
}
void glfwDestroyWindow(GLFWwindow* w)
{
    if (w == current)
        current = nullptr;
    if (w == win)
    {
        delete win;
        win = nullptr;
    }
}
int  glfwWindowShouldClose(GLFWwindow*) { return S->shouldClose; }
void glfwSetWindowShouldClose(GLFWwindow*, int v) { S->shouldClose = v; }
void glfwSetWindowTitle(GLFWwindow*, const char*) {}
void glfwGetWindowSize(GLFWwindow*, int* w, int* h)
{
    if (w)
        *w = S->w;
    if (h)
        *h = S->h;
}
void glfwSetWindowSize(GLFWwindow*, int, int) {}
void glfwGetFramebufferSize(GLFWwindow*, int* w, int* h)
{
    if (w)
        *w = S->fw;
    if (h)
        *h = S->fh;
}
void glfwGetWindowContentScale(GLFWwindow*, float* x, float* y)
{
    if (x)
        *x = S->w > 0 ? float(S->fw) / float(S->w) : 1.f;
    if (y)
        *y = S->h > 0 ? float(S->fh) / float(S->h) : 1.f;
}
int   glfwGetWindowAttrib(GLFWwindow*, int a) { return a == GLFW_ICONIFIED ? S->w == 0 : 1; }
void  glfwSetWindowUserPointer(GLFWwindow* w, void* p) { w->user = p; }
void* glfwGetWindowUserPointer(GLFWwindow* w) { return w->user; }

#define SET(fn, type, field) type fn(GLFWwindow* w, type f) { type o = w->field; w->field = f; return o; }
SET(glfwSetWindowSizeCallback, GLFWwindowsizefun, size)
SET(glfwSetFramebufferSizeCallback, GLFWframebuffersizefun, fb)
SET(glfwSetKeyCallback, GLFWkeyfun, key)
SET(glfwSetCharCallback, GLFWcharfun, ch)
SET(glfwSetMouseButtonCallback, GLFWmousebuttonfun, button)
SET(glfwSetCursorPosCallback, GLFWcursorposfun, move)
SET(glfwSetCursorEnterCallback, GLFWcursorenterfun, enter)
SET(glfwSetScrollCallback, GLFWscrollfun, scroll)
SET(glfwSetWindowCloseCallback, GLFWwindowclosefun, close)
SET(glfwSetWindowFocusCallback, GLFWwindowfocusfun, focus)
SET(glfwSetWindowIconifyCallback, GLFWwindowiconifyfun, iconify)
SET(glfwSetWindowRefreshCallback, GLFWwindowrefreshfun, refresh)
#undef SET

void glfwPollEvents(void) { S->hooks->poll(); }
void glfwWaitEvents(void) { S->hooks->poll(); }
void glfwWaitEventsTimeout(double) { S->hooks->poll(); }
void glfwPostEmptyEvent(void) {}
int  glfwGetKey(GLFWwindow*, int k) { return S->keys.count(k) ? GLFW_PRESS : GLFW_RELEASE; }
int  glfwGetMouseButton(GLFWwindow*, int b) { return S->buttons.count(b) ? GLFW_PRESS : GLFW_RELEASE; }
void glfwGetCursorPos(GLFWwindow*, double* x, double* y)
{
    if (x)
        *x = S->cx;
    if (y)
        *y = S->cy;
}
void   glfwSetCursorPos(GLFWwindow*, double x, double y) { S->cx = x, S->cy = y; }
int    glfwGetInputMode(GLFWwindow*, int) { return GLFW_CURSOR_NORMAL; }
void   glfwSetInputMode(GLFWwindow*, int, int) {}
double glfwGetTime(void) { return S->now - S->base; }
void   glfwSetTime(double t) { S->base = S->now - t; }
unsigned long long glfwGetTimerValue(void) { return (unsigned long long)(S->now * 1e9); }
unsigned long long glfwGetTimerFrequency(void) { return 1000000000ull; }
void        glfwMakeContextCurrent(GLFWwindow* w) { current = w; }
GLFWwindow* glfwGetCurrentContext(void) { return current; }
void        glfwSwapBuffers(GLFWwindow*) { S->hooks->swap(); }
void        glfwSwapInterval(int) {}
GLFWglproc  glfwGetProcAddress(const char*) { return nullptr; }
}

namespace glbinding
{
void initialize(GetProcAddress, bool)
{
    if (current == nullptr)
        misuse("the graphics library is initialised without a context");
}
} // namespace glbinding

// --------------------------------------------------------------------------- GL
namespace gl33core
{
static bool ok()
{
    if (current == nullptr)
        misuse("a graphics function is called without a current context");
    return current != nullptr;
}

void   glEnable(GLenum) { ok(); }
void   glDisable(GLenum) { ok(); }
void   glBlendFunc(GLenum, GLenum) { ok(); }
GLenum glGetError() { return GL_NO_ERROR; }

GLuint glCreateShader(GLenum) { return G->next++; }
void   glShaderSource(GLuint, GLsizei, const GLchar* const*, const GLint*) { ok(); }
void   glCompileShader(GLuint) {}
void   glGetShaderiv(GLuint, GLenum, GLint* v) { *v = 1; }
void   glGetShaderInfoLog(GLuint, GLsizei, GLsizei*, GLchar*) {}
void   glDeleteShader(GLuint) {}
GLuint glCreateProgram()
{
    G->programs[G->next];
    return G->next++;
}
void glAttachShader(GLuint, GLuint) {}
void glDetachShader(GLuint, GLuint) {}
void glLinkProgram(GLuint) {}
void glGetProgramiv(GLuint, GLenum, GLint* v) { *v = 1; }
void glGetProgramInfoLog(GLuint, GLsizei, GLsizei*, GLchar*) {}
void glDeleteProgram(GLuint p)
{
    if (p && !G->programs.erase(p))
        misuse("deletes a program that does not exist");
}
void glUseProgram(GLuint p)
{
    ok();
    if (p && !G->programs.count(p))
        misuse("uses a program that does not exist");
    G->program = p;
}
GLint glGetUniformLocation(GLuint, const GLchar*) { return 7; }
void  glUniformMatrix3fv(GLint loc, GLsizei n, GLboolean transpose, const GLfloat* v)
{
    ok();
    if (!G->programs.count(G->program) || n < 1)
        return misuse("sets a uniform without a program");
    std::array<float, 9> m;
    for (int r = 0; r < 3; ++r)
        for (int c = 0; c < 3; ++c)
            m[3 * r + c] = transpose == GL_TRUE ? v[3 * r + c] : v[3 * c + r];
    G->programs[G->program][loc] = m;
}

void glGenVertexArrays(GLsizei n, GLuint* v)
{
    for (int i = 0; i < n; ++i)
        v[i] = G->next++, G->vaos[v[i]];
}
void glDeleteVertexArrays(GLsizei n, const GLuint* v)
{
    for (int i = 0; i < n; ++i)
        if (v[i] && !G->vaos.erase(v[i]))
            misuse("deletes a vertex array that does not exist");
}
void glBindVertexArray(GLuint v)
{
    ok();
    if (v && !G->vaos.count(v))
        misuse("binds a vertex array that does not exist");
    G->vao = v;
}
void glGenBuffers(GLsizei n, GLuint* v)
{
    for (int i = 0; i < n; ++i)
        v[i] = G->next++, G->buffers[v[i]];
}
void glDeleteBuffers(GLsizei n, const GLuint* v)
{
    for (int i = 0; i < n; ++i)
        if (v[i] && !G->buffers.erase(v[i]))
            misuse("deletes a buffer that does not exist");
}
void glBindBuffer(GLenum t, GLuint b)
{
    ok();
    if (b && !G->buffers.count(b))
        misuse("binds a buffer that does not exist");
    if (t == GL_ARRAY_BUFFER)
        G->vbo = b;
    else if (t == GL_ELEMENT_ARRAY_BUFFER && G->vaos.count(G->vao))
        G->vaos[G->vao].ebo = b;
}
static std::vector<unsigned char>* target(GLenum t)
{
    unsigned b = t == GL_ARRAY_BUFFER ? G->vbo : (G->vaos.count(G->vao) ? G->vaos[G->vao].ebo : 0);
    auto     it = G->buffers.find(b);
    if (it == G->buffers.end())
    {
        misuse("uploads to no buffer");
        return nullptr;
    }
    return &it->second;
}
void glBufferData(GLenum t, GLsizeiptr n, const void* p, GLenum)
{
    if (auto b = target(t))
    {
        b->assign(std::size_t(n), 0);
        if (p && n > 0)
            std::memcpy(b->data(), p, std::size_t(n));
    }
}
void glBufferSubData(GLenum t, GLintptr o, GLsizeiptr n, const void* p)
{
    if (auto b = target(t))
    {
        if (o < 0 || n < 0 || std::size_t(o + n) > b->size())
            return misuse("uploads out of a buffer's bounds");
        if (n > 0)
            std::memcpy(b->data() + o, p, std::size_t(n));
    }
}
void glVertexAttribPointer(GLuint i, GLint size, GLenum type, GLboolean norm, GLsizei stride, const void* off)
{
    ok();
    if (i >= 4 || !G->vaos.count(G->vao))
        return misuse("describes attributes without a vertex array");
    auto& a  = G->vaos[G->vao].a[i];
    a.size   = size;
    a.type   = type;
    a.norm   = norm == GL_TRUE;
    a.stride = stride;
    a.offset = reinterpret_cast<std::size_t>(off);
    a.vbo    = G->vbo;
}
void glEnableVertexAttribArray(GLuint i)
{
    if (i < 4 && G->vaos.count(G->vao))
        G->vaos[G->vao].a[i].enabled = true;
}
void glDisableVertexAttribArray(GLuint i)
{
    if (i < 4 && G->vaos.count(G->vao))
        G->vaos[G->vao].a[i].enabled = false;
}

static bool fetch(const Vao& v, long i, Vertex& out)
{
    const Attrib &p = v.a[0], &c = v.a[1];
    auto bytes = [&](const Attrib& a, std::size_t n) -> const unsigned char* {
        auto it = G->buffers.find(a.vbo);
        if (!a.enabled || it == G->buffers.end() || i < 0)
            return nullptr;
        std::size_t o = a.offset + std::size_t(i) * std::size_t(a.stride);
        return o + n <= it->second.size() ? it->second.data() + o : nullptr;
    };
    if (p.type != GL_FLOAT || p.size < 2)
        return false;
    const unsigned char* pb = bytes(p, 8);
    if (!pb)
        return false;
    std::memcpy(&out.x, pb, 4);
    std::memcpy(&out.y, pb + 4, 4);
    if (c.type == GL_UNSIGNED_BYTE && c.norm)
    {
        const unsigned char* cb = bytes(c, std::size_t(c.size));
        if (!cb)
            return false;
        out.c[3] = 255;
        for (int k = 0; k < c.size; ++k)
            out.c[k] = cb[k];
    }
    else if (c.type == GL_FLOAT)
    {
        const unsigned char* cb = bytes(c, 4 * std::size_t(c.size));
        if (!cb)
            return false;
        out.c[3] = 255;
        for (int k = 0; k < c.size; ++k)
        {
            float f;
            std::memcpy(&f, cb + 4 * k, 4);
            out.c[k] = (unsigned char)(std::lround(std::min(std::max(f, 0.f), 1.f) * 255.f));
        }
    }
    else
        return false;
    return true;
}

static void draw(GLenum mode, const std::vector<long>& idx)
{
    ok();
    ++S->pic.draws;
    auto it = G->vaos.find(G->vao);
    auto pr = G->programs.find(G->program);
    if (it == G->vaos.end() || pr == G->programs.end() || pr->second.empty())
    {
        ++S->pic.badDraws;
        S->pic.bad = "drawn without a vertex array, a program or its transform";
        return;
    }
    int transform = int(S->pic.transforms.size());
    S->pic.transforms.push_back(pr->second.begin()->second);
    S->pic.viewports.push_back(S->viewport);

    auto tri = [&](long a, long b, long c) {
        Tri t;
        t.transform = transform;
        long k[3]   = {a, b, c};
        for (int i = 0; i < 3; ++i)
            if (!fetch(it->second, k[i], t.v[i]))
            {
                ++S->pic.badIndices;
                S->pic.bad = "vertex " + std::to_string(k[i]) + " was not uploaded";
                return;
            }
        if (S->keepTriangles)
            S->pic.tris.push_back(t);
    };
    if (mode == GL_TRIANGLES)
        for (std::size_t i = 0; i + 2 < idx.size(); i += 3)
            tri(idx[i], idx[i + 1], idx[i + 2]);
    else if (mode == GL_TRIANGLE_FAN)
        for (std::size_t i = 1; i + 1 < idx.size(); ++i)
            tri(idx[0], idx[i], idx[i + 1]);
    else if (mode == GL_TRIANGLE_STRIP)
        for (std::size_t i = 0; i + 2 < idx.size(); ++i)
            tri(idx[i], idx[i + 1], idx[i + 2]);
}

static void elements(GLenum mode, GLsizei n, GLenum type, const void* off, long baseVertex)
{
    std::vector<long> idx;
    auto              it = G->vaos.find(G->vao);
    if (n > 0)
    {
        auto b = it == G->vaos.end() ? G->buffers.end() : G->buffers.find(it->second.ebo);
        std::size_t sz = type == GL_UNSIGNED_SHORT ? 2 : type == GL_UNSIGNED_INT ? 4 : 1;
        std::size_t o  = reinterpret_cast<std::size_t>(off);
        if (b == G->buffers.end() || o + sz * std::size_t(n) > b->second.size())
        {
            ++S->pic.badDraws;
            S->pic.bad = "drawn with more indices than were uploaded";
            return;
        }
        for (int i = 0; i < n; ++i)
        {
            unsigned v = 0;
            std::memcpy(&v, b->second.data() + o + sz * std::size_t(i), sz);
            idx.push_back(long(v) + baseVertex);
        }
    }
    draw(mode, idx);
}

void glDrawElements(GLenum m, GLsizei n, GLenum t, const void* o) { elements(m, n, t, o, 0); }
void glDrawRangeElements(GLenum m, GLuint, GLuint, GLsizei n, GLenum t, const void* o) { elements(m, n, t, o, 0); }
void glDrawElementsBaseVertex(GLenum m, GLsizei n, GLenum t, const void* o, GLint b) { elements(m, n, t, o, b); }
void glDrawArrays(GLenum m, GLint f, GLsizei n)
{
    std::vector<long> idx;
    for (int i = 0; i < n; ++i)
        idx.push_back(f + i);
    draw(m, idx);
}

void glClearColor(GLfloat, GLfloat, GLfloat, GLfloat) { ok(); }
void glClear(ClearBufferMask m)
{
    ok();
    if (m & GL_COLOR_BUFFER_BIT)
    {
        int c         = S->pic.clears + 1;
        S->pic        = Picture{};
        S->pic.clears = c;
    }
}
void glViewport(GLint x, GLint y, GLsizei w, GLsizei h)
{
    ok();
    S->viewport = {x, y, w, h};
}
void glFlush() {}
void glFinish() {}
} // namespace gl33core

// ------------------------------------------------------------------------ ImGui
static std::string where() { return U->stack.empty() ? "" : U->stack.back(); }

static bool clicked(const char* kind, const char* label)
{
    S->hooks->shown(kind, where(), label);
    return S->hooks->click(kind, where(), label);
}

namespace ImGui
{
bool          DebugCheckVersionAndDataLayout() { return true; }
ImGuiContext* CreateContext(ImFontAtlas*)
{
    U->context = true;
    return nullptr;
}
void        DestroyContext(ImGuiContext*) { U->context = false; }
ImGuiIO&    GetIO()
{
    U->io.WantCaptureKeyboard = S->captureKeyboard;
    U->io.WantCaptureMouse    = S->captureMouse;
    return U->io;
}
ImGuiStyle& GetStyle() { return U->style; }
void        StyleColorsDark(ImGuiStyle*) {}
void        NewFrame()
{
    if (U->inFrame)
        misuse("a GUI frame begins within another");
    U->inFrame = true;
    U->viewport.Size = U->viewport.WorkSize = ImVec2{float(S->w), float(S->h)};
}
void EndFrame() { U->inFrame = false; }
void Render()
{
    if (!U->inFrame || !U->stack.empty())
        misuse("the GUI is rendered within a window, or outside of a frame");
    U->inFrame = false;
}
ImDrawData* GetDrawData() { return nullptr; }
void        UpdatePlatformWindows() { current = nullptr; }
void        RenderPlatformWindowsDefault(void*, void*) { current = nullptr; }
ImGuiViewport* GetMainViewport() { return &U->viewport; }
ImGuiID        DockSpaceOverViewport(ImGuiID, const ImGuiViewport*, ImGuiDockNodeFlags) { return 1; }

static bool push(const std::string& s)
{
    if (!U->inFrame)
        misuse("GUI outside of a frame");
    U->stack.push_back(s);
    return true;
}
static void pop()
{
    if (U->stack.empty())
        return misuse("a GUI window ends that did not begin");
    U->stack.pop_back();
}

bool BeginMainMenuBar() { return push("menubar"); }
void EndMainMenuBar() { pop(); }
bool BeginMenuBar() { return push("menubar"); }
void EndMenuBar() { pop(); }
bool BeginMenu(const char* n, bool) { return push(n); }
void EndMenu() { pop(); }
bool MenuItem(const char* l, const char*, bool, bool e) { return clicked("menu", l) && e; }
bool MenuItem(const char* l, const char*, bool* p, bool e)
{
    if (!clicked("menu", l) || !e)
        return false;
    if (p)
        *p = !*p;
    return true;
}

bool Begin(const char* n, bool* open, ImGuiWindowFlags)
{
    push(n);
    auto it = U->windows.find(n);
    if (it == U->windows.end())
    {
        it              = U->windows.emplace(n, ImGuiWindow{}).first;
        it->second.Name = U->names.insert(n).first->c_str();
        it->second.DC.CursorMaxPos = ImVec2{120, 90};
    }
    if (open && clicked("close", ""))
        *open = false;
    return true;
}
void End() { pop(); }
bool BeginTable(const char*, int, ImGuiTableFlags, const ImVec2&, float) { return true; }
void EndTable() {}
void TableSetupColumn(const char*, ImGuiTableColumnFlags, float, ImGuiID) {}
void TableHeadersRow() {}
void TableNextRow(int, float) {}
bool TableNextColumn() { return true; }
bool TableSetColumnIndex(int) { return true; }

void Text(const char* f, ...)
{
    // the arguments are read, as the real library does
    char    buf[512];
    va_list ap;
    va_start(ap, f);
    std::vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
}
void TextUnformatted(const char*, const char*) {}
bool Button(const char* l, const ImVec2&) { return clicked("button", l); }
bool SmallButton(const char* l) { return clicked("button", l); }
bool Checkbox(const char* l, bool* p)
{
    if (!clicked("checkbox", l))
        return false;
    *p = !*p;
    return true;
}
bool RadioButton(const char* l, bool) { return clicked("radio", l); }
bool Selectable(const char* l, bool, ImGuiSelectableFlags, const ImVec2&) { return clicked("selectable", l); }
bool Selectable(const char* l, bool* p, ImGuiSelectableFlags, const ImVec2&)
{
    if (!clicked("selectable", l))
        return false;
    *p = !*p;
    return true;
}
static bool slide(const std::string& l, double lo, double hi, double& v)
{
    auto r = S->hooks->edit(where(), l);
    if (!r)
        return false;
    v = lo + (hi - lo) * *r;
    return true;
}
bool SliderInt(const char* l, int* v, int lo, int hi, const char*, ImGuiSliderFlags)
{
    double d = 0;
    int    before = *v;
    bool   edited = slide(l, lo, hi, d);
    if (edited)
        *v = int(std::lround(d));
    S->hooks->slider(where(), l, before, *v, edited);
    return edited;
}
static bool slideFloat(const std::string& l, float* v, float lo, float hi)
{
    double d = 0;
    float  before = *v;
    bool   edited = slide(l, lo, hi, d);
    if (edited)
        *v = float(d);
    S->hooks->slider(where(), l, before, *v, edited);
    return edited;
}
bool SliderFloat(const char* l, float* v, float lo, float hi, const char*, ImGuiSliderFlags)
{
    return slideFloat(l, v, lo, hi);
}
bool SliderFloat2(const char* l, float v[2], float lo, float hi, const char*, ImGuiSliderFlags)
{
    bool a = slideFloat(l, v, lo, hi);
    return slideFloat(std::string{l} + "##2", v + 1, lo, hi) || a;
}
bool SliderAngle(const char* l, float* v, float lo, float hi, const char* f, ImGuiSliderFlags)
{
    double d = 0;
    if (!slide(l, lo, hi, d))
        return false;
    *v = float(d * 3.14159265358979 / 180);
    return true;
}
bool ColorEdit3(const char*, float[3], ImGuiColorEditFlags) { return false; }
bool ColorEdit4(const char*, float[4], ImGuiColorEditFlags) { return false; }

void Separator() {}
void Spacing() {}
void SameLine(float, float) {}
void NewLine() {}
void PushItemWidth(float) {}
void PopItemWidth() {}
void SetNextItemWidth(float) {}
void PushID(const char*) {}
void PushID(int) {}
void PushID(const void*) {}
void PopID() {}
void BeginDisabled(bool) {}
void EndDisabled() {}
bool IsItemHovered(int) { return false; }
bool IsAnyItemHovered() { return false; }

ImGuiWindow* FindWindowByName(const char* n)
{
    auto it = U->windows.find(n);
    return it == U->windows.end() ? nullptr : &it->second;
}
ImGuiWindow* GetCurrentWindow()
{
    auto it = U->windows.find(where());
    return it == U->windows.end() ? &U->none : &it->second;
}
void           DockBuilderDockWindow(const char*, ImGuiID) {}
ImGuiDockNode* DockBuilderGetNode(ImGuiID) { return nullptr; }
ImGuiID        DockBuilderAddNode(ImGuiID i, ImGuiDockNodeFlags) { return i; }
void           DockBuilderRemoveNode(ImGuiID) {}
void           DockBuilderSetNodeSize(ImGuiID, ImVec2) {}
ImGuiID        DockBuilderSplitNode(ImGuiID, ImGuiDir, float, ImGuiID* a, ImGuiID* b)
{
    ImGuiID x = ImGuiID(++U->dock), y = ImGuiID(++U->dock);
    if (a)
        *a = x;
    if (b)
        *b = y;
    return x;
}
void DockBuilderFinish(ImGuiID) {}
} // namespace ImGui

bool ImGui_ImplGlfw_InitForOpenGL(GLFWwindow*, bool) { return true; }
void ImGui_ImplGlfw_Shutdown() {}
void ImGui_ImplGlfw_NewFrame() {}
bool ImGui_ImplOpenGL3_Init(const char*) { return true; }
void ImGui_ImplOpenGL3_Shutdown() {}
void ImGui_ImplOpenGL3_NewFrame() {}
void ImGui_ImplOpenGL3_RenderDrawData(ImDrawData*)
{
    // the real back end draws with its own state, and restores the state it found
    S->hooks->render();
}
