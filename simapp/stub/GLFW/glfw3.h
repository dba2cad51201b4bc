// Simulated window system, declared like GLFW 3.3. Implemented by appsim.cpp.
#pragma once

#define GLFW_RELEASE 0
#define GLFW_PRESS 1
#define GLFW_REPEAT 2
#define GLFW_FALSE 0
#define GLFW_TRUE 1
#define GLFW_MOUSE_BUTTON_LEFT 0
#define GLFW_MOUSE_BUTTON_RIGHT 1
#define GLFW_MOUSE_BUTTON_MIDDLE 2
#define GLFW_KEY_ESCAPE 256
#define GLFW_KEY_RIGHT 262
#define GLFW_KEY_LEFT 263
#define GLFW_KEY_DOWN 264
#define GLFW_KEY_UP 265
#define GLFW_FOCUSED 0x00020001
#define GLFW_ICONIFIED 0x00020002
#define GLFW_VISIBLE 0x00020004
#define GLFW_CONTEXT_VERSION_MAJOR 0x00022002
#define GLFW_CONTEXT_VERSION_MINOR 0x00022003
#define GLFW_OPENGL_PROFILE 0x00022008
#define GLFW_OPENGL_CORE_PROFILE 0x00032001
#define GLFW_OPENGL_FORWARD_COMPAT 0x00022006
#define GLFW_SAMPLES 0x0002100D
#define GLFW_CURSOR 0x00033001
#define GLFW_CURSOR_NORMAL 0x00034001

struct GLFWwindow;
struct GLFWmonitor;
typedef void (*GLFWglproc)(void);
typedef void (*GLFWerrorfun)(int, const char*);
typedef void (*GLFWwindowsizefun)(GLFWwindow*, int, int);
typedef void (*GLFWframebuffersizefun)(GLFWwindow*, int, int);
typedef void (*GLFWkeyfun)(GLFWwindow*, int, int, int, int);
typedef void (*GLFWcharfun)(GLFWwindow*, unsigned int);
typedef void (*GLFWmousebuttonfun)(GLFWwindow*, int, int, int);
typedef void (*GLFWcursorposfun)(GLFWwindow*, double, double);
typedef void (*GLFWcursorenterfun)(GLFWwindow*, int);
typedef void (*GLFWscrollfun)(GLFWwindow*, double, double);
typedef void (*GLFWwindowclosefun)(GLFWwindow*);
typedef void (*GLFWwindowfocusfun)(GLFWwindow*, int);
typedef void (*GLFWwindowiconifyfun)(GLFWwindow*, int);
typedef void (*GLFWwindowrefreshfun)(GLFWwindow*);

extern "C"
{
int          glfwInit(void);
void         glfwTerminate(void);
GLFWerrorfun glfwSetErrorCallback(GLFWerrorfun);
void         glfwWindowHint(int, int);
void         glfwDefaultWindowHints(void);
GLFWwindow*  glfwCreateWindow(int, int, const char*, GLFWmonitor*, GLFWwindow*);
void         glfwDestroyWindow(GLFWwindow*);
int          glfwWindowShouldClose(GLFWwindow*);
void         glfwSetWindowShouldClose(GLFWwindow*, int);
void         glfwSetWindowTitle(GLFWwindow*, const char*);
void         glfwGetWindowSize(GLFWwindow*, int*, int*);
void         glfwSetWindowSize(GLFWwindow*, int, int);
void         glfwGetFramebufferSize(GLFWwindow*, int*, int*);
void         glfwGetWindowContentScale(GLFWwindow*, float*, float*);
int          glfwGetWindowAttrib(GLFWwindow*, int);
void         glfwSetWindowUserPointer(GLFWwindow*, void*);
void*        glfwGetWindowUserPointer(GLFWwindow*);

GLFWwindowsizefun      glfwSetWindowSizeCallback(GLFWwindow*, GLFWwindowsizefun);
GLFWframebuffersizefun glfwSetFramebufferSizeCallback(GLFWwindow*, GLFWframebuffersizefun);
GLFWkeyfun             glfwSetKeyCallback(GLFWwindow*, GLFWkeyfun);
GLFWcharfun            glfwSetCharCallback(GLFWwindow*, GLFWcharfun);
GLFWmousebuttonfun     glfwSetMouseButtonCallback(GLFWwindow*, GLFWmousebuttonfun);
GLFWcursorposfun       glfwSetCursorPosCallback(GLFWwindow*, GLFWcursorposfun);
GLFWcursorenterfun     glfwSetCursorEnterCallback(GLFWwindow*, GLFWcursorenterfun);
GLFWscrollfun          glfwSetScrollCallback(GLFWwindow*, GLFWscrollfun);
GLFWwindowclosefun     glfwSetWindowCloseCallback(GLFWwindow*, GLFWwindowclosefun);
GLFWwindowfocusfun     glfwSetWindowFocusCallback(GLFWwindow*, GLFWwindowfocusfun);
GLFWwindowiconifyfun   glfwSetWindowIconifyCallback(GLFWwindow*, GLFWwindowiconifyfun);
GLFWwindowrefreshfun   glfwSetWindowRefreshCallback(GLFWwindow*, GLFWwindowrefreshfun);

void        glfwPollEvents(void);
void        glfwWaitEvents(void);
void        glfwWaitEventsTimeout(double);
void        glfwPostEmptyEvent(void);
int         glfwGetKey(GLFWwindow*, int);
int         glfwGetMouseButton(GLFWwindow*, int);
void        glfwGetCursorPos(GLFWwindow*, double*, double*);
void        glfwSetCursorPos(GLFWwindow*, double, double);
int         glfwGetInputMode(GLFWwindow*, int);
void        glfwSetInputMode(GLFWwindow*, int, int);
double      glfwGetTime(void);
void        glfwSetTime(double);
unsigned long long glfwGetTimerValue(void);
unsigned long long glfwGetTimerFrequency(void);
void        glfwMakeContextCurrent(GLFWwindow*);
GLFWwindow* glfwGetCurrentContext(void);
void        glfwSwapBuffers(GLFWwindow*);
void        glfwSwapInterval(int);
GLFWglproc  glfwGetProcAddress(const char*);
}
