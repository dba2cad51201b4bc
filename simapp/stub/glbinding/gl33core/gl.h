// Simulated graphics library, declared like glbinding's gl33core. Implemented by appsim.cpp.
#pragma once
#include <cstddef>

namespace gl33core
{
typedef unsigned int   GLuint;
typedef int            GLint;
typedef int            GLsizei;
typedef float          GLfloat;
typedef unsigned char  GLubyte;
typedef unsigned short GLushort;
typedef char           GLchar;
typedef std::ptrdiff_t GLsizeiptr;
typedef std::ptrdiff_t GLintptr;

enum GLboolean : unsigned char { GL_FALSE = 0, GL_TRUE = 1 };
enum ClearBufferMask : unsigned { GL_DEPTH_BUFFER_BIT = 0x100, GL_STENCIL_BUFFER_BIT = 0x400, GL_COLOR_BUFFER_BIT = 0x4000 };
inline ClearBufferMask operator|(ClearBufferMask a, ClearBufferMask b) { return ClearBufferMask(unsigned(a) | unsigned(b)); }
enum GLenum : unsigned
{
    GL_POINTS = 0, GL_LINES = 1, GL_LINE_LOOP = 2, GL_LINE_STRIP = 3, GL_TRIANGLES = 4, GL_TRIANGLE_STRIP = 5, GL_TRIANGLE_FAN = 6,
    GL_SRC_ALPHA = 0x302, GL_ONE_MINUS_SRC_ALPHA = 0x303, GL_BLEND = 0xBE2, GL_DEPTH_TEST = 0xB71, GL_CULL_FACE = 0xB44,
    GL_SCISSOR_TEST = 0xC11, GL_MULTISAMPLE = 0x809D, GL_PRIMITIVE_RESTART = 0x8F9D,
    GL_BYTE = 0x1400, GL_UNSIGNED_BYTE = 0x1401, GL_SHORT = 0x1402, GL_UNSIGNED_SHORT = 0x1403, GL_INT = 0x1404, GL_UNSIGNED_INT = 0x1405, GL_FLOAT = 0x1406,
    GL_ARRAY_BUFFER = 0x8892, GL_ELEMENT_ARRAY_BUFFER = 0x8893,
    GL_STREAM_DRAW = 0x88E0, GL_STATIC_DRAW = 0x88E4, GL_DYNAMIC_DRAW = 0x88E8,
    GL_FRAGMENT_SHADER = 0x8B30, GL_VERTEX_SHADER = 0x8B31, GL_COMPILE_STATUS = 0x8B81, GL_LINK_STATUS = 0x8B82, GL_INFO_LOG_LENGTH = 0x8B84,
    GL_NO_ERROR = 0
};

void   glEnable(GLenum);
void   glDisable(GLenum);
void   glBlendFunc(GLenum, GLenum);
GLenum glGetError();

GLuint glCreateShader(GLenum);
void   glShaderSource(GLuint, GLsizei, const GLchar* const*, const GLint*);
void   glCompileShader(GLuint);
void   glGetShaderiv(GLuint, GLenum, GLint*);
void   glGetShaderInfoLog(GLuint, GLsizei, GLsizei*, GLchar*);
void   glDeleteShader(GLuint);
GLuint glCreateProgram();
void   glAttachShader(GLuint, GLuint);
void   glDetachShader(GLuint, GLuint);
void   glLinkProgram(GLuint);
void   glGetProgramiv(GLuint, GLenum, GLint*);
void   glGetProgramInfoLog(GLuint, GLsizei, GLsizei*, GLchar*);
void   glDeleteProgram(GLuint);
void   glUseProgram(GLuint);
GLint  glGetUniformLocation(GLuint, const GLchar*);
void   glUniformMatrix3fv(GLint, GLsizei, GLboolean, const GLfloat*);

void glGenVertexArrays(GLsizei, GLuint*);
void glDeleteVertexArrays(GLsizei, const GLuint*);
void glBindVertexArray(GLuint);
void glGenBuffers(GLsizei, GLuint*);
void glDeleteBuffers(GLsizei, const GLuint*);
void glBindBuffer(GLenum, GLuint);
void glBufferData(GLenum, GLsizeiptr, const void*, GLenum);
void glBufferSubData(GLenum, GLintptr, GLsizeiptr, const void*);
void glVertexAttribPointer(GLuint, GLint, GLenum, GLboolean, GLsizei, const void*);
void glEnableVertexAttribArray(GLuint);
void glDisableVertexAttribArray(GLuint);
void glDrawElements(GLenum, GLsizei, GLenum, const void*);
void glDrawRangeElements(GLenum, GLuint, GLuint, GLsizei, GLenum, const void*);
void glDrawElementsBaseVertex(GLenum, GLsizei, GLenum, const void*, GLint);
void glDrawArrays(GLenum, GLint, GLsizei);

void glClearColor(GLfloat, GLfloat, GLfloat, GLfloat);
void glClear(ClearBufferMask);
void glViewport(GLint, GLint, GLsizei, GLsizei);
void glFlush();
void glFinish();
}
namespace gl = gl33core;
