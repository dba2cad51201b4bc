#pragma once
#include <functional>
namespace glbinding
{
typedef void (*ProcAddress)();
typedef std::function<ProcAddress(const char*)> GetProcAddress;
void initialize(GetProcAddress functionPointerResolver, bool resolveFunctions = true);
}
