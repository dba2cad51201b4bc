#include "../gl33core/gl.h"
