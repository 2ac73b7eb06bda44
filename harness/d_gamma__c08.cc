#include "gamma_parts.h"
using namespace qx;
static void go() { constAll<0, 8>(std::make_integer_sequence<int, 8>()); }
static Part part("const08", go);
