#include "gamma_parts.h"
using namespace qx;
static void go() { constAll<0, 0>(std::make_integer_sequence<int, 8>()); }
static Part part("const00", go);
