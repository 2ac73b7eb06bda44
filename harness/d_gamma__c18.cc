#include "gamma_parts.h"
using namespace qx;
static void go() { constAll<1, 8>(std::make_integer_sequence<int, 8>()); }
static Part part("const18", go);
