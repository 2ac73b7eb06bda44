#include "su3_standin.h"
