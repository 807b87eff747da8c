#include "problem_settings.h"
#undef PRIM
#define PRIM 0
