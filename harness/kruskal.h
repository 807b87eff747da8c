/* Forced include: the other value of the PRIM switch of problem_settings.h (Kruskal instead of Prim). */
#if __has_include("problem_settings.h")
#include "problem_settings.h"
#endif
#undef PRIM
#define PRIM 0
