#ifndef HARNESS_H
#define HARNESS_H
#include "sym.h"
#include <vector>
// tier 0: quick and thorough; tier 1: thorough only
struct HarnessCase { const char *name; void (*fn)(); int tier; };
std::vector<HarnessCase> &harnessCases();
struct HarnessReg { HarnessReg(const char *n, void (*f)(), int t) { HarnessCase c = {n, f, t}; harnessCases().push_back(c); } };
#define CASE(N) static void case_##N(); static HarnessReg reg_##N(#N, case_##N, 0); static void case_##N()
#define CASE_T(N) static void case_##N(); static HarnessReg reg_##N(#N, case_##N, 1); static void case_##N()
#endif
