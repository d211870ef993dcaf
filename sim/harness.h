#pragma once
#include "rt.h"
struct Harness { const char* name; void (*gen)(rt::RunSpec&); void (*run)(); const char* crash_prop; };
extern Harness harnesses[]; extern int n_harnesses;
void rt_child_init(const char* crash_prop);
