#include "harness.h"
void gen_async(rt::RunSpec&); void run_async();
Harness harnesses[] = { {"async", gen_async, run_async, "C17"} };
int n_harnesses = sizeof harnesses / sizeof harnesses[0];
