#include "harness.h"
void gen_cluster(rt::RunSpec&); namespace cl { void run_cluster(); }
Harness harnesses[] = { {"cluster", gen_cluster, cl::run_cluster, "C07"} };
int n_harnesses = sizeof harnesses / sizeof harnesses[0];
