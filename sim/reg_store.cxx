#include "harness.h"
void gen_logstore(rt::RunSpec&); void run_logstore();
Harness harnesses[] = { {"logstore", gen_logstore, run_logstore, nullptr} };
int n_harnesses = sizeof harnesses / sizeof harnesses[0];
