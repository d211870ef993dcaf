#include "harness.h"
void gen_svc(rt::RunSpec&); void run_svc(); void gen_rpc(rt::RunSpec&); void run_rpc();
Harness harnesses[] = { {"svc", gen_svc, run_svc, nullptr}, {"rpc", gen_rpc, run_rpc, nullptr} };
int n_harnesses = sizeof harnesses / sizeof harnesses[0];
