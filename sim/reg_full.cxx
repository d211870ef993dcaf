#include "harness.h"
#include <algorithm>
void gen_cluster(rt::RunSpec&); namespace cl { void run_cluster(); }
// the same configurations, workloads and fault plans, over the real rpc and timers on a simulated kernel
static void gen_full(rt::RunSpec& s) {
    gen_cluster(s); auto& c = s.cfg; rt::Rng r(rt::mix(s.seed, 0xf011)); auto one = [&](std::initializer_list<rt::i64> l) { auto it = l.begin(); std::advance(it, r.below(l.size())); return *it; };
    c["ncpu"] = one({1, 2, 2, 3}); bool calm = r.chance(30); auto f = [&](std::initializer_list<rt::i64> l) { return calm ? 0 : one(l); };
    c["window"] = one({100, 4096, 65536, 65536}); c["p_short"] = f({0, 0, 50000, 300000}); c["p_intr"] = f({0, 0, 20000}); c["p_slow"] = f({0, 5000, 50000}); c["p_refuse"] = f({0, 0, 50000, 200000}); c["p_accept"] = f({0, 0, 0, 50000});
    c["p_mem"] = r.chance(15) ? 20000 : std::min<rt::i64>(c["p_mem"], 1000); c["sm_reads"] = one({0, 0, 1, 2});
    for (auto& x : s.plan) if (x.op == "crash" && x.a.size() > 1) x.a[1] *= 8;
}
Harness harnesses[] = { {"full", gen_full, cl::run_cluster, "C07"} };
int n_harnesses = sizeof harnesses / sizeof harnesses[0];
