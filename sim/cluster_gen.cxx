// Seeded generation of cluster configurations, workloads and fault plans.
#include "rt.h"
#include <algorithm>
using namespace rt;
static void st(RunSpec& s, i64 t, const char* op, std::vector<i64> a) { Step x; x.t = t; x.op = op; x.a = std::move(a); s.plan.push_back(x); }
template <class T> static T one(Rng& r, std::initializer_list<T> l) { auto it = l.begin(); std::advance(it, r.below(l.size())); return *it; }

void gen_cluster(RunSpec& s) {
    Rng r(mix(mix(s.seed, hash_bytes(s.prop.data(), s.prop.size())), 42));
    auto& c = s.cfg; const std::string& P = s.prop;
    bool memb = P == "C09" || P == "C10" || r.chance(P == "C01" || P == "C02" || P == "C07" || P == "C03" || P == "C06" ? 22 : 8);
    if (P == "C11" || P == "C14") memb = false;
    c["n"] = one<i64>(r, {1, 2, 2, 3, 3, 3, 3, 3, 4, 5, 5, 5});
    if (P == "C11" || P == "C14" || P == "C01" || P == "C02" || P == "C04" || P == "C13") c["n"] = one<i64>(r, {2, 3, 3, 3, 3, 4, 5, 5});
    if (memb) { c["n"] = one<i64>(r, {1, 2, 3, 3, 3, 4}); c["joiners"] = one<i64>(r, {1, 1, 2}); c["restart_left"] = r.chance(50); c["strict"] = r.chance(P == "C10" ? 60 : P == "C09" ? 25 : 5); }
    i64 scale = one<i64>(r, {1, 1, 1, 2});
    c["el_lo"] = 150 * scale; c["el_hi"] = one<i64>(r, {200, 300, 300, 400}) * scale; c["hb"] = one<i64>(r, {30, 50, 75}) * scale; c["backoff"] = one<i64>(r, {10, 25, 50});
    c["prevote"] = r.chance(P == "C11" ? 95 : 35); c["defensive"] = r.chance(50);
    bool snaps = P == "C08" || r.chance(P == "C03" || P == "C10" || P == "C06" ? 65 : 40);
    if (snaps) { c["snap_dist"] = r.range(2, 12); c["reserved"] = one<i64>(r, {0, 0, 0, 1, 2, 3, 5, 10}); c["snap_block"] = one<i64>(r, {5, 8, 16, 24, 32, 64, 100, 0}); c["p_snapasync"] = one<i64>(r, {0, 300000, 600000, 900000}); c["p_snapfail"] = one<i64>(r, {0, 0, 0, 30000, 200000}); if (r.chance(35)) c["snap_lazy"] = (i64)r.below(256); }
    c["max_append"] = one<i64>(r, {1, 2, 3, 5, 100}); c["sync_batch"] = one<i64>(r, {1, 2, 3, 5, 1000}); c["sync_gap"] = one<i64>(r, {1, 2, 3, 10});
    c["sm_durable"] = r.chance(60); c["fifo"] = r.chance(70); c["rdseed"] = (i64)r.below(1000000);
    int calm = (int)r.below(4);
    c["p_delay"] = calm == 0 ? 0 : one<i64>(r, {5000, 20000, 60000}); c["delay_cls"] = one<i64>(r, {5, 8, 10});
    c["p_drop"] = calm <= 1 ? 0 : one<i64>(r, {3000, 20000, 80000}); c["p_respdrop"] = calm <= 1 ? 0 : one<i64>(r, {0, 10000, 50000});
    c["p_dup"] = calm == 0 ? 0 : one<i64>(r, {0, 10000, 60000});
    c["p_preempt"] = one<i64>(r, {0, 1000, 5000, 30000}); c["p_stall"] = one<i64>(r, {0, 0, 100, 500}); c["stall_cls"] = one<i64>(r, {6, 10, 12}); c["p_pick"] = one<i64>(r, {0, 100000, 400000});
    c["p_spur"] = one<i64>(r, {0, 0, 50000}); c["p_mem"] = one<i64>(r, {0, 0, 100, 1000, 6000});
    if (P == "C21") { c["p_wstall"] = one<i64>(r, {0, 200000, 500000}); c["stop_poll"] = one<i64>(r, {1000, 100, 10, 1}); }
    if (P == "C14") { c["c14"] = 1; c["p_stall"] = 0; }
    if (r.chance(25) && P != "C08") c["fslog"] = 1, c["fs_buf"] = one<i64>(r, {1, 2, 4, 8, 1000});
    if (P == "C25") c["events"] = 1;
    if (P == "C08" && r.chance(30)) c["growth"] = 1;
    if (P == "C24") { c["calm"] = 1; c["n"] = one<i64>(r, {1, 2, 3, 3, 3, 4, 5, 5}); if (snaps) c["reserved"] = one<i64>(r, {10, 20}); if (!c["max_append"] || c["max_append"] == 1) c["max_append"] = 2; }
    if (r.chance(15)) c["sm_reads"] = one<i64>(r, {1, 2});
    int n = (int)c["n"], J = (int)c["joiners"];
    i64 el = c["el_hi"];
    i64 t = r.range(0, 3) * el + r.range(10, 400);
    int nmac = (int)r.range(P == "C24" ? 0 : 2, P == "C24" ? 3 : 7); int nextj = n + 1;
    auto mode = [&] { return one<i64>(r, {0, 0, 1}); };
    auto size = [&] { return one<i64>(r, {0, 8, 8, 40, 300}); };
    auto follower = [&]() -> i64 { return -2 - (i64)r.below((u64)std::max(1, n - 1)); };
    auto anyt = [&]() -> i64 { return r.chance(40) ? -1 : r.chance(50) ? follower() : r.range(1, n); };
    auto burst = [&](i64 tt, i64 who, int k) { for (int i = 0; i < k; ++i) { st(s, tt + i * r.range(0, 8), r.chance(30) ? "repl" : "submit", {who, one<i64>(r, {1, 1, 2, 5}), size()}); } };
    // a fault that waits for its moment, see trap() in cluster.cxx
    auto arm = [&](i64 at) {
        int ev = (int)r.below(16), act = (int)one<i64>(r, {0, 0, 0, 1, 1, 2, 3, 4, 5, 8, 9, 10});
        if (P == "C08" && r.chance(50)) ev = one<int>(r, {3, 6, 7, 8});
        if ((P == "C05" || P == "C01") && r.chance(40)) ev = one<int>(r, {5, 14, 2}), act = one<int>(r, {0, 0, 1, 2});
        if ((P == "C13" || P == "C04" || P == "C02") && r.chance(40)) ev = one<int>(r, {4, 9, 15, 2});
        i64 x = r.range(0, 60), y = r.range(1, 5) * el;
        if (memb && r.chance(60)) ev = one<int>(r, {0, 1, 1, 1, 2, 10, 11, 12, 13});
        if (memb && r.chance(35)) { act = one<int>(r, {6, 7, 7}); x = act == 6 ? r.range(n + 1, n + (i64)c["joiners"]) : follower(); }
        else if (memb && ev == 1 && r.chance(50)) act = 10;
        if (act == 10) x = one<i64>(r, {5, 20, 60, 120});
        st(s, at, "trap", {ev, ev == 4 || ev == 5 || ev == 3 ? r.range(0, 12) : r.range(0, 2), act, one<i64>(r, {0, 0, 0, 300, 2000, 20000}), x, y});
    };
    for (int m = 0; m < nmac; ++m) {
        if (r.chance(P == "C24" ? 15 : P == "C09" || P == "C10" ? 55 : 30)) { arm(t - r.range(0, 100)); if (r.chance(40)) arm(t + r.range(0, 200)); }
        int k = (int)r.below(snaps ? 17 : 16);
        if (memb && r.chance(P == "C09" || P == "C10" ? 60 : 35)) k = 20 + (int)r.below(8);
        if (P == "C14" && r.chance(50)) k = one<int>(r, {1, 2, 12, 3});
        if (P == "C11" && r.chance(40)) k = one<int>(r, {1, 3, 3, 12});
        if (P == "C08" && r.chance(60)) k = one<int>(r, {5, 5, 6, 14, 16});
        if (P == "C21") { k = one<int>(r, {15, 15, 0, 4}); }
        switch (k) {
        case 0: burst(t, anyt(), (int)r.range(1, 8)); t += r.range(20, 400); break;
        case 1: // isolate the leader, keep feeding it, feed the others, heal
            { i64 d = r.range(1, 6) * el; int md = (int)mode(), dir = (int)one<i64>(r, {0, 0, 0, 1, 2}); st(s, t, "iso", {-1, md, dir, d}); burst(t + 1, -1, (int)r.range(1, 3)); st(s, t + 3, "submit", {r.range(1, n), 1, 8});
              burst(t + d * 2 / 3, -1, (int)r.range(1, 3)); if (P == "C14") for (i64 q = t + el; q < t + d; q += r.range(40, 200)) st(s, q, r.chance(30) ? "repl" : "submit", {r.range(1, n), 1, 8}); t += d + r.range(0, 300); break; }
        case 2: { i64 d = r.range(1, 5) * el; i64 mk = (i64)r.below(1u << n) << 1; st(s, t, "part", {mk, mode(), d}); burst(t + r.range(0, d), r.range(1, n), (int)r.range(1, 4)); burst(t + r.range(0, d), r.range(1, n), 2); t += d + r.range(0, 300); break; }
        case 3: { i64 d = r.range(1, 8) * el; st(s, t, "iso", {follower(), mode(), one<i64>(r, {0, 0, 1, 2}), d}); burst(t + 5, -1, (int)r.range(1, 5)); t += d + r.range(0, 200); break; }
        case 4: st(s, t, "crash", {anyt(), r.range(0, 60), one<i64>(r, {20, 100, 400, 900, 2000})}); burst(t, anyt(), (int)r.range(0, 3)); t += r.range(10, 600); break;
        case 5: // a follower lags behind while the leader compacts
            { i64 d = r.range(1, 6) * el; i64 f = follower(); if (r.chance(50)) st(s, t, "iso", {f, 0, 0, d}); else st(s, t, "crash", {f, 0, d}); for (int i = 0; i < 6; ++i) st(s, t + 20 + i * r.range(5, 40), "submit", {-1, r.range(1, 6), 8}); t += d + r.range(0, 400); if (r.chance(50)) st(s, t - r.range(0, 100), "crash", {r.chance(50) ? -1 : f, r.range(0, 80), r.range(50, 800)}); break; }
        case 6: burst(t, -1, (int)r.range(5, 20)); t += r.range(50, 500); break;
        case 7: // figure 8: partial replication then crash of the leader
            { for (int i = 0; i < n - 2; ++i) st(s, t, "link", {-1, -2 - i, 0, r.range(100, 3 * el), 0}); burst(t + 2, -1, (int)r.range(1, 4)); st(s, t + r.range(5, 80), "crash", {-1, r.range(0, 50), r.range(100, 4 * el)}); t += r.range(1, 3) * el; burst(t, -1, (int)r.range(1, 2)); if (r.chance(60)) { st(s, t + r.range(1, 60), "crash", {-1, r.range(0, 50), r.range(100, 4 * el)}); t += r.range(1, 3) * el; } break; }
        case 8: st(s, t, "pause", {anyt(), r.range(1, 6) * el / 2}); t += r.range(50, 600); break;
        case 9: st(s, t, "burst", {one<i64>(r, {100000, 400000, 800000}), r.range(100, 4 * el)}); burst(t, anyt(), 3); t += r.range(50, 800); break;
        case 10: // everybody restarts
            for (int i = 1; i <= n; ++i) st(s, t + r.range(0, 60), "crash", {i, r.range(0, 40), r.range(20, 600)}); burst(t, -1, 2); t += r.range(300, 1200); break;
        case 11: if (P != "C14") st(s, t, "skew", {r.range(1, n), r.range(-5000, 5000)}); t += r.range(20, 100); burst(t, anyt(), 2); break;
        case 12: { i64 d = r.range(1, 5) * el; i64 f = follower(); st(s, t, "link", {-1, f, mode(), d, r.range(0, 1)}); burst(t, -1, 2); t += r.range(10, d); break; }
        case 13: // leader crashes while it is writing
            burst(t, -1, (int)r.range(1, 4)); st(s, t + r.range(0, 6), "crash", {-1, r.range(1, 200), r.range(20, 1500)}); t += r.range(200, 1500); break;
        case 14: // repeated leader changes
            for (int i = 0; i < 3; ++i) { st(s, t, "iso", {-1, mode(), 0, r.range(1, 3) * el}); burst(t + 1, -1, (int)r.range(1, 3)); t += r.range(1, 3) * el; burst(t, -1, 1); } break;
        case 15: if (P == "C21") { burst(t, -1, (int)r.range(0, 3)); st(s, t + r.range(0, 30), "stop", {anyt(), r.range(50, 500)}); } else { burst(t, -1, 2); burst(t, follower(), 2); } t += r.range(100, 700); break;
        case 16: // what a follower answers is lost, so that it gets again, with more, what it has taken, applied and compacted already
            { i64 d = r.range(1, 4) * el, f = follower(), q = t; if (r.chance(60)) { i64 d0 = r.range(10, 2 * el); st(s, t, "iso", {f, 0, 0, d0}); burst(t + 2, -1, (int)r.range(1, 6)); q = t + d0 + 1; }
              st(s, q, "iso", {f, mode(), r.chance(80) ? 1 : 2, d}); for (i64 x = q + r.range(1, 30); x < q + d; x += r.range(10, 120)) st(s, x, "submit", {-1, r.range(1, 4), 8}); t = q + d + r.range(0, 200); break; }
        case 20: case 21: case 22: case 23:
            if (nextj <= n + J) { st(s, t, "add", {r.chance(80) ? -1 : anyt(), nextj++}); if (r.chance(40)) burst(t + r.range(0, 30), -1, (int)r.range(1, 6)); if (r.chance(30)) st(s, t + r.range(10, 150), "crash", {r.chance(50) ? -1 : nextj - 1, r.range(0, 80), r.range(50, 800)}); if (r.chance(25)) st(s, t + r.range(5, 60), "iso", {r.chance(50) ? -1 : nextj - 1, mode(), 0, r.range(1, 4) * el}); }
            t += r.range(50, 900); break;
        case 24: case 25: case 26: case 27:
            if (r.chance(25)) { // a server leaves and comes back
                i64 who = r.range(1, n); i64 d = r.range(60, 900); st(s, t, "rm", {-1, who}); if (r.chance(50)) burst(t + r.range(0, d), -1, (int)r.range(1, 6)); st(s, t + d, "add", {r.chance(80) ? -1 : anyt(), who}); if (r.chance(40)) burst(t + d + r.range(0, 30), -1, (int)r.range(1, 6)); if (r.chance(30)) arm(t + d); t += d + r.range(50, 900); break; }
            st(s, t, "rm", {-1, r.chance(70) ? follower() : r.range(1, n)}); if (r.chance(40)) burst(t + r.range(0, 30), -1, (int)r.range(1, 4)); if (r.chance(30)) st(s, t + r.range(0, 100), "crash", {anyt(), r.range(0, 60), r.range(50, 800)}); if (r.chance(25)) st(s, t + r.range(0, 60), "iso", {anyt(), mode(), 0, r.range(1, 4) * el}); t += r.range(50, 900); break;
        }
    }
    std::stable_sort(s.plan.begin(), s.plan.end(), [](const Step& a, const Step& b) { return a.t < b.t; });
    c["end"] = t + r.range(0, 300);
}
