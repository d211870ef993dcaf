// The asio service on the simulated kernel: timers (C18), loggers (C20), stopping (C21).
#include "harness.h"
#include "simfs.h"
#include "simnet.h"
#include "cornerstone.hxx"
#include <algorithm>
#include <cstring>
#include <ctime>
#include <mutex>
#include <set>
using namespace rt;
namespace cs = cornerstone;
using cs::ptr;

// plan: sched task delay | cancel task | resched task delay | log logger level nlines size | jump ms | stop
void gen_svc(RunSpec& s) {
    Rng r(mix(mix(s.seed, hash_bytes(s.prop.data(), s.prop.size())), 0x57c));
    auto& c = s.cfg; const std::string& P = s.prop;
    auto one = [&](std::initializer_list<i64> l) { auto it = l.begin(); std::advance(it, r.below(l.size())); return *it; };
    c["ncpu"] = one({1, 1, 2, 2, 3, 4}); c["p_preempt"] = one({0, 5000, 50000, 200000}); c["p_mem"] = one({0, 0, 500, 5000, 30000}); c["p_pick"] = one({0, 200000, 500000}); c["p_spurious"] = one({0, 0, 20000, 200000}); c["p_stall"] = one({0, 0, 1000, 10000}); c["p_wstall"] = one({0, 0, 50000, 300000}); c["p_intr"] = one({0, 0, 50000}); c["stall_max"] = one({4, 7, 10});
    i64 tasks = P == "C18" ? r.range(1, 6) : one({0, 0, 1, 3}), loggers = P == "C20" ? r.range(1, 3) : P == "C21" ? one({0, 1, 2}) : one({0, 0, 0, 1});
    c["tasks"] = tasks; c["loggers"] = loggers;
    for (i64 i = 0; i < tasks; ++i) { std::string k = std::to_string(i); c["dur" + k] = one({0, 0, 0, 200, 3000, 20000, 60000}); c["again" + k] = r.chance(25) ? one({1, 2, 5}) : 0; c["againd" + k] = one({0, 1, 5, 30}); }
    for (i64 i = 0; i < loggers; ++i) { c["level" + std::to_string(i)] = (i64)r.below(4); c["late" + std::to_string(i)] = r.chance(30); }
    i64 span = one({20, 20, 100, 100, 400, 400, 1500, 1500, 3000, 3000, 60000, 7200000}) * 1000;   // us
    if (P == "C20" || P == "C21") span = one({200, 200, 900, 900, 1000, 1000, 1001, 1002, 1300, 2500, 2500, 60000, 4000000000}) * 1000;
    int n = P == "C18" ? (int)r.range(5, 60) : (int)r.range(1, 14);
    i64 grid = one({1, 1000, 5000, 20000});
    auto when = [&]() -> i64 { i64 t = (i64)r.below((u64)span); if (r.chance(60)) t = t / grid * grid; if (r.chance(30) && span > 1000000) t = 1000000 - 300 + (i64)r.below(900); return t; };
    for (int i = 0; i < n; ++i) {
        Step x; x.t = when(); int k = (int)r.below(100);
        bool lg = loggers && (!tasks || r.chance(P == "C20" ? 80 : 30));
        if (lg) { x.op = "log"; x.a = {(i64)r.below((u64)loggers), (i64)r.range(1, 12), one({0, 10, 10, 40, 300, 5000}), (i64)r.below(1000000)}; }
        else if (tasks) {
            i64 task = (i64)r.below((u64)tasks), d = one({0, 1, 1, 2, 5, 10, 20, 50, 100, 700}); if (r.chance(3)) d = 3600000;
            if (k < 45) { x.op = "sched"; x.a = {task, d}; } else if (k < 65) { x.op = "cancel"; x.a = {task}; } else { x.op = "resched"; x.a = {task, d}; }
        } else continue;
        s.plan.push_back(x);
    }
    if (r.chance(20)) { Step x; x.t = when(); x.op = "jump"; x.a = {one({-3600000, -500, 500, 3600000, 86400000})}; s.plan.push_back(x); }
    // stopping
    i64 st = P == "C18" ? span + one({2000000, 30000000}) : r.chance(35) ? 1000000 - 400 + (i64)r.below(1200) : when();
    c["stop_at"] = st; c["stops"] = P == "C18" ? 1 : one({1, 1, 1, 2, 3}); c["stop_gap"] = one({0, 1, 50, 2000}); c["destroy_first"] = P == "C21" ? r.chance(10) : 0;
    std::stable_sort(s.plan.begin(), s.plan.end(), [](const Step& a, const Step& b) { return a.t < b.t; });
}
namespace sv {
static std::string D(i64 x) { return std::to_string(x); }
typedef cs::asio_service Svc;
static Svc* svc; static bool stop_begun; static u64 stop_step = ~0ull; static u64 jumps;
// ---- timers
struct Gen { Time begin_t = 0; i64 delay = 0; u64 kill_ret = ~0ull; Time kill_t = -1; bool in_call = false; };
struct Exec { Time t; std::vector<int> cand; };
struct Task { int id = 0; ptr<cs::delayed_task> t; std::mutex m; std::vector<Gen> g; std::vector<Exec> x; i64 dur = 0, again = 0, againd = 0; int left = 0; };
static std::vector<Task*> tasks; static std::map<int, u64> exec_end;   // fiber -> step its last execution ended
static void do_sched(Task* T, i64 d) {
    Gen* old; int gi;
    { Hold h; old = T->g.empty() ? nullptr : &T->g.back(); if (old && old->kill_t < 0) old->kill_t = now(); Gen n; n.begin_t = now(); n.delay = d; n.in_call = true; T->g.push_back(n); gi = (int)T->g.size() - 1; trace("schedule task %d in %lld ms (%d)", T->id, (long long)d, gi); }
    svc->schedule(T->t, (int32_t)d);
    Hold h; if (gi && T->g[gi - 1].kill_ret == ~0ull) T->g[gi - 1].kill_ret = steps(); T->g[gi].in_call = false; note("op.schedule");
}
static void do_cancel(Task* T) {
    int gi; { Hold h; gi = (int)T->g.size() - 1; if (gi >= 0 && T->g[gi].kill_t < 0) T->g[gi].kill_t = now(); trace("cancel task %d", T->id); }
    svc->cancel(T->t);
    Hold h; if (gi >= 0 && T->g[gi].kill_ret == ~0ull) T->g[gi].kill_ret = steps(); note("op.cancel");
}
static void executed(Task* T) {
    bool again = false;
    { Hold h; u64 began = std::max(resumed_at(), exec_end.count(cur_fiber()) ? exec_end[cur_fiber()] : 0); Exec e; e.t = now();
      bool early = false, killed = false;
      for (size_t i = 0; i < T->g.size(); ++i) { Gen& g = T->g[i]; if (now() < g.begin_t + g.delay * MS) { early = early || g.kill_ret == ~0ull; continue; } if (g.kill_ret < began) { killed = true; continue; } bool used = false; (void)used; e.cand.push_back((int)i); }
      trace("task %d runs (%zu candidates)", T->id, e.cand.size()); note("op.executed");
      if (e.cand.empty()) violation("C18", early ? "early" : killed ? "after-cancel" : "unscheduled", "task " + D(T->id) + " runs at " + D(now() / US) + " us although " + (early ? "its delay has not passed" : killed ? "it was cancelled or scheduled anew before" : "it was never scheduled"));
      T->x.push_back(e); if (T->left > 0 && !stop_begun) { --T->left; again = true; } }
    if (T->dur) sleep_until(now() + T->dur * US);
    if (again) { T->m.lock(); if (!stop_begun) do_sched(T, T->againd); T->m.unlock(); }
    Hold h; exec_end[cur_fiber()] = steps();
}
static bool augment(int u, const std::vector<std::vector<int>>& adj, std::vector<int>& mt, std::vector<char>& seen) { for (int v : adj[u]) if (!seen[v]) { seen[v] = 1; if (mt[v] < 0 || augment(mt[v], adj, mt, seen)) { mt[v] = u; return true; } } return false; }
static const Time LATE = 20 * SEC;
static void timers_end(Time end) {
    for (Task* T : tasks) {
        std::vector<std::vector<int>> a; for (auto& e : T->x) a.push_back(e.cand);
        std::vector<int> mt(T->g.size(), -1); for (size_t i = 0; i < a.size(); ++i) { std::vector<char> seen(T->g.size(), 0); if (!augment((int)i, a, mt, seen)) { violation("C18", "twice", "task " + D(T->id) + " ran more often than it was scheduled"); return; } }
        std::vector<std::vector<int>> b; std::vector<int> must;
        for (size_t i = 0; i < T->g.size(); ++i) { Gen& g = T->g[i]; Time due = g.begin_t + g.delay * MS; if (due + LATE > end || (g.kill_t >= 0 && g.kill_t < due + LATE)) continue; must.push_back((int)i); std::vector<int> v; for (size_t k = 0; k < T->x.size(); ++k) if (T->x[k].t <= due + LATE && std::count(T->x[k].cand.begin(), T->x[k].cand.end(), (int)i)) v.push_back((int)k); b.push_back(v); }
        std::vector<int> mx(T->x.size(), -1); for (size_t i = 0; i < b.size(); ++i) { std::vector<char> seen(T->x.size(), 0); if (!augment((int)i, b, mx, seen)) { violation("C18", "lost", "task " + D(T->id) + " scheduled at " + D(T->g[must[i]].begin_t / US) + " us with a delay of " + D(T->g[must[i]].delay) + " ms did not run"); return; } }
        note("op.timers_checked", must.size());
    }
}
// ---- loggers
struct Line { std::string text; int level; u64 ret = ~0ull; i64 rt0 = 0, rt1 = 0; u64 j0 = 0, j1 = 0; int thread; int found = 0; };
struct Log { std::string path; int level; ptr<cs::logger> l; std::vector<Line*> lines; std::mutex m; };
static std::vector<Log*> logs; static int threads;
static void do_log(Log* L, i64 n, i64 size, u64 seed) {
    int th; { Hold h; th = threads++; } Rng r(seed);
    L->m.lock(); if (!L->l) L->l = svc->create_logger((Svc::log_level)L->level, L->path); L->m.unlock();
    for (i64 i = 0; i < n; ++i) {
        Line* x; std::string text; { Hold h; x = new Line(); x->thread = th; x->level = (int)r.below(4); x->text = "t" + D(th) + "." + D(i) + ":"; for (i64 k = 0, z = size ? (i64)r.below((u64)size + 1) : 0; k < z; ++k) x->text += (char)(r.chance(10) ? '%' : r.chance(2) ? "\0\t\r\xff"[r.below(4)] : 32 + r.below(95)); text = x->text; L->lines.push_back(x); x->rt0 = node_realtime(0) / MS; x->j0 = jumps; }
        if (x->level == 0) L->l->debug(text); else if (x->level == 1) L->l->info(text); else if (x->level == 2) L->l->warn(text); else L->l->err(text);
        { Hold h; x->ret = steps(); x->rt1 = node_realtime(0) / MS; x->j1 = jumps; note("op.line"); }
        if (i == 0) state_seen(mix(mix(L->lines.size() > 40 ? 40 : L->lines.size(), (u64)L->level), mix((u64)stop_begun * 4 + (now() > SEC) * 2 + (u64)cfg(("late" + D(L->path.back() - '0')).c_str()), (u64)cfg("ncpu"))));
        if (r.chance(30)) sleep_until(now() + (Time)r.below(3000) * US);
    }
}
static void logs_check(const char* when, bool all) {
    for (Log* L : logs) {
        std::string f = simfs::content(L->path); std::map<std::string, Line*> by; for (Line* x : L->lines) { by[x->text] = x; x->found = 0; }
        std::map<int, size_t> last; std::map<Line*, size_t> order; for (size_t i = 0; i < L->lines.size(); ++i) order[L->lines[i]] = i;
        size_t p = 0;
        while (p < f.size()) {
            size_t e = f.find('\n', p); if (e == std::string::npos) { violation("C20", "mangled", std::string(when) + ": the file ends within a line"); return; }
            std::string ln = f.substr(p, e - p); p = e + 1;
            int mo, da, ye, ho, mi, se, ms, k = 0; long long tid; char lv[5] = {0};
            if (sscanf(ln.c_str(), "%d/%d/%d %d:%d:%d.%d\t[%lld]\t%4s%n", &mo, &da, &ye, &ho, &mi, &se, &ms, &tid, lv, &k) < 9 || k == 0 || ln[k] != '\t') { violation("C20", "mangled", std::string(when) + ": the file has a line that was not logged: " + ln.substr(0, 80)); return; }
            auto it = by.find(ln.substr(k + 1)); if (it == by.end()) { violation("C20", "mangled", std::string(when) + ": the file has a line that was not logged: " + ln.substr(0, 80)); return; }
            Line* x = it->second; static const char* tags[] = {"dbug", "info", "warn", "errr"};
            if (++x->found > 1) { violation("C20", "twice", std::string(when) + ": a line is in the file twice"); return; }
            if (x->level < L->level) { violation("C20", "below-level", std::string(when) + ": a line below the level of the logger is in the file"); return; }
            if (strcmp(lv, tags[x->level])) { violation("C20", "level-tag", std::string(when) + ": a line logged as " + tags[x->level] + " is in the file as " + lv); return; }
            struct tm t; memset(&t, 0, sizeof t); t.tm_mon = mo - 1; t.tm_mday = da; t.tm_year = ye - 1900; t.tm_hour = ho; t.tm_min = mi; t.tm_sec = se; i64 at = (i64)timegm(&t) * 1000 + ms;
            if (x->ret != ~0ull && x->j0 == x->j1 && (at < x->rt0 || at > x->rt1)) { violation("C20", "time", std::string(when) + ": a line logged between " + D(x->rt0) + " and " + D(x->rt1) + " ms is stamped " + D(at)); return; }
            if (last.count(x->thread) && last[x->thread] > order[x]) { violation("C20", "order", std::string(when) + ": lines of one thread are out of order"); return; }
            last[x->thread] = order[x];
        }
        for (Line* x : L->lines) if (x->level >= L->level && !x->found && x->ret != ~0ull && (all || x->ret < stop_step)) { violation("C20", all ? "lost-for-good" : "lost", std::string(when) + ": a line logged before the service was stopped is not in the file: " + x->text.substr(0, 40)); return; }
        note("op.lines_checked", L->lines.size());
    }
}
static void on_term(const char* why) { violation(spec->prop.c_str(), "terminated", why); stop_run(); }
static bool gone(std::vector<int> ids, Time d) { Time end = now() + d, st = 20 * US; for (;;) { bool all = true; { Hold h; for (int id : ids) all = all && fiber_done(id); } if (all) return true; if (now() >= end || violated()) return false; sleep_until(now() + st); st = std::min<Time>(st * 2, 20 * MS); } }
static void calm() { p_preempt_ppm = p_mem_ppm = p_stall_ppm = p_wstall_ppm = 0; }
static void root() {
    std::vector<int> ids{spawn(0, "start", [] { svc = new Svc(); for (i64 i = 0; i < cfg("tasks"); ++i) { Task* T = new Task(); std::string k = D(i); T->id = (int)i; T->dur = cfg(("dur" + k).c_str()); T->left = (int)cfg(("again" + k).c_str()); T->againd = cfg(("againd" + k).c_str()); cs::timer_task<void>::executor ex = [T] { executed(T); }; T->t = std::make_shared<cs::timer_task<void>>(ex); Hold h; tasks.push_back(T); }
        for (i64 i = 0; i < cfg("loggers"); ++i) { Log* L = new Log(); L->path = "/sim/log" + D(i); L->level = (int)cfg(("level" + D(i)).c_str()); if (!cfg(("late" + D(i)).c_str())) L->l = svc->create_logger((Svc::log_level)L->level, L->path); Hold h; logs.push_back(L); } })};
    if (!gone(ids, 30 * SEC)) { violation(spec->prop.c_str(), "start-hangs", "the service does not start"); stop_run(); return; }
    Time t0 = now(), stop_at = t0 + cfg("stop_at") * US; size_t pi = 0; std::vector<int> acts, stops; i64 nstop = cfg("stops"), k = 0;
    while (!violated()) {
        Time tp = pi < spec->plan.size() ? t0 + spec->plan[pi].t * US : -1, ts = k < nstop ? stop_at + k * cfg("stop_gap") * US : -1;
        if (tp < 0 && ts < 0) break;
        bool is_stop = ts >= 0 && (tp < 0 || ts <= tp); sleep_until(is_stop ? ts : tp);
        if (is_stop) { ++k; stops.push_back(spawn(0, "stop", [] { { Hold h; if (!stop_begun) stop_step = steps(); stop_begun = true; trace("stop begins"); } svc->stop(); Hold h; trace("stop returns"); note("op.stop"); })); continue; }
        const Step x = spec->plan[pi++]; if (stop_begun && x.op != "log") continue;
        if (x.op == "jump") { Hold h; ++jumps; set_node_skew(0, (Time)x.a[0] * MS); note("fault.clock_jump"); continue; }
        if (x.op == "log" && x.a[0] < (i64)logs.size()) { Log* L = logs[x.a[0]]; acts.push_back(spawn(0, "logging", [L, x] { do_log(L, x.a[1], x.a[2], (u64)x.a[3]); })); continue; }
        if (x.a[0] >= (i64)tasks.size()) continue;
        Task* T = tasks[x.a[0]];
        acts.push_back(spawn(0, "user", [T, x] { T->m.lock(); if (stop_begun) { T->m.unlock(); return; } if (x.op == "cancel") do_cancel(T); else { if (x.op == "resched") do_cancel(T); do_sched(T, x.a[1]); } T->m.unlock(); }));
        state_seen(mix(mix(hash_bytes(x.op.data(), x.op.size()), T->g.size() > 6 ? 6 : T->g.size()), mix(T->x.size() > 6 ? 6 : T->x.size(), (T->g.empty() ? 0 : 1 + (T->g.back().kill_t >= 0)) * 8 + (u64)cfg("ncpu"))));
    }
    Time end = now();
    if (!gone(stops, 15 * SEC) && !violated()) { std::string who; for (auto& f : all_fibers(0)) who += " " + f.name + "(" + f.what + ")"; violation("C21", "stop-hangs", "stopping the service does not return:" + who); }
    else if (!violated()) {
        state_seen(mix(stops.size(), mix((u64)((now() - end) / MS), logs.size())));
        if (!gone(acts, 30 * SEC) && !violated()) violation(spec->prop.c_str(), "hang", "a call of the service does not return");
        if (!violated()) { timers_end(end); logs_check("when stopped", false); }
        // the objects go away, in some order, while worker threads may still be running (a task holds an asio timer, which may not outlive its service)
        calm(); std::vector<int> d{spawn(0, "destroy", [] { for (Task* T : tasks) { T->m.lock(); T->m.unlock(); } for (Task* T : tasks) T->t.reset(); if (cfg("destroy_first")) { delete svc; svc = nullptr; } for (Log* L : logs) L->l.reset(); delete svc; svc = nullptr; })};
        if (!gone(d, 15 * SEC) && !violated()) violation("C21", "destroy-hangs", "destroying the service does not return");
        sleep_until(now() + 1 * SEC); logs_check("at the end", false);
        int left = 0; for (auto& f : all_fibers(0)) left += f.name == "thr"; note(left ? "svc.workers_left" : "svc.workers_gone");
    }
    heap_check("end"); stop_run();
}
static void run() {
    on_terminate = on_term; step_limit = 20000000; time_limit = 100000 * SEC;
    p_preempt_ppm = (u32)cfg("p_preempt"); p_mem_ppm = (u32)cfg("p_mem"); p_pick_ppm = (u32)cfg("p_pick"); p_spurious_ppm = (u32)cfg("p_spurious"); p_stall_ppm = (u32)cfg("p_stall"); p_wstall_ppm = (u32)cfg("p_wstall"); stall_max_class = (u32)cfg("stall_max", 6);
    simnet::faults_on = true; simnet::p_intr_ppm = (u32)cfg("p_intr");
    run_main(root);
}
}
void run_svc() { sv::run(); }
