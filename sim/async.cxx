// Asynchronous results: setters, registering threads and waiters under every interleaving (C17).
// This file is compiled with instrumentation, because async_result is a header template.
#include "harness.h"
#include <stdexcept>
#include <memory>
#include <list>
#include <algorithm>
#include <atomic>
#include <cstring>
#include "cornerstone.hxx"
using namespace rt;
namespace cs = cornerstone;
using cs::ptr;

// plan step "round": 0 type, 1 constructor (0 empty, 1 handler, 2 ready), 2 register (0 no, 1 yes), 3 register at us, 4 set at us, 5 error, 6 handler behaviour, 7.. waiters' start us
void gen_async(RunSpec& s) {
    Rng r(mix(mix(s.seed, 0xa51c), 3));
    auto& c = s.cfg; auto one = [&](std::initializer_list<i64> l) { auto it = l.begin(); std::advance(it, r.below(l.size())); return *it; };
    c["p_preempt"] = one({0, 20000, 100000, 300000}); c["p_mem"] = one({0, 5000, 50000, 200000}); c["p_pick"] = one({0, 200000, 500000}); c["p_spurious"] = one({0, 20000, 200000}); c["p_stall"] = one({0, 0, 5000, 50000}); c["p_wstall"] = one({0, 0, 100000});
    int n = (int)r.range(3, 14); i64 t = 0;
    for (int i = 0; i < n; ++i) {
        Step x; x.op = "round"; x.t = t++;
        i64 base = one({0, 0, 0, 1, 5, 50}); auto tm = [&]() -> i64 { return r.chance(60) ? base + (i64)r.below(4) : r.chance(90) ? (i64)r.below(2000) : one({100000, 3000000, 70000000}); };
        i64 ctor = r.chance(60) ? 0 : r.chance(80) ? 1 : 2;
        x.a = {(i64)r.below(3), ctor, ctor == 1 ? 0 : r.chance(80) ? 1 : 0, tm(), tm(), r.chance(40), r.chance(70) ? 0 : (i64)r.range(1, 2)};
        int w = (int)r.below(4); for (int k = 0; k < w; ++k) x.a.push_back(tm());
        s.plan.push_back(x);
    }
}
namespace as {
static std::string D(i64 x) { return std::to_string(x); }
static void bad(const std::string& cls, const std::string& msg) { violation("C17", cls, msg); }
struct Wide { u64 a[6]; Wide() { memset(a, 0, sizeof a); } };
template <class T> struct Mk;
template <> struct Mk<Wide> { static Wide make(u64 v) { Wide w; for (int i = 0; i < 6; ++i) w.a[i] = v + i; return w; } static bool is(const Wide& w, u64 v) { for (int i = 0; i < 6; ++i) if (w.a[i] != v + i) return false; return true; } };
template <> struct Mk<bool> { static bool make(u64 v) { return v & 1; } static bool is(bool w, u64 v) { return w == bool(v & 1); } };
template <> struct Mk<ptr<std::string>> { static ptr<std::string> make(u64 v) { return std::make_shared<std::string>("result " + std::to_string(v)); } static bool is(const ptr<std::string>& w, u64 v) { return w && *w == "result " + std::to_string(v); } };

template <class T, class E> struct Round {
    typedef cs::async_result<T, ptr<E>> AR;
    ptr<AR> ar; ptr<E> err; u64 val = 0; bool is_err = false, set_begun = false, set_done = false, reg_done = false, has_handler = false, get_inside = false; int calls = 0; int finished = 0, want = 0; Time set_time = -1, call_time = -1; std::vector<int> ids; std::vector<Time> got; int behaviour = 0;
};
template <class T, class E> static void check(Round<T, E>* R, const char* who, T& v, const ptr<E>& e) {
    Hold h;
    if (!R->set_begun) { bad(std::string(who) + "-early", std::string(who) + " got a result before it was set"); return; }
    if (e != (R->is_err ? R->err : nullptr)) { bad(std::string(who) + "-error", std::string(who) + (e ? " got an error that was not set" : " did not get the error that was set")); return; }
    if (!Mk<T>::is(v, R->val)) bad(std::string(who) + "-value", std::string(who) + " got another result than the one that was set");
}
template <class T, class E> static void waiter(Round<T, E>* R, const char* who) {
    ptr<typename Round<T, E>::AR> a = R->ar;
    try { T& v = a->get(); Hold h; if (R->set_begun && R->is_err) { bad(std::string(who) + "-error", std::string(who) + " did not get the error that was set"); return; } ptr<E> none; check(R, who, v, none); }
    catch (ptr<E>& e) { Hold h; if (!R->set_begun) bad(std::string(who) + "-early", "an error was raised before it was set"); else if (!R->is_err || e != R->err) bad(std::string(who) + "-error", "another error was raised than the one that was set"); }
    catch (...) { Hold h; bad(std::string(who) + "-error", "something else than the error that was set was raised"); }
}
template <class T, class E> static void round(const Step& x, std::function<ptr<E>()> mkerr) {
    typedef Round<T, E> RR; typedef typename RR::AR AR;
    RR* R; Time t0 = now();
    { Hold h; R = new RR(); R->val = mix(spec->seed, (u64)x.t) | 1; R->is_err = x.a[5] && x.a[1] != 2; if (x.a[5] & 1 && x.a[6]) R->val &= ~1ull; if (R->is_err) R->err = mkerr(); R->behaviour = (int)x.a[6]; R->has_handler = x.a[1] == 1 || x.a[2]; }
    typename AR::handler_type hd = [R](T& v, const ptr<E>& e) {
        { Hold h; note("handler"); if (++R->calls > 1) bad("handler-twice", "the handler ran " + D(R->calls) + " times"); R->call_time = now(); }
        check(R, "handler", v, e);
        if (R->behaviour == 1) waiter(R, "get-in-handler");
        if (R->behaviour == 2) yield_point('h');
    };
    if (x.a[1] == 0) R->ar = std::make_shared<AR>(); else if (x.a[1] == 1) R->ar = std::make_shared<AR>(hd); else { T v = Mk<T>::make(R->val); R->set_begun = R->set_done = true; R->set_time = now(); R->ar = std::make_shared<AR>(v); }
    bool sets = x.a[1] != 2;
    auto at_us = [t0](i64 us) { return t0 + us * US; };
    if (x.a[2]) R->ids.push_back(spawn(0, "register", [R, x, at_us, hd] { if (x.a[3]) sleep_until(at_us(x.a[3])); ptr<AR> a = R->ar; a->when_ready(hd); a.reset(); Hold h; R->reg_done = true; }));
    if (sets) R->ids.push_back(spawn(0, "setter", [R, x, at_us] {
        if (x.a[4]) sleep_until(at_us(x.a[4])); ptr<AR> a = R->ar; T v = Mk<T>::make(R->val); ptr<E> e = R->err;
        { Hold h; R->set_begun = true; }
        a->set_result(v, e); a.reset(); Hold h; R->set_done = true; R->set_time = now(); }));
    for (size_t w = 7; w < x.a.size(); ++w) { i64 us = x.a[w]; R->ids.push_back(spawn(0, "waiter", [R, us, at_us] { if (us) sleep_until(at_us(us)); Time w0 = now(); waiter(R, "waiter"); Hold h; note("waiter"); R->got.push_back(w0); R->got.push_back(now()); })); }
    bool ok = false; Time step = 50 * US;
    while (now() < t0 + 80 * SEC && !ok) { sleep_until(now() + step); step = std::min<Time>(step * 3 / 2, 500 * MS); Hold h; ok = true; for (int id : R->ids) ok = ok && fiber_done(id); ok = ok || violated(); }
    Hold h; if (violated()) return;
    if (!ok) { std::string who; for (auto& f : all_fibers(0)) who += " " + f.name + "(" + f.what + ")"; bad("hang", "threads still wait although the result was set:" + who); return; }
    if (R->has_handler && R->calls != 1) bad("handler-lost", "the handler ran " + D(R->calls) + " times");
    for (size_t i = 0; i < R->got.size(); i += 2) if (R->set_done && R->got[i + 1] > std::max(R->got[i], R->set_time) + 2 * SEC) bad("late", "a waiting thread returned " + D((R->got[i + 1] - R->set_time) / MS) + " ms after the result was set");
    state_seen(mix(hash_bytes(x.a.data(), 56), mix((u64)(R->call_time <= R->set_time), x.a.size())));
}
static void exec(const Step& x) {
    fold(mix((u64)x.t, x.a.size()));
    if (x.a[0] == 0) round<Wide, std::exception>(x, [] { return std::make_shared<std::runtime_error>("failed"); });
    else if (x.a[0] == 1) round<bool, std::exception>(x, [] { return std::make_shared<std::runtime_error>("failed"); });
    else round<ptr<std::string>, cs::rpc_exception>(x, [] { return std::make_shared<cs::rpc_exception>("failed", ptr<cs::req_msg>()); });
}
static void on_term(const char* why) { violation("C17", "terminated", why); stop_run(); }
static void run() {
    on_terminate = on_term; step_limit = 20000000; time_limit = 100000 * SEC;
    p_preempt_ppm = (u32)cfg("p_preempt"); p_mem_ppm = (u32)cfg("p_mem"); p_pick_ppm = (u32)cfg("p_pick"); p_spurious_ppm = (u32)cfg("p_spurious"); p_stall_ppm = (u32)cfg("p_stall"); p_wstall_ppm = (u32)cfg("p_wstall"); stall_max_class = 6;
    run_main([] { for (auto& x : spec->plan) { if (violated()) break; exec(x); } heap_check("end"); stop_run(); });
}
}
void run_async() { as::run(); }
