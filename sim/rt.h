// Deterministic runtime: fibers in place of threads, virtual time, seeded decisions.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>

namespace rt {

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;

// ---------- configuration / plan / decisions -------------------------------------------
struct Step { i64 t = 0; std::string op; std::vector<i64> a; };
struct DecRec { u32 kind; u64 ent; u32 ctr; u32 val; };

struct RunSpec {
    std::string harness;
    std::string prop;                 // property focused on (workload bias)
    u64 seed = 0;
    std::map<std::string, i64> cfg;
    std::vector<Step> plan;
    bool list_mode = false;           // true: decisions come from `decs`, all others are 0
    std::vector<DecRec> decs;
    bool record = false;              // record non-zero decisions
    bool trace = false;
    i64 get(const char* k, i64 d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
};

extern RunSpec* spec;                 // the spec of this run (child process)
inline i64 cfg(const char* k, i64 d = 0) { return spec->get(k, d); }

u64 mix(u64 a, u64 b);
u64 hash_bytes(const void* p, size_t n, u64 h = 0x9e3779b97f4a7c15ull);
struct Rng { u64 s; explicit Rng(u64 seed) : s(seed) {} u64 next(); u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }
    bool chance(int pct) { return below(100) < (u64)pct; } };

// A decision: 0 (the benign default) or, with probability ppm/1e6, a value in 1..nvals.
u32 choose(char kind, u64 ent, u32 ppm, u32 nvals);
// A raw seeded value in 0..n-1 (used for latencies and the like; 0 is the default).
u32 pick(char kind, u64 ent, u32 n);

// ---------- results ------------------------------------------------------------------
void known_finding(const char* tag);   // what fails from now on in this run is reported under this known finding (property KF)
void violation(const char* prop, const std::string& cls, const std::string& msg);   // records, the run goes on
bool violated();                       // the focused property was violated: the run may stop
void harness_error(const std::string& msg);                  // machinery problem: run is void
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* key, u64 n = 1); // statistics counter
void state_seen(u64 h);                // abstract state reached (distinct-state measure)
void fold(u64 v);                      // fold into the event hash of the run
u64 event_hash();
u64 steps();

// ---------- time and fibers ------------------------------------------------------------
typedef i64 Time;                      // nanoseconds of virtual time
const Time US = 1000, MS = 1000000, SEC = 1000000000;
Time now();
u64 at(Time t, std::function<void()> fn);        // event callback in scheduler context (must not block)
void cancel_event(u64 id);
int spawn(int node, const std::string& name, std::function<void()> fn);   // new fiber, runnable now
bool fiber_done(int fid);
void sleep_until(Time t);              // fiber context
void yield_point(char kind);           // a possible preemption point
void block_forever();
bool park(void* obj, Time deadline = -1);   // wait until wake(obj) or the deadline (false); no yield point of its own
void wake(void* obj);
u64 resumed_at();                      // step at which the current fiber last came back from waiting for something
int cur_node();                        // node of the running fiber (-1: none / harness)
u64 cur_ident();
int cur_fiber();
void set_node_skew(int node, Time real_skew);
Time node_realtime(int node);
void kill_node(int node);              // fibers of the node never run again; does not return if called from one of them
void revive_node(int node);            // new incarnation
void kill_current();                   // park the current fiber for good
void stop_run();                       // end the run (from scheduler context or a fiber)
void arm_kill(int node, u64 after_points, std::function<void()> on_kill); // crash after that many further yield points of the node
struct Hold { Hold(); ~Hold(); };      // no preemption while alive
bool node_alive(int node);

void run_main(std::function<void()> root);       // run the scheduler until the end of the run
struct Blocked { int node; std::string name; std::string what; Time since; };
std::vector<Blocked> long_blocked(Time min_age); // fibers of live nodes blocked on a mutex/rwlock
std::vector<Blocked> all_fibers(int node);

// wait helpers for harness fibers
bool wait_until(std::function<bool()> cond, Time deadline, Time poll = 1 * MS);

// parameters (set by harness from cfg before run)
extern u32 p_preempt_ppm, p_stall_ppm, p_spurious_ppm, p_pick_ppm, p_mem_ppm, p_wstall_ppm;   // wstall: extra stalls right before a thread waits on a condition variable
extern u32 stall_max_class;
extern u64 step_limit;
extern Time time_limit;
extern void (*on_terminate)(const char* why);   // a node fiber hit exit/abort/terminate/uncaught exception
extern u64 fault_counts[64];

// heap
void heap_check(const char* when);

} // namespace rt
