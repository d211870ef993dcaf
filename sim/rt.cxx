#include "rt.h"
#include "shm.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <deque>
#include <dlfcn.h>
#include <exception>
#include <execinfo.h>
#include <link.h>
#include <new>
#include <pthread.h>
#include <queue>
#include <set>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

Shm* shm;

extern "C" { extern int64_t rt_mem_budget; }
namespace rt {
RunSpec* spec;
u32 p_preempt_ppm, p_stall_ppm, p_spurious_ppm, p_pick_ppm, p_mem_ppm, p_wstall_ppm;
u32 stall_max_class = 10;
u64 step_limit = 3000000;
Time time_limit = 3600 * SEC;
void (*on_terminate)(const char* why);
u64 fault_counts[64];
const char* crash_prop = "C07";

// ---------------------------------------------------------------- hashing / decisions
u64 mix(u64 a, u64 b) {
    u64 x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31;
    return x;
}
u64 hash_bytes(const void* p, size_t n, u64 h) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; }
    return mix(h, n);
}
u64 Rng::next() { s += 0x9e3779b97f4a7c15ull; u64 x = s; x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31; return x; }

static std::unordered_map<u64, u32> dec_ctr;
static std::unordered_map<u64, u32> dec_list;
static u64 dkey(u32 kind, u64 ent, u32 ctr) { return mix(mix(ent, kind), ctr); }
static void record(u32 kind, u64 ent, u32 ctr, u32 val) {
    if (!spec->record || !val) return;
    if (shm->ndecs >= sizeof(shm->decs) / sizeof(shm->decs[0])) { shm->decs_overflow++; return; }
    ShmDec& d = shm->decs[shm->ndecs++];
    d.kind = kind; d.ent = ent; d.ctr = ctr; d.val = val;
}
template <class F> static u32 decide(u32 kind, u64 ent, u32 ctr, F f) {
    u32 v;
    if (spec->list_mode) { auto it = dec_list.find(dkey(kind, ent, ctr)); v = it == dec_list.end() ? 0 : it->second; }
    else v = f(mix(mix(spec->seed, dkey(kind, ent, ctr)), 0x1234567));
    record(kind, ent, ctr, v);
    return v;
}
u32 choose(char kind, u64 ent, u32 ppm, u32 nvals) {
    u32& c = dec_ctr[mix(ent, (u64)kind)];
    u32 ctr = c++;
    return decide((u32)kind, ent, ctr, [&](u64 r) -> u32 {
        if (!ppm || !nvals || (r % 1000000) >= ppm) return 0;
        return 1 + (u32)((r >> 24) % nvals);
    });
}
u32 pick(char kind, u64 ent, u32 n) {
    u32& c = dec_ctr[mix(ent, (u64)kind)];
    u32 ctr = c++;
    return decide((u32)kind, ent, ctr, [&](u64 r) -> u32 { return n ? (u32)((r >> 20) % n) : 0; });
}

// ---------------------------------------------------------------- results
static u64 ehash = 0xcbf29ce484222325ull, nsteps, nswitch;
void fold(u64 v) { ehash = mix(ehash, v); }
u64 event_hash() { return ehash; }
u64 steps() { return nsteps; }
static bool focus_hit;
static std::string cur_name();
static bool stopping;
bool violated() { return focus_hit; }
static std::string known_tag;
void known_finding(const char* tag) { Hold h; if (known_tag.empty()) { known_tag = tag; trace("from here on the history is the one of known finding %s", tag); note("known.history"); } }
void violation(const char* prop0, const std::string& cls0, const std::string& msg) {
    Hold h;
    std::string cls = cls0, pr = prop0; 
    if (!known_tag.empty()) { if (spec->prop == prop0) focus_hit = true; cls = known_tag + ":" + prop0; pr = "KF"; }
    const char* prop = pr.c_str();
    trace("VIOLATION %s [%s] %s", prop, cls.c_str(), msg.c_str());
    fold(hash_bytes(cls.data(), cls.size(), hash_bytes(prop, strlen(prop))));
    if (spec->prop == prop) focus_hit = true;
    for (int i = 0; i < shm->nviol; ++i)
        if (!strcmp(shm->viol[i].prop, prop) && !strncmp(shm->viol[i].cls, cls.c_str(), 47)) return;
    if (shm->nviol >= 24) return;
    ShmViolation& v = shm->viol[shm->nviol];
    snprintf(v.prop, sizeof v.prop, "%s", prop);
    snprintf(v.cls, sizeof v.cls, "%s", cls.c_str());
    snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
    v.step = nsteps; v.time = now();
    shm->nviol++;
}
void harness_error(const std::string& msg) {
    if (!shm->err) { shm->err = 1; snprintf(shm->errmsg, sizeof shm->errmsg, "%s", msg.c_str()); }
    trace("HARNESS ERROR %s", msg.c_str());
    stop_run();
}
static std::unordered_map<std::string, u64>* notes_map;
void note(const char* key, u64 n) {
    Hold h;
    if (!notes_map) notes_map = new std::unordered_map<std::string, u64>();
    (*notes_map)[key] += n;
}
static std::set<u64>* states_set;
void state_seen(u64 h) {
    Hold hh;
    if (!states_set) states_set = new std::set<u64>();
    if (states_set->size() < sizeof(shm->states) / 8) states_set->insert(h);
}
static Time vnow;
Time now() { return vnow; }
void trace(const char* fmt, ...) {
    if (!spec || !spec->trace) return;
    int64_t budget = rt_mem_budget; rt_mem_budget = INT64_MAX;   // shared template code used here must not count
    char buf[2000];
    int n = snprintf(buf, sizeof buf, "[%9.3fms #%llu n%d %s] ", vnow / 1e6, (unsigned long long)nsteps, cur_node(), cur_name().c_str());
    va_list ap; va_start(ap, fmt);
    n += vsnprintf(buf + n, sizeof buf - n - 2, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
    buf[n++] = '\n';
    syscall(SYS_write, 2, buf, n);
    rt_mem_budget = budget;
}

// ---------------------------------------------------------------- fibers
enum St { READY, RUNNING, BLK_MUTEX, BLK_RW, BLK_COND, SLEEPING, BLK_OTHER, DEAD, DONE };
static const char* st_name[] = {"ready", "running", "mutex", "rwlock", "cond", "sleep", "other", "dead", "done"};
const size_t STACK = 256 * 1024;
struct Fiber {
    int id, node; u32 inc; std::string name; u64 ident;
    St st = READY; void* obj = nullptr; u64 wait_seq = 0; bool woken_by_timeout = false, spurious = false;
    Time since = 0;
    void* sp = nullptr; char* stack = nullptr;
    std::function<void()> fn;
    char* tls = nullptr; unsigned char cxa[16]; int err = 0;
    u32 pctr = 0, mctr = 0; i64 mem_left = 0; u64 mem_abs = 0, mem_base = 0;
    u32 mem_action = 0;
    u64 timer_ev = 0; u64 resumed = 0;
    void* ret = nullptr; bool detached = false;
};
static std::vector<Fiber*> fibers;
static std::deque<int> ready;
static Fiber* cur;
static void* sched_sp;
static unsigned char sched_cxa[16]; static char* sched_tls; static int sched_err;
static std::vector<char*> free_stacks; static std::vector<char*> free_tls;
static char* tls_addr; static size_t tls_size; static const void* tls_image; static size_t tls_image_size;
static int hold_cnt = 1;
static u64 wait_seq_gen;
struct NodeInfo { bool alive = true; u32 inc = 0; Time skew = 0; std::unordered_map<std::string, u32> names; u64 points = 0; u64 arm = 0; std::function<void()> on_kill; };
static std::map<int, NodeInfo> nodes;

// memory-level preemption budget (see tsan.cxx)
} // namespace rt
extern "C" { int64_t rt_mem_budget = INT64_MAX; }
namespace rt {

struct Ev { Time t; u64 seq; bool operator<(const Ev& o) const { return t != o.t ? t < o.t : seq < o.seq; } };
static std::map<Ev, std::function<void()>> events;
static std::unordered_map<u64, Time> ev_time;
static u64 ev_seq;

extern "C" void rt_switch(void** save_sp, void* load_sp);
asm(R"(
.text
.globl rt_switch
.type rt_switch,@function
rt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size rt_switch,.-rt_switch
)");

static int phdr_cb(struct dl_phdr_info* info, size_t, void*) {
    for (int i = 0; i < info->dlpi_phnum; ++i)
        if (info->dlpi_phdr[i].p_type == PT_TLS) {
            tls_addr = (char*)info->dlpi_tls_data; tls_size = info->dlpi_phdr[i].p_memsz;
            tls_image = (const void*)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr); tls_image_size = info->dlpi_phdr[i].p_filesz;
        }
    return 1; // main program only
}
static void tls_init() { if (!sched_tls) { dl_iterate_phdr(phdr_cb, nullptr); sched_tls = (char*)calloc(1, tls_size + 16); } }

static void mem_next(Fiber* f);
static void swap_in(Fiber* f) {
    memcpy(sched_cxa, abi::__cxa_get_globals(), 16); sched_err = errno;
    if (tls_size) { memcpy(sched_tls, tls_addr, tls_size); memcpy(tls_addr, f->tls, tls_size); }
    memcpy(abi::__cxa_get_globals(), f->cxa, 16); errno = f->err;
    rt_mem_budget = f->mem_left;
}
static void swap_out(Fiber* f) {
    f->mem_left = rt_mem_budget; rt_mem_budget = INT64_MAX;
    memcpy(f->cxa, abi::__cxa_get_globals(), 16); f->err = errno;
    if (tls_size) { memcpy(f->tls, tls_addr, tls_size); memcpy(tls_addr, sched_tls, tls_size); }
    memcpy(abi::__cxa_get_globals(), sched_cxa, 16); errno = sched_err;
}
// from fiber to scheduler
static void to_sched() {
    Fiber* f = cur;
    int h = hold_cnt; hold_cnt = 1;
    rt_switch(&f->sp, sched_sp);
    hold_cnt = h;
}
static void fiber_main() {
    Fiber* f = cur;
    hold_cnt = 0;
    try { f->fn(); }
    catch (std::exception& e) { Hold h; std::string w = std::string("uncaught exception: ") + e.what(); if (on_terminate) on_terminate(w.c_str()); }
    catch (...) { Hold h; if (on_terminate) on_terminate("uncaught exception of unknown type"); }
    { Hold h; f->fn = nullptr; }
    hold_cnt = 1;
    f->st = DONE;
    for (Fiber* o : fibers) if (o->st == BLK_OTHER && o->obj == f) { o->st = READY; ready.push_back(o->id); }
    for (;;) to_sched();
}
static Fiber* new_fiber(int node, const std::string& name) {
    Hold hold;
    tls_init();
    Fiber* f = new Fiber();
    f->id = (int)fibers.size(); f->node = node; NodeInfo& ni = nodes[node]; f->inc = ni.inc; f->name = name;
    u32 n = ni.names[name]++;
    f->ident = mix(mix(hash_bytes(name.data(), name.size()), (u64)(node + 1000)), ((u64)ni.inc << 32) | n);
    if (free_stacks.empty()) {
        char* s = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (s == MAP_FAILED) { harness_error("mmap stack"); abort(); }
        mprotect(s, 4096, PROT_NONE);
        f->stack = s;
    } else { f->stack = free_stacks.back(); free_stacks.pop_back(); }
    if (free_tls.empty()) f->tls = (char*)malloc(tls_size + 16); else { f->tls = free_tls.back(); free_tls.pop_back(); }
    memset(f->tls, 0, tls_size); if (tls_image_size) memcpy(f->tls, tls_image, tls_image_size);
    memset(f->cxa, 0, 16);
    void** sp = (void**)(f->stack + STACK);
    *--sp = nullptr;               // alignment / fake return
    *--sp = (void*)fiber_main;
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    f->sp = sp;
    f->since = vnow;
    mem_next(f);
    fibers.push_back(f);
    return f;
}
int spawn(int node, const std::string& name, std::function<void()> fn) {
    Hold h;
    Fiber* f = new_fiber(node, name);
    f->fn = std::move(fn);
    f->st = READY; ready.push_back(f->id);
    return f->id;
}
bool fiber_done(int fid) { return fibers[fid]->st == DONE || fibers[fid]->st == DEAD; }
int cur_node() { return cur ? cur->node : -1; }
u64 cur_ident() { return cur ? cur->ident : 0; }
int cur_fiber() { return cur ? cur->id : -1; }
static std::string cur_name() { return cur ? cur->name : std::string("sched"); }
Hold::Hold() { ++hold_cnt; }
Hold::~Hold() { --hold_cnt; }
bool node_alive(int node) { return nodes[node].alive; }

u64 at(Time t, std::function<void()> fn) {
    Hold h;
    if (t < vnow) t = vnow;
    u64 id = ++ev_seq;
    events.emplace(Ev{t, id}, std::move(fn));
    ev_time[id] = t;
    return id;
}
void cancel_event(u64 id) {
    Hold h;
    auto it = ev_time.find(id);
    if (it == ev_time.end()) return;
    events.erase(Ev{it->second, id}); ev_time.erase(it);
}
static void make_ready(Fiber* f) {
    if (f->timer_ev) { cancel_event(f->timer_ev); f->timer_ev = 0; }
    f->obj = nullptr; f->st = READY; ready.push_back(f->id);
}
static void block(St st, void* obj) {
    cur->st = st; cur->obj = obj; cur->since = vnow; cur->wait_seq = ++wait_seq_gen;
    to_sched();
}
void sleep_until(Time t) {
    if (!cur) return;
    Hold h;
    Fiber* f = cur;
    f->timer_ev = at(t, [f] { f->timer_ev = 0; if (f->st == SLEEPING) make_ready(f); });
    block(SLEEPING, nullptr);
}
bool park(void* obj, Time deadline) {
    Hold h; Fiber* f = cur;
    if (!f) { harness_error("scheduler context parks"); return false; }
    f->woken_by_timeout = false;
    if (deadline >= 0) f->timer_ev = at(deadline, [f, obj] { f->timer_ev = 0; if (f->st == BLK_OTHER && f->obj == obj) { f->woken_by_timeout = true; make_ready(f); } });
    block(BLK_OTHER, obj);
    f->resumed = nsteps;
    return !f->woken_by_timeout;
}
void wake(void* obj) { Hold h; for (size_t i = 0; i < fibers.size(); ++i) { Fiber* f = fibers[i]; if (f->obj == obj && f->st == BLK_OTHER) make_ready(f); } }
u64 resumed_at() { return cur ? cur->resumed : 0; }
void block_forever() { Hold h; block(BLK_OTHER, nullptr); }
void kill_current() {
    hold_cnt++;
    if (cur) { cur->st = DEAD; for (;;) to_sched(); }
    syscall(SYS_exit_group, 99);
}
static std::map<u64*, int> guards;       // static locals being initialised, and by which fiber (they are shared by all nodes)
static void drop_guards();
void kill_node(int node) {
    Hold h;
    NodeInfo& ni = nodes[node];
    ni.alive = false; ni.arm = 0;
    for (Fiber* f : fibers)
        if (f->node == node && f->st != DONE && f->st != DEAD) {
            if (f->timer_ev) { cancel_event(f->timer_ev); f->timer_ev = 0; }
            f->st = DEAD;
        }
    std::deque<int> r2;
    for (int id : ready) if (fibers[id]->st == READY) r2.push_back(id);
    ready.swap(r2);
    drop_guards();
    if (cur && cur->node == node) for (;;) to_sched();
}
static void drop_guards() { for (auto it = guards.begin(); it != guards.end();) if (fibers[it->second]->st == DEAD) { u64* g = it->first; it = guards.erase(it); ((unsigned char*)g)[1] = 0; wake(g); } else ++it; }
void revive_node(int node) { Hold h; NodeInfo& ni = nodes[node]; ni.alive = true; ni.inc++; ni.names.clear(); }
void set_node_skew(int node, Time s) { nodes[node].skew = s; }
Time node_realtime(int node) { return 1700000000ll * SEC + vnow + (node >= 0 ? nodes[node].skew : 0); }
void arm_kill(int node, u64 after, std::function<void()> on_kill) { Hold h; NodeInfo& ni = nodes[node]; ni.arm = after + 1; ni.on_kill = std::move(on_kill); }
void stop_run() { stopping = true; if (cur) { Hold h; ready.push_front(cur->id); cur->st = READY; to_sched(); } }

static Time stall_len(u32 cls) { // cls 1..: 100us * 2^(cls-1)
    return (Time)100 * US << (cls - 1);
}
static void do_preempt(u32 v, Fiber* f) {
    Hold h;
    if (v == 1) { note("sched.preempt"); f->st = READY; ready.push_back(f->id); to_sched(); }
    else { if (v - 1 > stall_max_class) v = 1 + stall_max_class; note("sched.stall"); sleep_until(vnow + stall_len(v - 1)); }
}
void yield_point(char kind) {
    if (!cur || hold_cnt > 0) return;
    Fiber* f = cur;
    if (stopping) { Hold h; f->st = READY; ready.push_front(f->id); to_sched(); return; }
    if (f->node >= 0) {
        NodeInfo& ni = nodes[f->node];
        ni.points++;
        if (ni.arm && --ni.arm == 0) {
            Hold h; auto cb = std::move(ni.on_kill);
            at(vnow, cb);            // run the crash in scheduler context, this fiber never continues
            f->st = SLEEPING; to_sched();
        }
    }
    u32 pp = p_preempt_ppm, ps = p_stall_ppm + (kind == 'w' ? p_wstall_ppm : 0), mx = stall_max_class;
    u32 v = decide((u32)'P', f->ident, f->pctr++, [&](u64 r) -> u32 {
        u32 x = (u32)(r % 1000000);
        if (x < pp) return 1;
        if (x < pp + ps) return 2 + (u32)((r >> 24) % mx);
        return 0;
    });
    if (v) do_preempt(v, f);
}

// ---- memory access level preemption: gaps between preemptions, per fiber
static std::unordered_map<u64, std::vector<std::pair<u32, u32>>> mem_list; // ident -> (abs access, action)
static void mem_next(Fiber* f) {
    f->mem_base = f->mem_abs;
    if (spec && spec->list_mode) {
        auto it = mem_list.find(f->ident);
        f->mem_left = INT64_MAX; f->mem_action = 0;
        if (it != mem_list.end())
            for (auto& pr : it->second) if (pr.first > f->mem_abs) { f->mem_left = (i64)(pr.first - f->mem_abs); f->mem_action = pr.second; f->mem_abs = pr.first; break; }
    } else if (spec && p_mem_ppm) {
        u64 r = mix(mix(spec->seed, f->ident), mix('M', f->mctr++));
        u64 mean = 1000000 / p_mem_ppm; if (mean < 1) mean = 1;
        u64 gap = 1 + r % (2 * mean);
        if (((r >> 40) & 7) == 0) gap = 1 + (r >> 43) % 8; // clustered preemptions
        f->mem_left = (i64)gap; f->mem_abs += gap;
        f->mem_action = ((r >> 33) % 16) == 0 ? 2 + (u32)((r >> 37) % stall_max_class) : 1;
    } else f->mem_left = INT64_MAX;
}
} // namespace rt
extern "C" void rt_mem_slow() {
    using namespace rt;
    if (!cur) { rt_mem_budget = INT64_MAX; return; }
    if (hold_cnt > 0) { rt_mem_budget = 1; return; }   // not here: at the next access outside the harness
    Fiber* f = cur;
    Hold* h = nullptr; (void)h;
    u32 act = f->mem_action;
    // absolute index actually preempted may differ from the plan by the held accesses; record the planned one
    record('M', f->ident, (u32)f->mem_abs, act);
    mem_next(f);
    rt_mem_budget = f->mem_left;
    if (act) { f->mem_left = rt_mem_budget; do_preempt(act, f); }
}
namespace rt {

bool wait_until(std::function<bool()> cond, Time deadline, Time poll) {
    while (true) {
        { Hold h; if (cond()) return true; }
        if (vnow >= deadline || stopping) return false;
        sleep_until(std::min(deadline, vnow + poll));
    }
}

static u64 steps_at_advance;
void run_main(std::function<void()> root) {
    hold_cnt = 1;
    tls_init();
    if (spec->list_mode) for (auto& d : spec->decs) {
        if (d.kind == 'M') mem_list[d.ent].push_back({d.ctr, d.val});
        else dec_list[dkey(d.kind, d.ent, d.ctr)] = d.val;
    }
    for (auto& p : mem_list) std::sort(p.second.begin(), p.second.end());
    spawn(-1, "root", std::move(root));
    while (!stopping) {
        if (ready.empty()) {
            if (events.empty()) break;
            auto it = events.begin();
            Ev e = it->first;
            if (e.t > time_limit) break;
            if (e.t > vnow) { vnow = e.t; steps_at_advance = nsteps; }
            auto fn = std::move(it->second);
            events.erase(it); ev_time.erase(e.seq);
            fold(mix(e.t, 77));
            ++nsteps;
            fn();
        } else {
            size_t idx = 0;
            if (ready.size() > 1 && (p_pick_ppm || spec->list_mode)) idx = choose('S', 0, p_pick_ppm, (u32)std::min<size_t>(ready.size() - 1, 15));
            if (idx >= ready.size()) idx = ready.size() - 1;
            int id = ready[idx]; ready.erase(ready.begin() + idx);
            Fiber* f = fibers[id];
            if (f->st != READY) continue;
            f->st = RUNNING; cur = f; ++nsteps; ++nswitch;
            fold(mix(f->ident, (u64)vnow));
            swap_in(f);
            rt_switch(&sched_sp, f->sp);
            swap_out(f);
            cur = nullptr;
            if (f->st == DONE && f->stack) { free_stacks.push_back(f->stack); f->stack = nullptr; free_tls.push_back(f->tls); f->tls = nullptr; }
        }
        if (nsteps - steps_at_advance > step_limit) {
            violation(crash_prop, "livelock", "no progress of time in " + std::to_string(step_limit) + " scheduling steps");
            break;
        }
    }
    shm->hash = ehash; shm->steps = nsteps; shm->switches = nswitch; shm->vtime = vnow;
    if (notes_map) for (auto& p : *notes_map) if (shm->nnotes < 160) {
        ShmNote& n = shm->notes[shm->nnotes++]; snprintf(n.key, sizeof n.key, "%s", p.first.c_str()); n.n = p.second;
    }
    if (states_set) for (u64 s : *states_set) shm->states[shm->nstates++] = s;
    shm->finished = 1;
}
std::vector<Blocked> long_blocked(Time min_age) {
    Hold h; std::vector<Blocked> r;
    for (Fiber* f : fibers)
        if ((f->st == BLK_MUTEX || f->st == BLK_RW) && f->node >= 0 && nodes[f->node].alive && vnow - f->since >= min_age)
            r.push_back({f->node, f->name, st_name[f->st], f->since});
    return r;
}
std::vector<Blocked> all_fibers(int node) {
    Hold h; std::vector<Blocked> r;
    for (Fiber* f : fibers) if (f->node == node && f->st != DONE && f->st != DEAD) r.push_back({f->node, f->name, st_name[f->st], f->since});
    return r;
}
static void terminated(const char* why) {
    hold_cnt++;
    trace("terminated: %s", why);
    if (on_terminate) on_terminate(why);
    kill_current();
}
} // namespace rt
using namespace rt;

// ---------------------------------------------------------------- pthread layer
struct MutexImpl { u32 lock, count; u32 owner, nusers; int kind; };
struct RwImpl { u32 readers, writer; };
static u32 self_id() { return cur ? (u32)cur->id + 1 : 0xfffffff0u; }
static void wake_all(void* obj, St st) {
    for (size_t i = 0; i < fibers.size(); ++i) { Fiber* f = fibers[i]; if (f->obj == obj && f->st == st) make_ready(f); }
}
static int do_lock(MutexImpl* m, bool try_only, Time deadline = -1) {
    u32 me = self_id();
    Hold h;
    while (m->owner) {
        if (m->owner == me) { if (m->kind == PTHREAD_MUTEX_RECURSIVE_NP) { m->count++; return 0; } if (m->kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK; }
        if (try_only) return EBUSY;
        if (!cur) { harness_error("scheduler context blocks on a mutex"); return 0; }
        if (deadline >= 0) { if (vnow >= deadline) return ETIMEDOUT; Fiber* f = cur; f->timer_ev = at(deadline, [f] { f->timer_ev = 0; if (f->st == BLK_MUTEX) make_ready(f); }); }
        block(BLK_MUTEX, m);
    }
    m->owner = me; m->count = 1;
    return 0;
}
static void do_unlock(MutexImpl* m) {
    Hold h;
    if (m->count > 1 && m->kind == PTHREAD_MUTEX_RECURSIVE_NP) { m->count--; return; }
    m->owner = 0; m->count = 0;
    if (cur || !fibers.empty()) wake_all(m, BLK_MUTEX);
}
static Time abs_to_v(clockid_t c, const struct timespec* ts) {
    Time t = (Time)ts->tv_sec * SEC + ts->tv_nsec;
    if (c == CLOCK_REALTIME) return t - (node_realtime(cur_node()) - vnow);
    return t;
}
static int do_cond_wait(pthread_cond_t* c, pthread_mutex_t* mx, Time deadline) {
    MutexImpl* m = (MutexImpl*)mx;
    yield_point('w');                      // between testing a condition and waiting, lock still held
    Hold h;
    Fiber* f = cur;
    if (!f) { harness_error("scheduler context waits on a condition"); return 0; }
    u32 cnt = m->count;
    m->owner = 0; m->count = 0; wake_all(m, BLK_MUTEX);
    f->woken_by_timeout = false;
    u32 sp = choose('W', f->ident, p_spurious_ppm, 8);
    Time wake = deadline; bool to = deadline >= 0;
    if (sp) { Time s = vnow + ((Time)50 * US << sp); if (!to || s < wake) { wake = s; to = false; note("fault.spurious_wakeup"); } }
    if (wake >= 0) f->timer_ev = at(wake, [f, to] { f->timer_ev = 0; if (f->st == BLK_COND) { f->woken_by_timeout = to; make_ready(f); } });
    block(BLK_COND, c);
    bool timedout = f->woken_by_timeout; f->resumed = nsteps;
    while (m->owner) block(BLK_MUTEX, m);
    m->owner = self_id(); m->count = cnt;
    return timedout ? ETIMEDOUT : 0;
}
extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    memset(m, 0, sizeof *m);
    if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); ((MutexImpl*)m)->kind = k; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { yield_point('L'); return do_lock((MutexImpl*)m, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { yield_point('L'); return do_lock((MutexImpl*)m, true); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { yield_point('L'); return do_lock((MutexImpl*)m, false, abs_to_v(CLOCK_REALTIME, ts)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { yield_point('L'); return do_lock((MutexImpl*)m, false, abs_to_v(c, ts)); }
int pthread_mutex_unlock(pthread_mutex_t* m) { do_unlock((MutexImpl*)m); yield_point('U'); return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return do_cond_wait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return do_cond_wait(c, m, std::max<Time>(0, abs_to_v(CLOCK_MONOTONIC, ts) > 1000000000ll * SEC ? abs_to_v(CLOCK_REALTIME, ts) : abs_to_v(CLOCK_MONOTONIC, ts))); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts) { return do_cond_wait(c, m, std::max<Time>(0, abs_to_v(ck, ts))); }
int pthread_cond_signal(pthread_cond_t* c) {
    yield_point('n');
    {
        Hold h;
        std::vector<Fiber*> w;
        for (Fiber* f : fibers) if (f->st == BLK_COND && f->obj == c) w.push_back(f);
        if (!w.empty()) {
            std::sort(w.begin(), w.end(), [](Fiber* a, Fiber* b) { return a->wait_seq < b->wait_seq; });
            size_t i = w.size() > 1 ? choose('G', cur_ident(), p_pick_ppm, (u32)w.size() - 1) : 0;
            make_ready(w[std::min(i, w.size() - 1)]);
        }
    }
    yield_point('N');
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    yield_point('n');
    { Hold h; wake_all(c, BLK_COND); }
    yield_point('N');
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* p) {
    yield_point('L'); RwImpl* l = (RwImpl*)p; Hold h;
    while (l->writer) { if (l->writer == self_id()) return EDEADLK; if (!cur) { harness_error("rw"); return 0; } block(BLK_RW, l); }
    l->readers++; return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* p) { yield_point('L'); RwImpl* l = (RwImpl*)p; if (l->writer) return EBUSY; l->readers++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* p) {
    yield_point('L'); RwImpl* l = (RwImpl*)p; Hold h;
    while (l->writer || l->readers) { if (l->writer == self_id()) return EDEADLK; if (!cur) { harness_error("rw"); return 0; } block(BLK_RW, l); }
    l->writer = self_id(); return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* p) { yield_point('L'); RwImpl* l = (RwImpl*)p; if (l->writer || l->readers) return EBUSY; l->writer = self_id(); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* p) {
    { RwImpl* l = (RwImpl*)p; Hold h;
      if (l->writer) l->writer = 0; else if (l->readers) l->readers--;
      if (!fibers.empty() && !l->writer && !l->readers) wake_all(l, BLK_RW);
      else if (!fibers.empty() && !l->writer) wake_all(l, BLK_RW); }
    yield_point('U'); return 0;
}
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    if (!cur && fibers.empty()) { static int (*real)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "pthread_create"); return real(t, nullptr, fn, arg); }
    yield_point('T');
    int node = cur_node();
    { Hold h;
      Fiber* f = new_fiber(node, "thr");
      f->fn = [f, fn, arg] { Hold* x = nullptr; (void)x; f->ret = fn(arg); };
      f->st = READY; ready.push_back(f->id);
      *t = (pthread_t)(f->id + 1); }
    yield_point('T');
    return 0;
}
int pthread_join(pthread_t t, void** ret) {
    yield_point('J');
    Hold h; Fiber* f = fibers[(size_t)t - 1];
    while (f->st != DONE) { if (f->st == DEAD) block(BLK_OTHER, nullptr); block(BLK_OTHER, f); }
    if (ret) *ret = f->ret;
    return 0;
}
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self(void) { return cur ? (pthread_t)(cur->id + 1) : (pthread_t)0x7ffffff0; }
int sched_yield(void) { if (cur) { Hold h; cur->st = READY; ready.push_back(cur->id); to_sched(); } return 0; }
static int vsleep(Time d) { if (!cur) return 0; sleep_until(vnow + (d < 0 ? 0 : d)); return 0; }
int nanosleep(const struct timespec* r, struct timespec* rem) { if (rem) rem->tv_sec = rem->tv_nsec = 0; return vsleep((Time)r->tv_sec * SEC + r->tv_nsec); }
int clock_nanosleep(clockid_t c, int flags, const struct timespec* r, struct timespec*) { if (flags & TIMER_ABSTIME) { Time t = abs_to_v(c, r); return vsleep(t - vnow); } return vsleep((Time)r->tv_sec * SEC + r->tv_nsec); }
int usleep(useconds_t us) { return vsleep((Time)us * US); }
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!spec) return (int)syscall(SYS_clock_gettime, c, ts);
    Time t = c == CLOCK_REALTIME ? node_realtime(cur_node()) : vnow;
    ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC;
    return 0;
}
int gettimeofday(struct timeval* tv, void*) { if (!spec) return (int)syscall(SYS_gettimeofday, tv, nullptr); Time t = node_realtime(cur_node()); tv->tv_sec = t / SEC; tv->tv_usec = (t % SEC) / US; return 0; }
time_t time(time_t* p) { Time t; if (!spec) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t = (Time)ts.tv_sec * SEC; } else t = node_realtime(cur_node()); if (p) *p = t / SEC; return t / SEC; }
int get_nprocs(void) { if (!spec) return 1; return (int)cfg("ncpu", 2); }

// static local initialisation
int __cxa_guard_acquire(u64* g) {
    unsigned char* b = (unsigned char*)g;
    if (b[0]) return 0;
    Hold h;
    while (b[1]) { if (!cur) return 0; block(BLK_OTHER, g); if (b[0]) return 0; }
    b[1] = 1; if (cur) guards[g] = cur->id; return 1;
}
void __cxa_guard_release(u64* g) { unsigned char* b = (unsigned char*)g; b[0] = 1; b[1] = 0; Hold h; guards.erase(g); if (!fibers.empty()) wake_all(g, BLK_OTHER); }
void __cxa_guard_abort(u64* g) { unsigned char* b = (unsigned char*)g; b[1] = 0; Hold h; guards.erase(g); if (!fibers.empty()) wake_all(g, BLK_OTHER); }

// process termination
void exit(int code) {
    if (cur && cur->node >= 0) { char b[40]; snprintf(b, sizeof b, "exit(%d)", code); terminated(b); }
    static void (*real)(int) = (void (*)(int))dlsym(RTLD_NEXT, "exit"); real(code); __builtin_unreachable();
}
void abort(void) {
    if (cur && cur->node >= 0) terminated("abort()");
    static void (*real)(void) = (void (*)(void))dlsym(RTLD_NEXT, "abort"); real(); __builtin_unreachable();
}
void __assert_fail(const char* e, const char* f, unsigned l, const char*) {
    char b[300]; snprintf(b, sizeof b, "assertion failed: %s (%s:%u)", e, f, l);
    if (cur && cur->node >= 0) terminated(b);
    fprintf(stderr, "%s\n", b); syscall(SYS_exit_group, 98); __builtin_unreachable();
}
}
// std::random_device::_M_getval()
extern "C" unsigned rt_rd(void*) asm("_ZNSt13random_device9_M_getvalEv");
extern "C" unsigned rt_rd(void*) {
    if (!spec) return 4;
    return (unsigned)mix(mix(spec->get("rdseed", 1), (u64)cur_node() + 7), 1 + pick('R', mix((u64)cur_node() + 1, 0xabc), 1u << 20));
}

// ---------------------------------------------------------------- heap with red zones and quarantine
namespace {
struct Hdr { size_t size; u64 magic; };
const u64 LIVE = 0x5afe5afe5afe5afeull, FREED = 0xdeaddeaddeaddeadull, TAIL = 0x7a117a117a117a11ull;
struct Q { Hdr* h; };
Hdr* qring[1 << 16]; size_t qhead, qtail, qbytes;
bool heap_bad_reported;
void* dbg_addr = (void*)-1;
void heap_dbg(const char* what, void* p) {
    if (dbg_addr == (void*)-1) { const char* e = getenv("RT_HEAP"); dbg_addr = e ? (void*)strtoull(e, nullptr, 0) : nullptr; }
    if (!dbg_addr || p != dbg_addr) return;
    void* b[24]; int n = backtrace(b, 24); fprintf(stderr, "HEAP %s %p step %llu node %d\n", what, p, (unsigned long long)steps(), cur_node()); backtrace_symbols_fd(b, n, 2);
}
void heap_bad(const char* what, Hdr* h) {
    if (heap_bad_reported || !spec) return;
    heap_bad_reported = true;
    if (spec->trace) trace("heap: %s at %p size %zu", what, (void*)(h + 1), h->size);
    violation(crash_prop, std::string("heap:") + what, std::string("heap corruption detected: ") + what);
}
bool q_ok(Hdr* h) {
    const unsigned char* p = (const unsigned char*)(h + 1);
    size_t n = h->size;
    for (size_t i = 0; i < n; ++i) if (p[i] != 0xdb) return false;
    return true;
}
void q_pop() { Hdr* h = qring[qtail & 0xffff]; qtail++; qbytes -= h->size; if (!q_ok(h)) heap_bad("write after free", h); h->magic = 0; free(h); }
}
void rt::heap_check(const char*) { for (size_t i = qtail; i != qhead; ++i) if (!q_ok(qring[i & 0xffff])) { heap_bad("write after free", qring[i & 0xffff]); break; } }
static void* heap_new(size_t n) {
    Hdr* h = (Hdr*)malloc(sizeof(Hdr) + n + 8);
    if (!h) return nullptr;
    h->size = n; h->magic = LIVE;
    memset((void*)(h + 1), 0xcd, n);
    memcpy((char*)(h + 1) + n, &TAIL, 8);
    if (dbg_addr) heap_dbg("new", h + 1);
    return h + 1;
}
static void heap_delete(void* p) {
    if (!p) return;
    Hdr* h = (Hdr*)p - 1;
    if (dbg_addr) heap_dbg("delete", p);
    if (h->magic == FREED) { heap_bad("double free", h); return; }
    if (h->magic != LIVE) { heap_bad("free of a bad pointer", h); return; }
    if (memcmp((char*)p + h->size, &TAIL, 8)) heap_bad("write past the end of a block", h);
    h->magic = FREED;
    memset(p, 0xdb, h->size);
    while (qhead - qtail >= 65535 || qbytes > (24u << 20)) q_pop();
    qring[qhead & 0xffff] = h; qhead++; qbytes += h->size;
}
void* operator new(size_t n) { void* p = heap_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = heap_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return heap_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return heap_new(n); }
void operator delete(void* p) noexcept { heap_delete(p); }
void operator delete[](void* p) noexcept { heap_delete(p); }
void operator delete(void* p, size_t) noexcept { heap_delete(p); }
void operator delete[](void* p, size_t) noexcept { heap_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap_delete(p); }

// ---------------------------------------------------------------- signals in the child
static void on_signal(int sig, siginfo_t* si, void* uc) {
    ucontext_t* u = (ucontext_t*)uc;
    void* bt[24]; int n = backtrace(bt, 24);
    char b[560]; int k = snprintf(b, sizeof b, "signal %d at pc %p addr %p in node %d thread %s; stack", sig, (void*)u->uc_mcontext.gregs[REG_RIP], si->si_addr, cur_node(), cur_name().c_str());
    for (int i = 2; i < n && k < 520; ++i) k += snprintf(b + k, sizeof b - k, " %p", bt[i]);
    hold_cnt++;
    if (cur && cur->node >= 0) violation(crash_prop, sig == SIGPROF ? "hang" : "crash", b);
    else { shm->err = 1; snprintf(shm->errmsg, sizeof shm->errmsg, "%s", b); trace("%s", b); }
    shm->hash = ehash; shm->steps = nsteps; shm->vtime = vnow;
    syscall(SYS_exit_group, 40);
}
static void on_std_terminate() {
    std::string why = "std::terminate";
    if (auto p = std::current_exception()) { try { std::rethrow_exception(p); } catch (std::exception& e) { why += std::string(" after exception: ") + e.what(); } catch (...) { why += " after exception of unknown type"; } }
    if (cur && cur->node >= 0) terminated(why.c_str());
    shm->err = 1; snprintf(shm->errmsg, sizeof shm->errmsg, "%s", why.c_str());
    syscall(SYS_exit_group, 41);
}
void rt_child_init(const char* cprop) {
    crash_prop = cprop;
    void* bt[2]; backtrace(bt, 2);
    static char* alt = (char*)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = 65536; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGPROF}) sigaction(s, &sa, nullptr);
    struct itimerval it{}; it.it_value.tv_sec = 30; setitimer(ITIMER_PROF, &it, nullptr);
    std::set_terminate(on_std_terminate);
}
