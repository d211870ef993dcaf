#pragma once
#include "rt.h"
#include "cornerstone_core.h"
#include <set>
#include <memory>
#include <deque>
namespace cl {
using namespace rt;
namespace cs = cornerstone;
using cornerstone::ptr;

struct Ent { u64 term = 0; int type = 0; std::shared_ptr<std::string> bytes; u64 hash = 0; ptr<cs::log_entry> live; };
struct LogImg {
    u64 start = 1; std::vector<Ent> e;
    u64 next() const { return start + e.size(); }
    const Ent* get(u64 i) const { return i >= start && i < next() ? &e[i - start] : nullptr; }
};
struct ConfImg { u64 idx = 0, prev = 0; std::map<int, std::string> srv; };
struct SnapD { u64 idx = 0, term = 0; std::string conf; std::string content; };
// state of the simulated state machine: the last entries verbatim, the earlier ones folded into a hash
struct SmSt { u64 n = 0, h = 0; std::vector<std::pair<u64, u64>> last; void push(u64 i, u64 p) { last.push_back({i, p}); if (last.size() > 5) { h = rt::mix(rt::mix(h, last[0].first), last[0].second); n++; last.erase(last.begin()); } } };
struct Durable {
    bool has_state = false; u64 term = 0; int vote = -1;
    std::string config;
    LogImg log;
    u64 applied = 0; SmSt sm;     // durable state machine (sm_durable mode)
    std::map<u64, std::shared_ptr<SnapD>> snaps; u64 last_snap = 0;
    std::map<u64, std::string> staging;
};
struct Observed; // per node oracle state
struct Inc;      // incarnation
struct Node {
    int id = 0; Durable d; bool up = false, exited = false, self_removed = false, removed_req = false, joiner = false, ever = false, destroying = false;
    u32 inc = 0; std::shared_ptr<Inc> cur; Time paused_until = 0;
    // oracle state surviving crashes
    std::map<u64, std::set<int>> votes;   // term -> candidates granted (saved)
    u64 max_saved_term = 0;
    int exited_bad = 0; bool retired = false;
    u64 half_idx = 0; bool half_own = false;   // a log store write in progress
};
} // namespace cl
