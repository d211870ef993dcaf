// Cluster harness: real raft_server objects on simulated transport, timers, storage and application.
#include "cluster.h"
#include "simfs.h"
#ifdef SIM_FULL
#include "simnet.h"
#include "asio_service.hxx"
#endif
#include <cstring>
namespace rt { extern const char* crash_prop; }
namespace cl {

// ------------------------------------------------------------------ helpers
static std::string S(i64 v) { return std::to_string(v); }
static const char* TYPE[] = {"?", "vote_req", "vote_resp", "append_req", "append_resp", "client_req", "addsrv_req", "addsrv_resp", "rmsrv_req", "rmsrv_resp", "synclog_req", "synclog_resp", "join_req", "join_resp", "leave_req", "leave_resp", "snap_req", "snap_resp", "prevote_req", "prevote_resp"};
static const char* tname(int t) { return t >= 0 && t < 20 ? TYPE[t] : "?"; }
static std::string buf_str(cs::buffer& b) { size_t p = b.pos(); b.pos(0); std::string s((const char*)b.data(), b.size()); b.pos(p); return s; }
static cs::bufptr str_buf(const std::string& s) { cs::bufptr b = cs::buffer::alloc(s.size()); if (s.size()) memcpy(b->data(), s.data(), s.size()); b->pos(0); return b; }
static u64 ent_hash(u64 term, int type, const std::string& s) { return mix(mix(hash_bytes(s.data(), s.size()), term), (u64)type); }
static u64 get_le(const std::string& s, size_t off, int n) { u64 v = 0; for (int i = 0; i < n; ++i) v |= (u64)(unsigned char)s[off + i] << (8 * i); return v; }
static bool parse_conf(const std::string& s, ConfImg& c) {
    Hold h;
    try {
        cs::bufptr b = str_buf(s);
        ptr<cs::cluster_config> cc = cs::cluster_config::deserialize(*b);
        c.idx = cc->get_log_idx(); c.prev = cc->get_prev_log_idx(); c.srv.clear();
        for (auto& p : cc->get_servers()) c.srv[p->get_id()] = p->get_endpoint();
        return true;
    } catch (...) { return false; }
}
static std::string conf_str(ptr<cs::cluster_config> c) { Hold h; cs::bufptr b = c->serialize(); return buf_str(*b); }
static std::string srv_list(const ConfImg& c) { std::string s = "{"; for (auto& p : c.srv) s += S(p.first) + ","; return s + "}@" + S(c.idx); }

// ------------------------------------------------------------------ world
struct SimSM; struct SimMgr; struct SimSched; struct SimFactory; struct SimEvents; struct SimLog;
struct Inc { bool app_failed = false; u64 req_begun = 0;
    Node* n; u32 inc;
    ptr<cs::raft_server> srv; ptr<SimSM> sm; ptr<SimMgr> mgr; ptr<SimSched> sched; ptr<SimFactory> fac; ptr<SimEvents> ev; ptr<SimLog> log;
    bool constructed = false;
#ifdef SIM_FULL
    cs::asio_service* svc = nullptr; ptr<cs::rpc_listener> lis;
#endif
    bool leader = false; u64 leader_term = 0;
    bool ev_leader = false, ev_catchup = false; u64 ev_term = 0, known = 0, known_then = 0, done_then = 0; // what the events told the application (C25)
    // C03
    u64 sm_pos = 0;
    // C13: index -> payload hash announced and outstanding
    std::map<u64, u64> precommitted; std::set<u64> log_at_start; u64 start_next = 1; std::set<u64> packed;
    // C14
    std::map<int, Time> last_resp; Time become_leader_at = -1;
    std::map<int, Time> last_resp_sure; std::map<int, int> resp_begin;
    // C11: favourable answers since the round began (an answer being handled while a round begins belongs to it)
    std::set<int> prevote_ok, prevote_sent; std::multiset<int> prevote_inflight; void new_round() { prevote_sent.clear(); prevote_ok.clear(); prevote_ok.insert(prevote_inflight.begin(), prevote_inflight.end()); }
    std::set<int> leave_err; Time last_leader_contact = -1; u64 contact_timer_seq = 0;
    std::set<u64> led_terms, committed_here, rolled;
    std::string last_err; Time started = 0; bool stopped = false;
    int timers_running = 0, handlers_running = 0, requests_running = 0; u64 timer_seq = 0;
};
struct Submission { u64 id = 0; int node = -1; u32 inc = 0; bool accepted = false, err = false, async = false, returned = false, by_replicate = false; int completions = 0, fwd = 0; u64 pay = 0; Time at = 0; int appended = 0; int app_node = -1; u64 app_term = 0, app_idx = 0; };
struct World {
    std::map<int, Node> nodes;
    std::vector<int> members0;
    bool blocked[16][16]; int blockmode[16][16];  // link state, 0 = loses with error, 1 = holds until healed
    std::deque<std::function<void()>> held;
    bool faults_on = true, final_phase = false;
    u64 rx_raft = 0;
    u32 drop_ppm = 0, dup_ppm = 0, respdrop_ppm = 0, burst_ppm = 0;
    // oracle state
    std::map<u64, std::pair<int, std::string>> term_leader;
    struct Comm { u64 hash; u64 pay; u64 term; u64 by_term; int by; Time at; std::string bytes; };
    std::map<u64, Comm> committed;                 // app entries given to some state machine
    std::map<std::pair<u64, u64>, u64> log_content; // (idx,term) -> hash
    std::map<std::pair<u64, u64>, u64> log_prev;    // (idx,term) -> term of idx-1
    std::map<u64, std::string> conf_at;             // committed config by index (as saved)
    std::map<std::pair<u64, u64>, std::string> conf_ent; // (idx,term) conf entries appended
    u64 global_commit = 0;
    std::map<u64, Submission> subs; u64 next_sub = 1;
    std::map<u64, u64> commit_index_of_payload;
    std::map<u64, u64> term_max_leader;
    std::map<int, Time> rm_requested;
    std::vector<int> adds_accepted;
    Time last_fault = 0;
    bool membership = false; std::set<int> want_in, want_out, seen_member;
    u64 max_leader_term = 0; std::set<u64> conf_committed; std::map<u64, SnapD> snap_made; bool fixed_members = true;
    u64 net_seq = 0;
    std::vector<std::pair<Time, int>> leader_log;
    bool calm = false; u64 calm_term = 0; Time calm_since = 0;
    struct Trap { int ev; i64 skip; std::vector<i64> a; };
    std::vector<Trap> traps;
} * W;
// Traps: a plan may arm a fault that strikes when a certain event happens, at the server it happens on.
enum { T_CONF_OWN, T_CONF_RX, T_LEADER, T_SNP_RX, T_APP_RX, T_SAVE, T_COMPACT, T_SNAP_MAKE, T_SNAP_APPLIED, T_OVERWRITE, T_JOIN_RX, T_PACK, T_LEAVE_RX, T_CONF_APPLIED, T_CANDIDATE, T_ROLLBACK };
static void trap_act(const std::vector<i64>& a, int node);
static void trap(int ev, int node) {
    if (!W->faults_on || W->traps.empty()) return;
    for (size_t i = 0; i < W->traps.size(); ++i) if (W->traps[i].ev == ev && W->traps[i].skip-- <= 0) {
        std::vector<i64> a = W->traps[i].a; W->traps.erase(W->traps.begin() + (long)i); note("fault.trap"); trace("TRAP event %d at node %d", ev, node);
        at(now() + (a.size() > 1 ? a[1] : 0) * US, [a, node] { if (W->faults_on) trap_act(a, node); }); return;
    }
}

static Node& N(int id) { return W->nodes[id]; }
static void crash_node(int id, const char* why);

// What the running fiber is doing on behalf of its node.
enum Kind { K_NONE, K_REQ, K_RESP, K_TIMER, K_API, K_CTOR };
struct Ctx { int node = -1; Kind kind = K_NONE; int type = 0; u64 term = 0; int peer = -1; std::vector<std::pair<u64, u64>> own_appends; std::vector<std::pair<u64, u64>> conf_pending; u64 client_appends = 0; };
static std::map<int, Ctx> fctx;
static Ctx* ctx() { auto it = fctx.find(cur_fiber()); return it == fctx.end() ? nullptr : &it->second; }
struct Enter {
    int fid; int node; u32 inc; bool nested = false; Ctx outer;
    Enter(Node& n, Kind k, int type, u64 term, int peer) { Hold h; auto it = fctx.find(cur_fiber()); if (it != fctx.end()) { nested = true; outer = it->second; } fid = cur_fiber(); node = n.id; inc = n.inc; Ctx c; c.node = n.id; c.kind = k; c.type = type; c.term = term; c.peer = peer; fctx[fid] = c; }
    ~Enter();
};
// replication writes: entries put in the log while handling a leader's request
static bool rx_ctx() { Ctx* c = ctx(); return c && c->kind == K_REQ && (c->type == cs::msg_type::append_entries_request || c->type == cs::msg_type::sync_log_request || c->type == cs::msg_type::install_snapshot_request); }

// pause support: called at stub entry points
static void stub_yield(char k) {
    int n = cur_node();
    if (n >= 0) { Node& nd = N(n); while (nd.paused_until > now()) sleep_until(nd.paused_until); }
    yield_point(k);
}

static u64 abstract_state() {
    // roles, log lengths (bucketed), relative terms, up/down, partition presence
    u64 h = 5; u64 maxt = 0; for (auto& p : W->nodes) maxt = std::max(maxt, p.second.d.term);
    for (auto& p : W->nodes) {
        Node& n = p.second;
        u64 lead = n.cur && n.up && n.cur->leader && n.cur->leader_term == n.d.term;
        u64 lag = std::min<u64>(maxt - n.d.term, 3);
        u64 behind = W->committed.empty() ? 0 : std::min<u64>(3, (W->committed.rbegin()->first > (n.cur ? n.cur->sm_pos : 0)) ? (W->committed.rbegin()->first - (n.cur ? n.cur->sm_pos : 0) + 3) / 4 : 0);
        u64 tail = std::min<u64>(3, n.d.log.next() - 1 > W->global_commit ? (n.d.log.next() - 1 - W->global_commit + 1) / 2 : 0);
        h = mix(h, (u64)p.first * 4096 + n.up * 2048 + lead * 1024 + lag * 128 + behind * 16 + tail * 2 + (n.d.log.start > 1));
    }
    u64 b = 0; for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) b = b * 2 + W->blocked[i][j];
    return mix(h, b);
}

// ------------------------------------------------------------------ oracles on the log
static void check_entry_written(Node& n, u64 idx) {
    const Ent* e = n.d.log.get(idx);
    if (!e) return;
    auto key = std::make_pair(idx, e->term);
    auto it = W->log_content.find(key);
    if (it == W->log_content.end()) W->log_content[key] = e->hash;
    else if (it->second != e->hash) violation("C04", "content", "server " + S(n.id) + " holds a different entry at index " + S(idx) + " of term " + S(e->term) + " than another server's log held");
    u64 pt = 0; bool havep = false;
    if (idx == 1) { havep = true; }
    else if (const Ent* p = n.d.log.get(idx - 1)) { pt = p->term; havep = true; }
    if (havep) {
        auto jt = W->log_prev.find(key);
        if (jt == W->log_prev.end()) W->log_prev[key] = pt;
        else if (jt->second != pt) violation("C04", "prefix", "server " + S(n.id) + ": entry " + S(idx) + " of term " + S(e->term) + " follows an entry of term " + S(pt) + ", elsewhere it follows one of term " + S(jt->second));
    }
}
static void check_conf_appended(Node& n, u64 idx, bool by_leader_append) {
    const Ent* e = n.d.log.get(idx);
    if (!e || e->type != cs::log_val_type::conf) return;
    auto key = std::make_pair(idx, e->term);
    bool fresh = !W->conf_ent.count(key);
    W->conf_ent[key] = *e->bytes;
    if (!fresh) return;
    ConfImg c; if (!parse_conf(*e->bytes, c)) { violation("C09", "conf-bytes", "unparsable configuration entry at " + S(idx)); return; }
    trace("conf appended at %llu term %llu: %s prev %llu", (unsigned long long)idx, (unsigned long long)e->term, srv_list(c).c_str(), (unsigned long long)c.prev);
    if (c.idx != idx) violation("C09", "conf-index", "configuration entry at " + S(idx) + " claims index " + S(c.idx));
    if (by_leader_append) {
        Inc* in = n.cur.get();
        if (!in || !in->leader || in->leader_term != e->term) {
            // the initial configuration is appended just before leadership is announced: decide when this call ends
            if (Ctx* c = ctx()) c->conf_pending.push_back({idx, e->term});
            else violation("C09", "conf-not-leader", "server " + S(n.id) + " appended a configuration at " + S(idx) + " in term " + S(e->term) + " without being leader of that term");
        }
    }
    // previous configuration in this log, or in the snapshot, or the initial one
    ConfImg p; bool have = false; u64 pidx = 0;
    for (u64 i = idx - 1; i >= n.d.log.start && i > 0; --i)
        if (const Ent* q = n.d.log.get(i)) if (q->type == cs::log_val_type::conf) { have = parse_conf(*q->bytes, p); pidx = i; break; }
    if (!have && n.d.last_snap && n.d.last_snap + 1 >= n.d.log.start) { have = parse_conf(n.d.snaps[n.d.last_snap]->conf, p); pidx = p.idx; }
    if (!have && n.d.log.start == 1) { p.srv.clear(); for (int id : W->members0) p.srv[id] = "sim" + S(id); have = true; pidx = 0; }
    if (have) {
        if (c.prev != pidx) violation("C09", "conf-prev", "configuration entry at " + S(idx) + " records previous configuration " + S(c.prev) + " but the log's previous one is " + S(pidx));
        int diff = 0;
        for (auto& s : c.srv) if (!p.srv.count(s.first)) diff++;
        for (auto& s : p.srv) if (!c.srv.count(s.first)) diff++;
        // known finding: a leader removes an unreachable server from a cluster of two without its consent, although the
        // others do not all know the two-server membership as committed yet, and may elect (or did elect) one of them
        // with the membership before
        if (by_leader_append && n.cur && p.srv.size() == 2 && c.srv.size() == 1 && c.srv.count(n.id))
            for (auto& s : p.srv) if (s.first != n.id && n.cur->leave_err.count(s.first)) 
                for (auto& o : W->nodes) if (o.first != n.id && o.second.ever) { ConfImg x; parse_conf(o.second.d.config, x); if ((x.idx < pidx && x.srv.count(s.first)) || o.second.d.term > n.d.term) known_finding("forced-removal"); }
        if (diff == 0 && pidx && by_leader_append) violation("C10", "conf-same", "server " + S(n.id) + " appends configuration " + srv_list(c) + " which has the servers of the previous one");
        if (diff > 1) violation("C09", "conf-diff", "configuration " + srv_list(c) + " differs from the previous " + srv_list(p) + " by " + S(diff) + " servers");
        if (pidx > W->global_commit && by_leader_append)
            violation("C09", "conf-overlap", "server " + S(n.id) + " appended a configuration at " + S(idx) + " while the one at " + S(pidx) + " was still uncommitted");
    }
}
static void drop_tail_check(Node& n, u64 from, const char* op) {
    // entries [from, next) are about to be overwritten / dropped
    Inc* in = n.cur.get();
    if (from >= n.d.log.next()) return;
    if (in && in->leader && in->leader_term == n.d.term) violation("C04", "leader-append-only", std::string("leader ") + S(n.id) + " of term " + S(n.d.term) + " drops its own log from index " + S(from) + " (" + op + ")");
    if (in && from <= in->sm_pos) violation("C04", "applied-overwrite", "server " + S(n.id) + " drops its log from index " + S(from) + " although it applied up to " + S(in->sm_pos));
}
static void pre_drop(Node& n, u64 from) {
    Inc* in = n.cur.get(); if (!in) return;
    for (auto it = in->precommitted.lower_bound(from); it != in->precommitted.end(); ++it)
        violation("C13", "no-rollback", "server " + S(n.id) + " drops the pre-committed entry at index " + S(it->first) + " without telling the state machine to roll it back");
    in->precommitted.erase(in->precommitted.lower_bound(from), in->precommitted.end());
    in->log_at_start.erase(in->log_at_start.lower_bound(from), in->log_at_start.end());
    in->packed.erase(in->packed.lower_bound(from), in->packed.end());
}

static void own_append(Node& n, u64 idx);
// ------------------------------------------------------------------ log store
struct SimLog : public cs::log_store {
    Node* n; u32 inc; ptr<cs::fs_log_store> fs; ptr<cs::log_entry> dummy;
    SimLog(Node* nd, u32 i) : n(nd), inc(i), dummy(cs::cs_new<cs::log_entry>(0, cs::buffer::alloc(0), cs::log_val_type::app_log)) {}
    LogImg& L() const { return n->d.log; }
    bool stale() const { return n->inc != inc; }
    static Ent mk(ptr<cs::log_entry>& e) {
        Ent x; x.term = e->get_term(); x.type = e->get_val_type();
        x.bytes = std::make_shared<std::string>(buf_str(e->get_buf())); x.hash = ent_hash(x.term, x.type, *x.bytes); x.live = e; return x;
    }
    ptr<cs::log_entry> live(u64 i) const {
        Ent& x = L().e[i - L().start];
        if (!x.live) x.live = cs::cs_new<cs::log_entry>(x.term, str_buf(*x.bytes), (cs::log_val_type)x.type);
        return x.live;
    }
    ulong next_slot() const override { stub_yield('s'); if (fs) return fs->next_slot(); return L().next(); }
    ulong start_index() const override { stub_yield('s'); if (fs) return fs->start_index(); return L().start; }
    ptr<cs::log_entry> last_entry() const override { stub_yield('s'); if (fs) return fs->last_entry(); Hold h; if (L().e.empty()) return dummy; return live(L().next() - 1); }
    ulong append(ptr<cs::log_entry>& e) override {
        stub_yield('a');
        u64 idx;
        if (fs) { { Hold h; n->half_own = !rx_ctx(); n->half_idx = L().next(); } idx = fs->append(e); Hold h; n->half_idx = 0; if (idx != L().next()) violation("C15", "append-index", "an entry appended at " + S(L().next()) + " is reported at " + S(idx)); L().e.push_back(mk(e)); }
        else { Hold h; idx = L().next(); L().e.push_back(mk(e)); }
        { Hold h; note("log.append"); after_write(idx, true); }
        stub_yield('A');
        return idx;
    }
    void after_write(u64 idx, bool app) {
        check_entry_written(*n, idx);
        const Ent* e = L().get(idx);
        bool own = app && !rx_ctx();
        check_conf_appended(*n, idx, own);
        if (own) own_append(*n, idx);
        if (e->type == cs::log_val_type::conf) trap(own ? T_CONF_OWN : T_CONF_RX, n->id);
        trace("log write idx %llu term %llu type %d", (unsigned long long)idx, (unsigned long long)e->term, e->type);
    }
    void write_at(ulong index, ptr<cs::log_entry>& e) override {
        stub_yield('a');
        { Hold h; note("log.overwrite"); trap(T_OVERWRITE, n->id); if (index < L().start || index > L().next()) { violation("C07", "write_at-range", "write_at outside the log"); throw std::range_error("index out of range"); }
          drop_tail_check(*n, index, "write_at"); pre_drop(*n, index); }
        if (fs) { { Hold h; n->half_own = false; n->half_idx = index; } fs->write_at(index, e); Hold h; n->half_idx = 0; }
        { Hold h; L().e.resize(index - L().start); L().e.push_back(mk(e)); after_write(index, false); }
        stub_yield('A');
    }
    ptr<std::vector<ptr<cs::log_entry>>> log_entries(ulong start, ulong end) override {
        stub_yield('s');
        if (fs) return fs->log_entries(start, end);
        Hold h;
        if (start < L().start) throw std::range_error("index out of range");
        if (start >= end || start >= L().next()) return ptr<std::vector<ptr<cs::log_entry>>>();
        auto v = cs::cs_new<std::vector<ptr<cs::log_entry>>>();
        for (u64 i = start; i < std::min<u64>(end, L().next()); ++i) v->push_back(live(i));
        return v;
    }
    ptr<cs::log_entry> entry_at(ulong index) override {
        stub_yield('s');
        if (fs) return fs->entry_at(index);
        Hold h;
        if (index < L().start) throw std::range_error("index out of range");
        if (index >= L().next()) return ptr<cs::log_entry>();
        return live(index);
    }
    ulong term_at(ulong index) override {
        stub_yield('s');
        if (fs) { if (index >= fs->next_slot()) violation("C07", "term_at-range", "term asked for an index beyond the log"); return fs->term_at(index); }
        Hold h;
        if (index < L().start) throw std::range_error("index out of range");
        if (index >= L().next()) { violation("C07", "term_at-range", "term asked for an index beyond the log"); return 0; }
        return L().get(index)->term;
    }
    cs::bufptr pack(ulong index, int32_t cnt) override {
        stub_yield('s');
        if (fs) return fs->pack(index, cnt);
        Hold h;
        if (index < L().start) throw std::range_error("index out of range");
        std::string s;
        for (u64 i = index; i < std::min<u64>(index + (u64)(cnt < 0 ? 0 : cnt), L().next()); ++i) {
            const Ent* e = L().get(i); u64 t = e->term; u32 ty = e->type, len = (u32)e->bytes->size();
            s.append((char*)&t, 8); s.append((char*)&ty, 4); s.append((char*)&len, 4); s += *e->bytes;
        }
        return str_buf(s);
    }
    void apply_pack(ulong index, cs::buffer& pk) override {
        stub_yield('a');
        { Hold h; note("log.apply_pack"); trap(T_PACK, n->id); if (index < L().start || index > L().next()) { violation("C07", "apply_pack-range", "apply_pack outside the log"); throw std::range_error("index out of range"); }
          drop_tail_check(*n, index, "apply_pack"); pre_drop(*n, index); }
        if (fs) {
            { Hold h; n->half_own = false; n->half_idx = index; } fs->apply_pack(index, pk);
            std::vector<ptr<cs::log_entry>> got; for (u64 i = index, z = fs->next_slot(); i < z; ++i) got.push_back(fs->entry_at(i));
            Hold h; n->half_idx = 0; L().e.resize(index - L().start);
            for (auto& e : got) L().e.push_back(mk(e));
        } else {
            Hold h; std::string s = buf_str(pk);
            L().e.resize(index - L().start);
            size_t o = 0;
            while (o + 16 <= s.size()) {
                Ent e; e.term = get_le(s, o, 8); e.type = (int)get_le(s, o + 8, 4); u32 len = (u32)get_le(s, o + 12, 4); o += 16;
                e.bytes = std::make_shared<std::string>(s.substr(o, len)); o += len; e.hash = ent_hash(e.term, e.type, *e.bytes);
                L().e.push_back(e);
            }
        }
        { Hold h; for (u64 i = index; i < L().next(); ++i) { check_entry_written(*n, i); check_conf_appended(*n, i, false); if (n->cur) n->cur->packed.insert(i); } }
        stub_yield('A');
    }
    bool compact(ulong last) override;
};

bool SimLog::compact(ulong last) {
    stub_yield('a');
    {
        Hold h; note("log.compact"); trap(T_COMPACT, n->id);
        if (last > n->d.last_snap) violation("C08", "compact-uncovered", "server " + S(n->id) + " compacts its log up to " + S(last) + " but its latest completed snapshot is at " + S(n->d.last_snap));
        trace("compact %llu (start %llu next %llu)", (unsigned long long)last, (unsigned long long)L().start, (unsigned long long)L().next());
    }
    if (fs) { if (!fs->compact(last)) return false; }
    else if (last < L().start) throw std::range_error("index out of range");
    {
        Hold h;
        if (last + 1 >= L().next()) { if (Inc* in = n->cur.get()) { in->precommitted.clear(); in->log_at_start.clear(); in->packed.clear(); } L().e.clear(); L().start = last + 1; }
        else { L().e.erase(L().e.begin(), L().e.begin() + (last + 1 - L().start)); L().start = last + 1; }
        if (Inc* in = n->cur.get()) in->precommitted.erase(in->precommitted.begin(), in->precommitted.lower_bound(last + 1));
    }
    stub_yield('A');
    return true;
}

Enter::~Enter() {
    Hold h;
    auto it = fctx.find(fid);
    if (it == fctx.end()) return;
    Node& n = N(node);
    if (n.inc == inc && n.cur) for (auto& c : it->second.conf_pending)
        if (!(n.cur->leader && n.cur->leader_term == c.second) && !n.cur->led_terms.count(c.second))
            violation("C09", "conf-not-leader", "server " + S(node) + " appended a configuration at " + S(c.first) + " in term " + S(c.second) + " without being leader of that term");
    if (nested) it->second = outer; else fctx.erase(it);
}

// ------------------------------------------------------------------ oracles: leadership
static void claim_leader(int id, u64 term, const char* how) {
    auto it = W->term_leader.find(term);
    if (it == W->term_leader.end()) { W->term_leader[term] = {id, how}; W->max_leader_term = std::max(W->max_leader_term, term); note("leader.terms"); }
    else if (it->second.first != id)
        violation("C01", "two-leaders", "servers " + S(it->second.first) + " (" + it->second.second + ") and " + S(id) + " (" + how + ") both act as leader of term " + S(term));
}
static void own_append(Node& n, u64 idx) {
    const Ent* e = n.d.log.get(idx);
    claim_leader(n.id, e->term, "own log append");
    if (e->type == cs::log_val_type::app_log && n.cur && n.cur->constructed && !(n.cur->ev_leader && n.cur->ev_term == e->term)) violation("C25", "serves-unannounced", "server " + S(n.id) + " accepts a client entry as leader of term " + S(e->term) + " without having announced that it became leader");
    Ctx* c = ctx();
    if (c) c->own_appends.push_back({idx, e->term});
    if (e->type == cs::log_val_type::app_log) {
        u64 id = e->bytes->size() >= 8 ? get_le(*e->bytes, 0, 8) : 0;
        auto it = W->subs.find(id);
        if (it == W->subs.end() || it->second.pay != hash_bytes(e->bytes->data(), e->bytes->size()))
            violation("C12", "not-submitted", "server " + S(n.id) + " put an application entry nobody submitted into its log at " + S(idx));
        else {
            if (it->second.appended++) violation("C12", "duplicated", "submission " + S(id) + " was put in a log twice");
            it->second.app_node = n.id; it->second.app_term = e->term; it->second.app_idx = idx;
        }
    }
}
static u64 commit_pos(const Inc& in) { return in.sm_pos; }
static void check_leader_completeness(Node& n) {
    for (auto& p : W->committed) {
        if (p.second.by_term > n.d.term) continue;   // a late winner of an older term
        const Ent* e = n.d.log.get(p.first);
        if (e) {
            if (e->hash != p.second.hash) { violation("C02", "leader-completeness", "server " + S(n.id) + " became leader of term " + S(n.d.term) + " with a different entry at index " + S(p.first) + " than the committed one"); return; }
        } else if (!(p.first < n.d.log.start && n.d.last_snap >= p.first)) {
            violation("C02", "leader-completeness", "server " + S(n.id) + " became leader of term " + S(n.d.term) + " without the committed entry at index " + S(p.first)); return;
        }
    }
}

// ------------------------------------------------------------------ canonical snapshot contents
static std::string sm_content(const SmSt& v, u64 idx) {
    std::string s; s.append((const char*)&idx, 8); s.append((const char*)&v.n, 8); s.append((const char*)&v.h, 8);
    for (auto& p : v.last) { s.append((const char*)&p.first, 8); s.append((const char*)&p.second, 8); }
    return s;
}
static std::string canon(u64 idx) {
    SmSt v; for (auto& p : W->committed) { if (p.first > idx) break; v.push(p.first, p.second.pay); }
    return sm_content(v, idx);
}
static bool conf_for_index(Node& n, u64 idx, ConfImg& c) {
    for (u64 i = idx; i >= n.d.log.start && i > 0; --i)
        if (const Ent* q = n.d.log.get(i)) if (q->type == cs::log_val_type::conf) return parse_conf(*q->bytes, c);
    if (n.d.log.start > 1) { auto it = n.d.snaps.upper_bound(idx); while (it != n.d.snaps.begin()) { --it; if (it->first + 1 >= n.d.log.start) return parse_conf(it->second->conf, c); } return false; }
    return false;
}

// ------------------------------------------------------------------ state machine
struct SimSM : public cs::state_machine {
    Node* n; u32 inc; SmSt st;
    SimSM(Node* nd, u32 i) : n(nd), inc(i) {
        if (cfg("sm_durable", 1)) st = n->d.sm;
        else if (n->d.last_snap) { parse(n->d.snaps[n->d.last_snap]->content, st); n->d.applied = n->d.last_snap; }
        else n->d.applied = 0;
        if (!cfg("sm_durable", 1)) n->d.sm = st;
    }
    static void parse(const std::string& s, SmSt& v) { v = SmSt(); if (s.size() < 24) return; v.n = get_le(s, 8, 8); v.h = get_le(s, 16, 8); for (size_t o = 24; o + 16 <= s.size(); o += 16) v.last.push_back({get_le(s, o, 8), get_le(s, o + 8, 8)}); }
    Inc& I() { return *n->cur; }
    // applications that read an entry piece by piece, through the buffer's own position
    std::string read_entry(cs::buffer& data) {
        if (!cfg("sm_reads")) { Hold h; return buf_str(data); }
        bool keep = cfg("sm_reads") == 1; std::string s; if (keep) data.pos(0); size_t n = data.size() - data.pos(), k = 0;   // 2: the application just consumes what it is given
        while (k < n && k < 40) { yield_point('g'); byte b; try { b = data.get_byte(); } catch (std::overflow_error&) { break; } Hold h; s.push_back((char)b); ++k; }
        yield_point('g'); Hold h; if (k == 40) { s.append((const char*)data.data(), data.size() - data.pos()); data.pos(data.size()); } if (keep) data.pos(0); return s;
    }
    void check_cookie(const cs::uptr<cs::log_entry_cookie>& c, const std::string& s, u64 idx, const char* how) {
        if (!c || s.size() < 8) return;
        u64 id = get_le(s, 0, 8); auto si = W->subs.find(id); note("cookie.seen");
        if (si == W->subs.end() || !si->second.by_replicate || si->second.node != n->id || si->second.inc != n->inc || c->tag() != (uint)(id & 0xffff)) violation("C12", "cookie", "entry at index " + S(idx) + " is " + how + " with a cookie that does not belong to it");
    }
    void commit(const ulong idx, cs::buffer& data, const cs::uptr<cs::log_entry_cookie>& cookie) override {
        stub_yield('c'); std::string s = read_entry(data);
        {
            Hold h; Inc& in = I(); note("sm.commit");
            u64 pay = hash_bytes(s.data(), s.size());
            trace("sm commit %llu (%s)", (unsigned long long)idx, s.size() >= 8 ? S((i64)get_le(s, 0, 8)).c_str() : "?");
            in.ev_catchup = false; in.known_then = in.known; in.done_then = idx;
            // C12
            u64 id = s.size() >= 8 ? get_le(s, 0, 8) : 0;
            auto si = W->subs.find(id);
            if (si == W->subs.end() || si->second.pay != pay) violation("C12", "not-submitted", "server " + S(n->id) + " applies at index " + S(idx) + " an entry nobody submitted");
            else {
                auto ci = W->commit_index_of_payload.find(id);
                if (ci == W->commit_index_of_payload.end()) W->commit_index_of_payload[id] = idx;
                else if (ci->second != idx) violation("C12", "applied-twice", "submission " + S(id) + " is applied at index " + S(ci->second) + " and at index " + S(idx));
                check_cookie(cookie, s, idx, "applied");
            }
            // C02
            const Ent* le = n->d.log.get(idx);
            u64 eterm = le ? le->term : 0;
            auto it = W->committed.find(idx);
            if (it == W->committed.end()) {
                World::Comm c; c.hash = le ? le->hash : 0; c.pay = pay; c.term = eterm; c.by_term = n->d.term; c.by = n->id; c.at = now(); c.bytes = s;
                W->committed[idx] = c; W->global_commit = std::max(W->global_commit, (u64)idx); state_seen(abstract_state());
            } else if (it->second.pay != pay)
                violation("C02", "divergence", "servers " + S(it->second.by) + " and " + S(n->id) + " apply different entries at index " + S(idx));
            // an index holding a committed configuration elsewhere
            if (W->conf_committed.count(idx)) violation("C02", "divergence-conf", "server " + S(n->id) + " applies an application entry at index " + S(idx) + " where another server committed a configuration");
            // C03
            if (idx <= in.sm_pos) violation("C03", "repeated", "server " + S(n->id) + " applies index " + S(idx) + " although its state machine is at " + S(in.sm_pos));
            else {
                for (u64 j = in.sm_pos + 1; j < idx; ++j) {
                    const Ent* q = n->d.log.get(j);
                    if ((q && q->type == cs::log_val_type::app_log) || (!q && W->committed.count(j))) { violation("C03", "skipped", "server " + S(n->id) + " applies index " + S(idx) + " after " + S(in.sm_pos) + ", skipping the application entry at " + S(j)); break; }
                }
                in.sm_pos = idx;
            }
            if (le && le->hash != ent_hash(le->term, le->type, s)) violation("C03", "not-log-content", "server " + S(n->id) + " applies at index " + S(idx) + " bytes that its log does not hold there");
            // C13
            if (!in.log_at_start.count(idx) && !in.packed.count(idx)) {
                auto pi = in.precommitted.find(idx);
                if (pi == in.precommitted.end()) violation("C13", "commit-without-precommit", "server " + S(n->id) + " commits index " + S(idx) + " without having pre-committed it");
                else if (pi->second != pay) violation("C13", "commit-differs", "server " + S(n->id) + " commits at index " + S(idx) + " something else than it pre-committed");
            }
            in.precommitted.erase(idx); in.committed_here.insert(idx);
            st.push(idx, pay);
            n->d.sm = st; n->d.applied = idx;
        }
        stub_yield('C');
    }
    void pre_commit(const ulong idx, cs::buffer& data, const cs::uptr<cs::log_entry_cookie>& cookie) override {
        stub_yield('c'); std::string s = read_entry(data);
        Hold h; Inc& in = I(); note("sm.precommit"); check_cookie(cookie, s, idx, "pre-committed");
        u64 pay = hash_bytes(s.data(), s.size());
        trace("sm pre_commit %llu (%s)", (unsigned long long)idx, s.size() >= 8 ? S((i64)get_le(s, 0, 8)).c_str() : "?");
        if (in.precommitted.count(idx)) violation("C13", "double-precommit", "server " + S(n->id) + " pre-commits index " + S(idx) + " twice without a rollback in between");
        if (in.committed_here.count(idx)) violation("C13", "precommit-after-commit", "server " + S(n->id) + " pre-commits index " + S(idx) + " after it was committed there");
        const Ent* e = n->d.log.get(idx);
        if (!e || e->hash != ent_hash(e->term, e->type, s)) violation("C13", "precommit-not-log", "server " + S(n->id) + " pre-commits at index " + S(idx) + " something its log does not hold there");
        in.precommitted[idx] = pay; in.log_at_start.erase(idx); in.packed.erase(idx);
    }
    void rollback(const ulong idx, cs::buffer& data, const cs::uptr<cs::log_entry_cookie>& cookie) override {
        stub_yield('c');
        Hold h; Inc& in = I(); note("sm.rollback"); trap(T_ROLLBACK, n->id);
        std::string s = buf_str(data); check_cookie(cookie, s, idx, "rolled back"); u64 pay = hash_bytes(s.data(), s.size());
        trace("sm rollback %llu (%s)", (unsigned long long)idx, s.size() >= 8 ? S((i64)get_le(s, 0, 8)).c_str() : "?");
        if (idx <= in.sm_pos) violation("C13", "rollback-committed", "server " + S(n->id) + " rolls back index " + S(idx) + " although its state machine is at " + S(in.sm_pos));
        auto pi = in.precommitted.find(idx);
        if (pi == in.precommitted.end()) { if (!in.log_at_start.count(idx) && !in.packed.count(idx)) violation("C13", "rollback-unknown", "server " + S(n->id) + " rolls back index " + S(idx) + " which is not pre-committed"); }
        else { if (pi->second != pay) violation("C13", "rollback-differs", "server " + S(n->id) + " rolls back at index " + S(idx) + " something else than it pre-committed"); in.precommitted.erase(pi); }
        in.log_at_start.erase(idx); in.packed.erase(idx); in.rolled.insert(idx);
    }
    void save_snapshot_data(cs::snapshot& s, const ulong offset, cs::buffer& data) override {
        stub_yield('c');
        { Hold h; if (W->faults_on && choose('F', (u64)n->id, (u32)cfg("p_snapfail", 0) / 10, 1)) { note("fault.snapshot_save"); I().app_failed = true; } else goto ok; }
        throw std::runtime_error("injected");
ok:     Hold h; note("snap.block");
        std::string b = buf_str(data); std::string& st2 = n->d.staging[s.get_last_log_idx()];
        if (st2.size() < offset + b.size()) st2.resize(offset + b.size(), '\xEE');
        st2.replace(offset, b.size(), b);
        trace("snapshot %llu block at %llu size %zu of %llu", (unsigned long long)s.get_last_log_idx(), (unsigned long long)offset, b.size(), (unsigned long long)s.size());
        if (offset + b.size() > s.size()) violation("C08", "block-range", "snapshot block beyond the snapshot's size");
    }
    bool apply_snapshot(cs::snapshot& s) override {
        stub_yield('c'); bool fail_throw = false;
        {
            Hold h; Inc& in = I(); note("snap.applied"); trap(T_SNAP_APPLIED, n->id); u64 idx = s.get_last_log_idx();
            std::string got = n->d.staging[idx]; std::string conf = conf_str(s.get_last_config());
            trace("apply snapshot %llu term %llu size %zu", (unsigned long long)idx, (unsigned long long)s.get_last_log_term(), got.size());
            if (int f = W->faults_on ? choose('f', (u64)n->id, (u32)cfg("p_snapfail", 0), 2) : 0) { note("fault.snapshot_apply"); in.app_failed = true; if (f == 2) fail_throw = true; else return false; }
            else {
            if (idx < in.sm_pos) violation("C08", "older-snapshot", "server " + S(n->id) + " replaces its state at index " + S(in.sm_pos) + " by a snapshot at index " + S(idx));
            if (got.size() != s.size()) violation("C08", "snapshot-size", "server " + S(n->id) + " installs a snapshot of " + S(s.size()) + " bytes but received " + S(got.size()));
            if (got != canon(idx)) violation("C08", "snapshot-content", "server " + S(n->id) + " installs a snapshot at index " + S(idx) + " whose content is not the result of applying every entry up to there");
            auto it = W->snap_made.find(idx);
            if (it == W->snap_made.end()) violation("C08", "snapshot-unknown", "server " + S(n->id) + " installs a snapshot at index " + S(idx) + " that no server made");
            else {
                if (it->second.term != s.get_last_log_term()) violation("C08", "snapshot-term", "installed snapshot at index " + S(idx) + " has term " + S(s.get_last_log_term()) + ", it was made with term " + S(it->second.term));
                if (it->second.conf != conf) violation("C08", "snapshot-config", "installed snapshot at index " + S(idx) + " has another membership than the one made");
            }
            auto sd = std::make_shared<SnapD>(); sd->idx = idx; sd->term = s.get_last_log_term(); sd->conf = conf; sd->content = got;
            n->d.snaps[idx] = sd; n->d.last_snap = std::max(n->d.last_snap, idx);
            n->d.staging.erase(idx);
            parse(got, st); n->d.sm = st; n->d.applied = std::max<u64>(idx, in.sm_pos); in.sm_pos = std::max<u64>(idx, in.sm_pos); in.done_then = std::max<u64>(in.done_then, idx);
            in.precommitted.erase(in.precommitted.begin(), in.precommitted.upper_bound(idx));
            }
        }
        if (fail_throw) throw std::runtime_error("injected");
        stub_yield('C');
        return true;
    }
    int read_snapshot_data(cs::snapshot& s, const ulong offset, cs::buffer& data) override {
        stub_yield('c');
        Hold h; auto it = n->d.snaps.find(s.get_last_log_idx());
        if (it == n->d.snaps.end()) { violation("C08", "read-unknown", "server " + S(n->id) + " sends a snapshot at index " + S(s.get_last_log_idx()) + " that it does not have"); return 0; }
        const std::string& c = it->second->content; size_t k = data.size();
        if (offset > c.size()) return 0;
        k = std::min(k, c.size() - (size_t)offset);
        size_t p = data.pos(); data.pos(0); memcpy(data.data(), c.data() + offset, k); data.pos(p);
        return (int)k;
    }
    ptr<cs::snapshot> mk(SnapD& d) { cs::bufptr b = str_buf(d.conf); auto c = cs::cluster_config::deserialize(*b); return cs::cs_new<cs::snapshot>(d.idx, d.term, c, (ulong)d.content.size()); }
    ptr<cs::snapshot> last_snapshot() override { stub_yield('c'); Hold h; if (!n->d.last_snap) return ptr<cs::snapshot>(); return mk(*n->d.snaps[n->d.last_snap]); }
    ulong last_commit_index() override { stub_yield('c'); return n->d.applied; }
    void create_snapshot(cs::snapshot& s, cs::async_result<bool>::handler_type& when_done) override {
        stub_yield('c');
        std::shared_ptr<SnapD> sd; u32 mode, dly;
        {
            Hold h; note("snap.create"); trap(T_SNAP_MAKE, n->id); u64 idx = s.get_last_log_idx(); Inc& in = I();
            trace("create snapshot %llu", (unsigned long long)idx);
            sd = std::make_shared<SnapD>(); sd->idx = idx; sd->term = s.get_last_log_term(); sd->conf = conf_str(s.get_last_config()); sd->content = sm_content(st, idx);
            // the state is that of sm_pos; non-application entries in between do not change it
            bool gap = idx < in.sm_pos;
            for (u64 j = in.sm_pos + 1; j <= idx; ++j) { const Ent* q = n->d.log.get(j); if (q && q->type == cs::log_val_type::app_log) gap = true; }
            if (gap) violation("C08", "create-index", "server " + S(n->id) + " asks for a snapshot at index " + S(idx) + " while its state machine is at " + S(in.sm_pos));
            const Ent* q = n->d.log.get(idx);
            if (q && q->term != sd->term) violation("C08", "create-term", "snapshot at index " + S(idx) + " is made with term " + S(sd->term) + " but that entry has term " + S(q->term));
            ConfImg want, got; 
            if (parse_conf(sd->conf, got) && conf_for_index(*n, idx, want) && (want.idx != got.idx || want.srv != got.srv)) {
                ConfImg less = want; if (n->self_removed && less.srv.erase(n->id) && got.idx == want.idx && got.srv == less.srv) known_finding("self-removal");
                violation("C08", "create-config", "snapshot at index " + S(idx) + " is made with membership " + srv_list(got) + " but the one in force there is " + srv_list(want)); }
            mode = choose('n', (u64)n->id, (u32)cfg("p_snapasync", 500000), 5);   // 0 sync, 1..2 async, 3 rejected, 4 error, 5 throws
            if (((cfg("snap_lazy") >> n->id) & 1) && choose('N', (u64)n->id, 850000, 1)) mode = 3;   // an application that seldom makes one
            if (mode >= 3 && !W->faults_on) mode = 1;
            dly = 1 + pick('d', (u64)n->id, 60);
        }
        u32 myinc = inc; Node* nd = n;
        auto finish = [nd, myinc, sd, mode](cs::async_result<bool>::handler_type hd) {
            bool ok = mode < 3; ptr<std::exception> e;
            { Hold h; if (ok) {
                nd->d.snaps[sd->idx] = sd; nd->d.last_snap = std::max(nd->d.last_snap, sd->idx); note("snap.made");
                auto it = W->snap_made.find(sd->idx);
                if (it == W->snap_made.end()) W->snap_made[sd->idx] = *sd;
              } else { note("fault.snapshot_refused"); if (mode == 4) e = cs::cs_new<std::runtime_error>("injected"); } }
            stub_yield('c');
            hd(ok, e);
        };
        if (mode == 5) { { Hold h; note("fault.snapshot_throws"); } throw std::runtime_error("injected"); }
        if (mode == 0) { finish(when_done); return; }
        cs::async_result<bool>::handler_type hd = when_done;
        Hold h;
        std::shared_ptr<Inc> in = nd->cur; in->handlers_running++;   // the application ends its own snapshot work before it destroys the server
        at(now() + dly * MS, [nd, in, myinc, finish, hd] {
            if (nd->inc != myinc || !nd->up) return;
            spawn(nd->id, "snap", [nd, in, finish, hd] { { Enter en(*nd, K_API, 0, 0, -1); finish(hd); } Hold h; in->handlers_running--; });
        });
    }
};

// ------------------------------------------------------------------ state manager
static void node_exit(Node& n, const std::string& why, bool legit);
static void start_node(int id);
// the file log store is opened from what its files hold; a write that a crash interrupted may or may not be there
static void open_log(Node& n, Inc& in) {
    if (!cfg("fslog")) return;
    ptr<cs::fs_log_store> fs;
    try { fs = cs::cs_new<cs::fs_log_store>("/sim/n" + S(n.id), (int32_t)cfg("fs_buf", 1000)); }
    catch (std::exception& e) { violation("C07", "log-opens-not", std::string("the log store cannot be opened again: ") + e.what()); node_exit(n, "exception", true); }
    u64 start = fs->start_index(), next = fs->next_slot(); std::vector<ptr<cs::log_entry>> es;
    for (u64 i = start; i < next; ++i) es.push_back(fs->entry_at(i));
    Hold h; LogImg old = n.d.log; u64 half = n.half_idx; n.half_idx = 0;
    for (u64 i = old.start; i < old.next() && (!half || i < half); ++i) if (i >= start && (i >= next || !es[i - start] || ent_hash(es[i - start]->get_term(), es[i - start]->get_val_type(), buf_str(es[i - start]->get_buf())) != old.get(i)->hash)) { violation("C07", "log-lost", "server " + S(n.id) + ": the log store lost the entry at " + S(i) + " in a crash"); return; }
    n.d.log.start = start; n.d.log.e.clear(); in.log_at_start.clear();
    for (u64 i = start; i < next; ++i) {
        Ent x = SimLog::mk(es[i - start]); x.live = nullptr; n.d.log.e.push_back(x); in.log_at_start.insert(i); note("log.reopened_entries");
        if (half && i >= half) { trace("entry %llu of an interrupted write is in the log", (unsigned long long)i); note("log.half_written"); check_entry_written(n, i); check_conf_appended(n, i, false); if (n.half_own) own_append(n, i); }
    }
    in.log->fs = fs;
}
struct SimMgr : public cs::state_mgr {
    Node* n; u32 inc; SimMgr(Node* nd, u32 i) : n(nd), inc(i) {}
    ptr<cs::cluster_config> load_config() override { stub_yield('m'); Hold h; cs::bufptr b = str_buf(n->d.config); return cs::cluster_config::deserialize(*b); }
    void save_config(const cs::cluster_config& c) override {
        stub_yield('m');
        {
            Hold h; trap(T_CONF_APPLIED, n->id); cs::bufptr b = const_cast<cs::cluster_config&>(c).serialize(); std::string s = buf_str(*b);
            ConfImg ci, old; if (!parse_conf(s, ci)) { violation("C09", "save-bytes", "unparsable configuration saved"); return; }
            parse_conf(n->d.config, old);
            trace("save config %s", srv_list(ci).c_str());
            bool leaving = n->removed_req && !ci.srv.count(n->id);
            if (ci.idx && !leaving) {
                auto it = W->conf_at.find(ci.idx);
                if (it == W->conf_at.end()) { W->conf_at[ci.idx] = s; W->conf_committed.insert(ci.idx); if (W->committed.count(ci.idx)) violation("C02", "divergence-conf", "server " + S(n->id) + " commits a configuration at index " + S(ci.idx) + " where another server applied an application entry"); W->global_commit = std::max(W->global_commit, ci.idx); state_seen(abstract_state()); }
                else { ConfImg o; parse_conf(it->second, o); if (o.srv != ci.srv) violation("C09", "conf-diverge", "server " + S(n->id) + " installs membership " + srv_list(ci) + " but another server installed " + srv_list(o) + " for the same index"); }
            }
            { ConfImg less = old; if (less.srv.erase(n->id) && ci.idx == old.idx && ci.srv == less.srv) n->self_removed = true; } // gave up waiting for the end of its removal
            if (ci.idx < old.idx) violation("C09", "conf-order", "server " + S(n->id) + " saves the membership of index " + S(ci.idx) + " after that of index " + S(old.idx));
            n->d.config = s;
        }
        stub_yield('M');
    }
    void save_state(const cs::srv_state& s) override {
        stub_yield('m');
        {
            Hold h; u64 t = s.get_term(); int v = s.get_voted_for(); Ctx* c = ctx(); Inc* in = n->cur.get();
            trace("save state term %llu vote %d", (unsigned long long)t, v); trap(T_SAVE, n->id);
            if (n->d.has_state && t < n->d.term) violation("C05", "term-decreases", "server " + S(n->id) + " saves term " + S(t) + " after term " + S(n->d.term));
            auto& vs = n->votes[t];
            if (v != -1) { if (!vs.empty() && !vs.count(v)) violation("C05", "two-votes", "server " + S(n->id) + " votes for " + S(v) + " in term " + S(t) + " after voting for " + S(*vs.begin())); vs.insert(v); }
            else if (n->d.has_state && n->d.term == t && n->d.vote != -1) violation("C05", "vote-erased", "server " + S(n->id) + " erases its vote of term " + S(t));
            bool raise = t > n->d.term;
            if (raise && in) {
                bool adopted = c && (c->kind == K_REQ || c->kind == K_RESP) && c->term >= t && c->type != cs::msg_type::prevote_request;
                if (!adopted) {
                    note("candidacy"); trap(T_CANDIDATE, n->id);
                    if (cfg("prevote") && W->fixed_members) {
                        size_t need = W->members0.size() / 2 + 1, have = 1 + in->prevote_ok.size();
                        if (have < need) violation("C11", "candidacy-without-majority", "server " + S(n->id) + " raises its term to " + S(t) + " on its own after only " + S(have) + " of " + S(W->members0.size()) + " members favoured its pre-vote round");
                    }
                    in->new_round();
                }
                if (t > in->leader_term) in->leader = false;
            }
            if (c && (c->kind == K_REQ || c->kind == K_RESP) && (c->type == cs::msg_type::prevote_request) && (t != n->d.term || v != n->d.vote))
                violation("C11", "prevote-saved", "server " + S(n->id) + " changes its saved term or vote because of a pre-vote");
            n->d.has_state = true; n->d.term = t; n->d.vote = v; n->max_saved_term = std::max(n->max_saved_term, t);
            state_seen(abstract_state());
        }
        stub_yield('M');
    }
    ptr<cs::srv_state> read_state() override {
        stub_yield('m'); Hold h;
        if (!n->d.has_state) return ptr<cs::srv_state>();
        auto s = cs::cs_new<cs::srv_state>(); s->set_term(n->d.term); s->set_voted_for(n->d.vote); return s;
    }
    ptr<cs::log_store> load_log_store() override { stub_yield('m'); return n->cur->log; }
    int32 server_id() override { return n->id; }
    void system_exit(const int code) override {
        // the application could not do what it was asked for: the server gives up, and its process is started again
        if (n->cur->app_failed) { { Hold h; int id = n->id; note("exit.app_failed"); at(now() + 300 * MS, [id] { start_node(id); }); crash_node(id, "application failure"); } return; }
        node_exit(*n, "system_exit(" + S(code) + ") after: " + n->cur->last_err, n->removed_req); }
};

// ------------------------------------------------------------------ scheduler
struct SimSched : public cs::delayed_task_scheduler {
    Node* n; u32 inc; struct T { u64 ev = 0; u64 gen = 0; }; std::map<cs::delayed_task*, T> tasks;
    SimSched(Node* nd, u32 i) : n(nd), inc(i) {}
#ifdef SIM_FULL
    // the real timers: every task is wrapped in one that tells the oracles who runs
    struct Wrap : public cs::delayed_task {
        Node* nd; std::shared_ptr<Inc> in; ptr<cs::delayed_task> inner;
        void exec() override {
            while (nd->paused_until > now()) sleep_until(nd->paused_until);
            { Hold h; if (in->stopped) return; in->timers_running++; in->timer_seq++; note("timer.fired"); }
            { Enter en(*nd, K_TIMER, 0, 0, -1); inner->execute(); }
            Hold h; in->timers_running--;
        }
    };
    std::map<cs::delayed_task*, ptr<Wrap>> wraps;
    ptr<cs::delayed_task> wrap(ptr<cs::delayed_task>& t) { Hold h; ptr<Wrap>& w = wraps[t.get()]; if (!w) { w = cs::cs_new<Wrap>(); w->nd = n; w->in = n->cur; w->inner = t; } return w; }
    void schedule(ptr<cs::delayed_task>& task, int32 ms) override { stub_yield('t'); task->reset(); ptr<cs::delayed_task> w = wrap(task); n->cur->svc->schedule(w, ms); }
private:
    void cancel_impl(ptr<cs::delayed_task>& task) override { stub_yield('t'); ptr<cs::delayed_task> w = wrap(task); n->cur->svc->cancel(w); }
#else
    void schedule(ptr<cs::delayed_task>& task, int32 ms) override {
        stub_yield('t');
        Hold h;
        T& t = tasks[task.get()]; if (t.ev) cancel_event(t.ev);
        task->reset();
        u64 gen = ++t.gen; ptr<cs::delayed_task> tk = task; Node* nd = n; u32 my = inc;
        Time late = (Time)pick('l', (u64)n->id, 8) * 250 * US;
        t.ev = at(now() + std::max(0, ms) * MS + late, [this, tk, gen, nd, my] {
            T& t = tasks[tk.get()]; if (t.gen != gen) return; t.ev = 0;
            if (nd->inc != my || !nd->up || !nd->cur || nd->cur->stopped) return;
            spawn(nd->id, "timer", [this, tk, gen, nd]() mutable {
                while (nd->paused_until > now()) sleep_until(nd->paused_until);
                { Hold h; if (nd->cur->stopped) return; nd->cur->timers_running++; nd->cur->timer_seq++; }
                { Enter en(*nd, K_TIMER, 0, 0, -1);
                  bool run; { Hold h; run = tasks[tk.get()].gen == gen; }
                  if (run) { note("timer.fired"); tk->execute(); } }
                Hold h; nd->cur->timers_running--; tk.reset();
            });
        });
    }
private:
    void cancel_impl(ptr<cs::delayed_task>& task) override { stub_yield('t'); Hold h; T& t = tasks[task.get()]; t.gen++; if (t.ev) { cancel_event(t.ev); t.ev = 0; } }
#endif
};

// ------------------------------------------------------------------ events, logger
struct SimEvents : public cs::raft_event_listener {
    Node* n; u32 inc; SimEvents(Node* nd, u32 i) : n(nd), inc(i) {}
    void on_event(cs::raft_event e) override {
        stub_yield('e');
        Hold h; Inc& in = *n->cur;
        if (e == cs::raft_event::become_leader) {
            trace("EVENT become_leader term %llu", (unsigned long long)n->d.term); note("event.become_leader"); trap(T_LEADER, n->id);
            claim_leader(n->id, n->d.term, "leader event");
            if (in.ev_leader && in.ev_term >= n->d.term) violation("C25", "leader-twice", "server " + S(n->id) + " announces twice that it became leader, in term " + S(n->d.term));
            in.ev_leader = true; in.ev_term = n->d.term;
            in.leader = true; in.leader_term = n->d.term; in.become_leader_at = now(); in.led_terms.insert(n->d.term);
            check_leader_completeness(*n);
        } else if (e == cs::raft_event::become_follower) { trace("EVENT become_follower"); in.leader = false; in.ev_leader = false; }
        else if (e == cs::raft_event::logs_catch_up) {
            in.ev_catchup = true; note("event.catch_up");
            for (u64 i = std::max(in.done_then + 1, n->d.log.start); i <= in.known_then && i < n->d.log.next(); ++i) if (const Ent* x = n->d.log.get(i)) if (x->type == cs::log_val_type::app_log) { violation("C25", "early-catch-up", "server " + S(n->id) + " announces that it caught up after applying index " + S(in.done_then) + " although it knew index " + S(i) + " to be committed before"); break; }
        }
        state_seen(abstract_state());
    }
};
struct SimLogger : public cs::logger {
    Node* n; SimLogger(Node* nd) : n(nd) {}
    void put(const char* lv, const std::string& s) { Hold h; if (spec->trace) trace("%s: %s", lv, s.c_str()); }
    void debug(const std::string& s) override { put("debug", s); }
    void info(const std::string& s) override { put("info", s); }
    void warn(const std::string& s) override { put("warn", s); }
    void err(const std::string& s) override { put("ERR", s); Hold h; if (n->cur) n->cur->last_err = s; }
};

// ------------------------------------------------------------------ transport
struct WireEnt { u64 term; int type; std::string bytes; };
struct Wire { u64 term; int type, src, dst; u64 llt, lli, ci; std::vector<WireEnt> e; };
struct Rpc { u64 id; int src; u32 srcinc; int dst; cs::rpc_handler h; ptr<cs::req_msg> req; Wire w; bool done = false; int stage = 0; /*0 travelling, 1 at server, 2 answering*/ bool raft = false; };
typedef std::shared_ptr<Rpc> RpcP;
static std::map<u64, RpcP> inflight;
static std::map<std::pair<int, int>, Time> chan_last;
struct Held { int from, to; std::function<void()> go; };
static std::vector<Held> held_msgs;

static std::shared_ptr<cs::req_msg> unwire(const Wire& w) {
    auto r = cs::cs_new<cs::req_msg>((ulong)w.term, (cs::msg_type)w.type, (int32)w.src, (int32)w.dst, (ulong)w.llt, (ulong)w.lli, (ulong)w.ci);
    for (auto& e : w.e) r->log_entries().push_back(cs::cs_new<cs::log_entry>((ulong)e.term, str_buf(e.bytes), (cs::log_val_type)e.type));
    return r;
}
static bool up(int id) { auto it = W->nodes.find(id); return it != W->nodes.end() && it->second.up && it->second.cur && it->second.cur->constructed && !it->second.cur->stopped; }
static Time latency(int from, int to) {
    u64 ch = (u64)from * 16 + to;
    Time d = 100 * US + (Time)pick('y', ch, 16) * 100 * US;
    if (W->faults_on) {
        u32 k = choose('D', ch, (u32)cfg("p_delay", 20000), (u32)cfg("delay_cls", 9));
        if (k) { note("fault.delay"); d += (1 * MS) << (k - 1); }
    }
    return d;
}
static void complete(RpcP r, ptr<cs::resp_msg> resp, const char* err);
static void fail_later(RpcP r, const char* why) {
    if (r->done) return;
    Time d = 200 * US + (Time)pick('f', (u64)r->src * 16 + r->dst, 30) * MS;
    at(now() + d, [r, why] { complete(r, nullptr, why); });
}
static void send_over(int from, int to, bool client_like, RpcP r, bool can_lose, std::function<void()> arrive) {
    // scheduler or fiber context, held
    if (from != to && W->blocked[from][to]) {
        note("fault.blocked");
        if (W->blockmode[from][to]) { held_msgs.push_back({from, to, arrive}); return; }
        fail_later(r, "partitioned"); return;
    }
    if (can_lose && W->faults_on) {
        u32 v = choose('X', (u64)from * 16 + to, (u32)(W->drop_ppm + W->burst_ppm), 2);
        if (v) { note("fault.drop"); trace("drop %s %d->%d", tname(r->w.type), from, to); fail_later(r, "lost"); return; }
    }
    Time t = now() + latency(from, to);
    if (cfg("fifo", 1)) { Time& l = chan_last[{from, to}]; if (t <= l) t = l + 10 * US; l = t; }
    at(t, [from, to, r, arrive] {
        if (from != to && W->blocked[from][to]) {
            if (W->blockmode[from][to]) { held_msgs.push_back({from, to, arrive}); return; }
            note("fault.blocked"); fail_later(r, "partitioned"); return;
        }
        arrive();
    });
}
static void serve(RpcP r, bool dup);
static void on_response_wire(Node& n, const Wire& w, ptr<cs::resp_msg>& resp, u64 term_at_entry);

// a response or an error is handed to the server that sent the request
static void deliver(RpcP r, ptr<cs::resp_msg> resp, const std::string& why, ptr<cs::rpc_exception> ex) {
    Node& s = N(r->src);
    while (s.paused_until > now()) sleep_until(s.paused_until);
    if (s.cur->stopped) return;
    Inc* in = s.cur.get();
    Time t_begin;
    { Hold h; in->handlers_running++; t_begin = now();
      if (!resp && r->w.type == (int)cs::msg_type::leave_cluster_request && N(r->src).cur) N(r->src).cur->leave_err.insert(r->dst);
      trace("deliver %s to request %s of %d->%d %s", resp ? tname(resp->get_type()) : "error", tname(r->w.type), r->src, r->dst, resp ? (resp->get_accepted() ? "accepted" : "declined") : why.c_str());
      if (r->w.type == (int)cs::msg_type::client_request) for (auto& e : r->w.e) if (e.bytes.size() >= 8) { auto si = W->subs.find(get_le(e.bytes, 0, 8)); if (si != W->subs.end()) si->second.fwd = resp ? resp->get_accepted() ? 1 : 2 : 3; }
      if (resp) {
          if (resp->get_type() == cs::msg_type::prevote_response && resp->get_accepted()) { in->prevote_ok.insert(r->dst); in->prevote_inflight.insert(r->dst); }
          if (r->raft) in->resp_begin[r->dst]++;
      } }
    {
        Enter en(s, K_RESP, resp ? resp->get_type() : r->w.type, resp ? resp->get_term() : 0, r->dst);
        if (!resp && !ex) ex = cs::cs_new<cs::rpc_exception>(why, r->req);
        ptr<cs::resp_msg> again = resp; bool two;
        { Hold h; two = W->faults_on && r->raft && resp && (resp->get_type() == cs::msg_type::vote_response || resp->get_type() == cs::msg_type::prevote_response) && choose('V', (u64)r->src * 16 + r->dst, W->dup_ppm, 1); if (two) note("fault.dup_vote"); }
        try { r->h(resp, ex); if (two) { trace("deliver the answer of %d again", r->dst); r->h(again, ex); } }
        catch (std::exception& e) { violation("C07", "exception-response", std::string("exception leaves a response handler: ") + e.what()); node_exit(s, "exception", true); }
    }
    Hold h; in->handlers_running--;
    if (resp && resp->get_type() == cs::msg_type::prevote_response && resp->get_accepted()) in->prevote_inflight.erase(in->prevote_inflight.find(r->dst));
    if (resp && r->raft) { in->resp_begin[r->dst]--; in->last_resp[r->dst] = now(); if (resp->get_type() != cs::msg_type::prevote_response) in->last_resp_sure[r->dst] = std::max(in->last_resp_sure[r->dst], t_begin); }
    r->h = nullptr;
}
static void complete(RpcP r, ptr<cs::resp_msg> resp, const char* err) {
    if (r->done) return;
    r->done = true; inflight.erase(r->id);
    Node& s = N(r->src);
    if (s.inc != r->srcinc || !s.up || !s.cur || s.cur->stopped) return;
    std::string why = err ? err : "";
    spawn(r->src, "resp", [r, resp, why]() mutable { deliver(r, resp, why, nullptr); });
}
// heard-from-majority bookkeeping of C14
static int heard(Inc& in, Time since, bool generous) {
    int k = 1; ConfImg c; parse_conf(in.n->d.config, c);
    for (auto& s : c.srv) if (s.first != in.n->id) {
        if (generous) { auto b = in.resp_begin.find(s.first); auto l = in.last_resp.find(s.first); if ((b != in.resp_begin.end() && b->second > 0) || (l != in.last_resp.end() && l->second >= since)) k++; }
        else { auto l = in.last_resp_sure.find(s.first); if (l != in.last_resp_sure.end() && l->second >= since) k++; }
    }
    return k;
}
static size_t conf_size(Inc& in) { ConfImg c; parse_conf(in.n->d.config, c); return c.srv.size(); }
static bool expired_leader(Inc& in, Time t) {
    Time lease = 2 * cfg("el_hi", 300) * MS + 2 * MS;
    if (t - in.started < lease) return false;
    return heard(in, t - lease, true) < (int)(conf_size(in) / 2 + 1);
}
static bool fresh_leader(Inc& in, Time t) {
    Time lease = 2 * cfg("el_hi", 300) * MS - 2 * MS;
    return in.leader && in.leader_term == in.n->d.term && heard(in, t - lease, false) >= (int)(conf_size(in) / 2 + 1);
}

// a request is handed to the server it was sent to
static ptr<cs::resp_msg> answer(Node& d, Inc* in, const Wire& w, int src, cs::req_msg& q, bool dup) {
    u64 term0; Time t0; bool expired0; u64 tseq0; int tr0;
    u64 seq0 = 0; bool solo = false;
    { Hold h; in->requests_running++; seq0 = ++in->req_begun; solo = in->requests_running == 1; if (src > 0) W->rx_raft++; term0 = d.d.term; t0 = now(); expired0 = expired_leader(*in, t0); tseq0 = in->timer_seq; tr0 = in->timers_running;
      trace("receive %s from %d term %llu last %llu/%llu commit %llu n=%zu%s", tname(w.type), src, (unsigned long long)w.term, (unsigned long long)w.lli, (unsigned long long)w.llt, (unsigned long long)w.ci, w.e.size(), dup ? " (duplicate)" : "");
      if (w.type == cs::msg_type::install_snapshot_request) trap(T_SNP_RX, d.id); else if (w.type == cs::msg_type::join_cluster_request) trap(T_JOIN_RX, d.id); else if (w.type == cs::msg_type::leave_cluster_request) trap(T_LEAVE_RX, d.id); else if (w.type == cs::msg_type::append_entries_request && !w.e.empty()) trap(T_APP_RX, d.id);
    }
    ptr<cs::resp_msg> resp; size_t own = 0; bool was_leader = false;
    {
        Enter en(d, K_REQ, w.type, w.term, src);
        try { resp = in->srv->process_req(q); }
        catch (std::exception& e) { violation("C07", "exception-request", std::string("exception leaves process_req for ") + tname(w.type) + ": " + e.what()); node_exit(d, "exception", true); }
        Hold h; if (Ctx* c = ctx()) { own = c->own_appends.size(); for (auto& a : c->own_appends) was_leader = in->led_terms.count(a.second) > 0; }
    }
    Hold h; in->requests_running--; 
    if (!resp) { trace("no response"); return resp; }
    if (in->ev_leader && resp->get_term() > in->ev_term) violation("C25", "deposed-unannounced", "server " + S(d.id) + " answers with term " + S(resp->get_term()) + " but has not announced that it is no longer leader of term " + S(in->ev_term));
    trace("answer %s to %d %s term %llu next %llu", tname(resp->get_type()), src, resp->get_accepted() ? "ACCEPT" : "decline", (unsigned long long)resp->get_term(), (unsigned long long)resp->get_next_idx());
    // C05
    if (resp->get_term() > d.max_saved_term) violation("C05", "term-not-saved", "server " + S(d.id) + " answers with term " + S(resp->get_term()) + " before saving it");
    if (resp->get_term() < term0) violation("C05", "term-reported-decreases", "server " + S(d.id) + " answers with term " + S(resp->get_term()) + " although it had saved term " + S(term0));
    if (resp->get_type() == cs::msg_type::vote_response && resp->get_accepted() && !d.votes[resp->get_term()].count(w.src))
        violation("C05", "vote-not-saved", "server " + S(d.id) + " grants its vote of term " + S(resp->get_term()) + " to " + S(w.src) + " without having saved it");
    if (resp->get_type() == cs::msg_type::vote_response && resp->get_accepted() && resp->get_term() != w.term)
        violation("C05", "vote-term", "server " + S(d.id) + " grants a vote in term " + S(resp->get_term()) + " to a candidate of term " + S(w.term));
    // C11
    if (w.type == cs::msg_type::prevote_request) {
        note("prevote.answered");
        if (resp->get_accepted() && cfg("defensive", 1)) {
            bool quiet = in->contact_timer_seq == in->timer_seq && !tr0 && tseq0 == in->timer_seq && !in->timers_running;
            if (quiet && in->last_leader_contact >= 0 && t0 > in->last_leader_contact && t0 - in->last_leader_contact < cfg("el_lo", 150) * MS)
                violation("C11", "defensive-grant", "server " + S(d.id) + " favours a pre-vote although it heard from its leader " + S((t0 - in->last_leader_contact) / MS) + " ms ago");
        }
    }
    if ((w.type == cs::msg_type::append_entries_request || w.type == cs::msg_type::sync_log_request || w.type == cs::msg_type::join_cluster_request) && resp->get_accepted() && solo && in->req_begun == seq0 && N(src).up && N(src).cur && N(src).cur->leader && N(src).cur->leader_term == w.term) {
        // a leader never rewrites its log, so what is confirmed to it can be compared with it now
        LogImg& a = d.d.log; LogImg& b = N(src).d.log; u64 top = resp->get_next_idx(), lo = std::max(a.start, b.start); if (top > lo + 64) lo = top - 64;
        for (u64 i = lo; i < top; ++i) { const Ent* x = a.get(i); const Ent* y = b.get(i);
            if (!x || !y || x->term != y->term || x->hash != y->hash) { violation("C02", "confirms-missing", "server " + S(d.id) + " confirms to leader " + S(src) + " of term " + S(w.term) + " that it holds the entries below " + S(top) + ", but " + (!x ? "has none at " : !y ? "the leader has none at " : "holds a different one at ") + S(i)); break; } }
    }
    if (w.type == cs::msg_type::append_entries_request && resp->get_accepted()) in->known = std::max(in->known, std::min(w.ci, w.lli + w.e.size()));
    if (w.type == cs::msg_type::append_entries_request && resp->get_accepted() && !in->leader) {
        if (!tr0 && !in->timers_running && tseq0 == in->timer_seq) { in->last_leader_contact = now(); in->contact_timer_seq = in->timer_seq; }
        else in->last_leader_contact = -1;
    }
    // C12, C14
    if (w.type == cs::msg_type::client_request && resp->get_accepted()) {
        if (own < w.e.size()) violation("C12", "accepted-not-appended", "server " + S(d.id) + " accepts a client request of " + S(w.e.size()) + " entries after appending " + S(own));
        else if (!was_leader) violation("C12", "accepted-by-non-leader", "server " + S(d.id) + " accepts a client request without being leader");
        if (cfg("c14") && expired0 && expired_leader(*in, now())) violation("C14", "accepts-expired", "server " + S(d.id) + " accepts client entries although it heard from no majority for more than twice the maximum election timeout");
    }
    return resp;
}
static void serve(RpcP r, bool dup) {
    // the request arrived at dst
    if (!up(r->dst)) { if (!dup) fail_later(r, "connection refused"); return; }
    if (!dup) r->stage = 1;
    Wire w = r->w; // copy
    spawn(r->dst, std::string("rx:") + tname(w.type), [r, w, dup] {
        Node& d = N(r->dst);
        while (d.paused_until > now()) sleep_until(d.paused_until);
        Inc* in = d.cur.get();
        if (in->stopped) { if (!dup) { Hold h; fail_later(r, "connection reset"); } return; }
        ptr<cs::req_msg> q; { Hold h; q = unwire(w); }
        ptr<cs::resp_msg> resp = answer(d, in, w, r->src, *q, dup);
        Hold h; q.reset();
        if (!resp) { if (!dup) fail_later(r, "connection closed"); return; }
        if (dup || r->done) return;
        r->stage = 2;
        ptr<cs::resp_msg> rp = resp;
        bool lose = W->faults_on && choose('Z', (u64)r->dst * 16 + r->src, W->respdrop_ppm + W->burst_ppm, 1);
        if (lose) { note("fault.respdrop"); trace("drop response %s %d->%d", tname(rp->get_type()), r->dst, r->src); fail_later(r, "connection lost"); return; }
        send_over(r->dst, r->src, false, r, false, [r, rp] { complete(r, rp, nullptr); });
    });
}

struct SimClient : public cs::rpc_client {
    int src; u32 inc; int dst;
    SimClient(int s, u32 i, int d) : src(s), inc(i), dst(d) {}
#ifdef SIM_FULL
    ptr<cs::rpc_client> real;
#endif
    void send(ptr<cs::req_msg>& req, cs::rpc_handler& when_done) override {
        stub_yield('x');
#ifdef SIM_FULL
        RpcP full;
#endif
        {
            Hold h;
            Node& n = N(src);
            if (!req) { violation("C07", "null-request", "a null request is sent"); return; }
            auto r = std::make_shared<Rpc>(); r->id = ++W->net_seq; r->src = src; r->srcinc = inc; r->dst = dst; r->h = when_done; r->req = req;
            Wire& w = r->w; w.term = req->get_term(); w.type = req->get_type(); w.src = req->get_src(); w.dst = req->get_dst(); w.llt = req->get_last_log_term(); w.lli = req->get_last_log_idx(); w.ci = req->get_commit_idx();
            for (auto& e : req->log_entries()) w.e.push_back({e->get_term(), (int)e->get_val_type(), buf_str(e->get_buf())});
            trace("send %s to %d term %llu last %llu/%llu commit %llu n=%zu", tname(w.type), dst, (unsigned long long)w.term, (unsigned long long)w.lli, (unsigned long long)w.llt, (unsigned long long)w.ci, w.e.size());
            note((std::string("msg.") + tname(w.type)).c_str());
            fold(mix((u64)w.type * 64 + dst, w.term * 1000 + w.lli));
            Inc* in = n.cur.get();
            bool raftmsg = w.type != cs::msg_type::client_request && w.type != cs::msg_type::add_server_request && w.type != cs::msg_type::remove_server_request;
            r->raft = raftmsg;
            if (W->calm && (w.type == cs::msg_type::vote_request || w.type == cs::msg_type::prevote_request)) violation("C24", "election", "server " + S(src) + " starts an election in term " + S(w.term) + " although the leader of term " + S(W->calm_term) + " and a majority run undisturbed for " + S((now() - W->calm_since) / MS) + " ms");
            if (raftmsg) {
                if (w.term > n.max_saved_term) violation("C05", "term-not-saved", "server " + S(src) + " sends term " + S(w.term) + " before saving it");
                if (w.type == cs::msg_type::vote_request && !n.votes[w.term].count(src)) violation("C05", "own-vote-not-saved", "server " + S(src) + " asks for votes in term " + S(w.term) + " before saving its own vote");
            }
            if (w.type == cs::msg_type::append_entries_request || w.type == cs::msg_type::install_snapshot_request || w.type == cs::msg_type::sync_log_request || w.type == cs::msg_type::join_cluster_request || w.type == cs::msg_type::leave_cluster_request)
                claim_leader(src, w.term, tname(w.type));
            if (w.type == cs::msg_type::append_entries_request) {
                // the request must describe the sender's own log, and must not claim uncommitted entries as committed (C04)
                u64 i = w.lli + 1;
                for (auto& e : w.e) {
                    auto it = W->log_content.find({i, e.term});
                    if (it != W->log_content.end() && it->second != ent_hash(e.term, e.type, e.bytes)) { violation("C04", "wire-content", "server " + S(src) + " sends for index " + S(i) + " of term " + S(e.term) + " something else than a log held there"); break; }
                    if (it == W->log_content.end()) { violation("C04", "wire-unknown", "server " + S(src) + " sends for index " + S(i) + " an entry of term " + S(e.term) + " that no log ever held there"); break; }
                    ++i;
                }
                if (w.lli) { auto it = W->log_content.find({w.lli, w.llt}); if (it == W->log_content.end()) violation("C04", "wire-prev", "server " + S(src) + " sends entries after index " + S(w.lli) + " of term " + S(w.llt) + ", which no log ever held"); }
            }
            if (w.type == cs::msg_type::prevote_request && in) {
                if (in->prevote_sent.count(dst)) { in->new_round(); note("prevote.round"); }
                in->prevote_sent.insert(dst);
            }
#ifndef SIM_FULL
            inflight[r->id] = r;
            send_over(src, dst, !raftmsg, r, true, [r] { serve(r, false); });
            if (W->faults_on && (w.type == cs::msg_type::vote_request || w.type == cs::msg_type::prevote_request || w.type == cs::msg_type::append_entries_request || w.type == cs::msg_type::install_snapshot_request) && choose('U', (u64)src * 16 + dst, W->dup_ppm, 1)) {
                note("fault.dup");
                Time t = now() + latency(src, dst) + ((Time)pick('u', (u64)src * 16 + dst, 10) * pick('v', (u64)src * 16 + dst, 60)) * MS;
                int s = src, dd = dst;
                at(t, [r, s, dd] { if (!W->blocked[s][dd]) serve(r, true); });
            }
#else
            full = r;
            if (W->faults_on && choose('X', (u64)src * 16 + dst, W->drop_ppm + W->burst_ppm + W->respdrop_ppm, 1)) { int a = src, b = dst; at(now() + (Time)pick('w', (u64)src * 16 + dst, 30) * 100 * US, [a, b] { simnet::reset_between(a, b); }); }
#endif
        }
#ifdef SIM_FULL
        RpcP r = full; cs::rpc_handler wrapped = [r](ptr<cs::resp_msg>& resp, const ptr<cs::rpc_exception>& e) {
            { Hold h; if (r->done) { violation("C07", "completed-twice", "a request completes twice"); return; } r->done = true; if (r->raft && resp && (resp->get_src() != r->dst && r->raft)) trace("response from %d to a request to %d", resp->get_src(), r->dst); }
            deliver(r, resp, e ? e->what() : "", e); };
        real->send(req, wrapped);
#endif
        stub_yield('X');
    }
};
struct SimFactory : public cs::rpc_client_factory {
    Node* n; u32 inc; SimFactory(Node* nd, u32 i) : n(nd), inc(i) {}
#ifdef SIM_FULL
    ptr<cs::rpc_client> create_client(const std::string& ep) override { stub_yield('x'); int d = atoi(ep.c_str() + 3); ptr<SimClient> c = cs::cs_new<SimClient>(n->id, inc, d); c->real = n->cur->svc->create_client("tcp://host:" + S(9000 + d)); return c; }
#else
    ptr<cs::rpc_client> create_client(const std::string& ep) override { stub_yield('x'); Hold h; return cs::cs_new<SimClient>(n->id, inc, atoi(ep.c_str() + 3)); }
#endif
};
#ifdef SIM_FULL
// what the listener's sessions call instead of raft_server::process_req (see full.cxx)
ptr<cs::resp_msg> observe(cs::raft_server* srv, cs::req_msg& req) {
    Node& d = N(cur_node()); while (d.paused_until > now()) sleep_until(d.paused_until);
    std::shared_ptr<Inc> in = d.cur; if (in->stopped) return nullptr;
    Wire w; { Hold h; w.term = req.get_term(); w.type = req.get_type(); w.src = req.get_src(); w.dst = req.get_dst(); w.llt = req.get_last_log_term(); w.lli = req.get_last_log_idx(); w.ci = req.get_commit_idx(); for (auto& e : req.log_entries()) w.e.push_back({e->get_term(), (int)e->get_val_type(), buf_str(e->get_buf())}); }
    return answer(d, in.get(), w, w.src, req, false);
}
static int link_of(int a, int b) { if (a < 0 || b < 0 || a > 15 || b > 15 || a == b || !W->blocked[a][b]) return 0; return W->blockmode[a][b] ? 1 : 2; }
#endif

// ------------------------------------------------------------------ node life cycle
static void net_node_down(int id) {
    std::vector<RpcP> v; for (auto& p : inflight) if (p.second->dst == id && p.second->stage == 1) v.push_back(p.second);
    for (auto& r : v) fail_later(r, "connection reset");
    std::vector<u64> gone; for (auto& p : inflight) if (p.second->src == id) gone.push_back(p.first);
    for (u64 g : gone) { inflight[g]->done = true; inflight.erase(g); }
}
static std::vector<std::shared_ptr<Inc>> graveyard;
static void crash_node(int id, const char* why) {
    Hold h; Node& n = N(id); if (!n.up) return;
    trace("CRASH node %d (%s)", id, why);
    n.up = false; if (n.cur) graveyard.push_back(n.cur);
    for (auto it = fctx.begin(); it != fctx.end();) { if (it->second.node == id) it = fctx.erase(it); else ++it; }
    net_node_down(id);
    state_seen(abstract_state());
    if (cfg("fslog")) simfs::close_all(id);
#ifdef SIM_FULL
    simnet::close_all(id);
#endif
    kill_node(id);    // does not return when called from a fiber of the node
}
static void node_exit(Node& n, const std::string& why, bool legit) {
    Hold h;
    if (!legit) { violation("C07", "exit", "server " + S(n.id) + ": " + why); n.exited_bad++; }
    else { trace("node %d exits legitimately: %s", n.id, why.c_str()); note("exit.legit"); if (why != "exception") n.exited = true; }
    crash_node(n.id, "exit");
}
static void on_term(const char* why) { int n = cur_node(); if (n < 0) { harness_error(std::string("terminated: ") + why); return; } violation("C07", "terminate", std::string("server ") + S(n) + ": " + why); N(n).exited_bad++; crash_node(n, "terminate"); }

static void start_node(int id) {
    Hold h; Node& n = N(id); if (n.up || n.exited || n.retired) return;
    revive_node(id); n.inc++; n.up = true; n.ever = true; n.paused_until = 0;
    auto in = std::make_shared<Inc>(); in->n = &n; in->inc = n.inc; n.cur = in; in->started = now();
    for (u64 i = n.d.log.start; i < n.d.log.next(); ++i) { in->log_at_start.insert(i); if (Ent* e = const_cast<Ent*>(n.d.log.get(i))) e->live = nullptr; }
    trace("START node %d inc %u term %llu vote %d log %llu..%llu applied %llu", id, n.inc, (unsigned long long)n.d.term, n.d.vote, (unsigned long long)n.d.log.start, (unsigned long long)n.d.log.next(), (unsigned long long)n.d.applied);
    spawn(id, "main", [&n, in] {
        Enter en(n, K_CTOR, 0, 0, -1);
        { Hold h;
          in->sm = cs::cs_new<SimSM>(&n, n.inc); in->mgr = cs::cs_new<SimMgr>(&n, n.inc); in->sched = cs::cs_new<SimSched>(&n, n.inc);
          in->fac = cs::cs_new<SimFactory>(&n, n.inc); in->ev = cs::cs_new<SimEvents>(&n, n.inc); in->log = cs::cs_new<SimLog>(&n, n.inc);
          in->sm_pos = n.d.applied; }
#ifdef SIM_FULL
        in->svc = new cs::asio_service();
#endif
        open_log(n, *in);
        ConfImg c; { Hold h; parse_conf(n.d.config, c); }
        cs::raft_params* p = new cs::raft_params();
        p->with_election_timeout_lower((int)cfg("el_lo", 150)).with_election_timeout_upper((int)cfg("el_hi", 300))
            .with_hb_interval((int)cfg("hb", 50)).with_rpc_failure_backoff((int)cfg("backoff", 25)).with_max_append_size((int)cfg("max_append", 100))
            .with_log_sync_batch_size((int)cfg("sync_batch", 1000)).with_log_sync_stopping_gap((int)cfg("sync_gap", 10)).with_snapshot_enabled((int)cfg("snap_dist", 0))
            .with_snapshot_sync_block_size((int)cfg("snap_block", 0)).with_reserved_log_items((int)cfg("reserved", 10000)).with_prevote_enabled(cfg("prevote") != 0).with_defensive_prevote(cfg("defensive", 1) != 0);
        ptr<cs::rpc_listener> nil; ptr<cs::logger> lg; { Hold h; lg = cs::cs_new<SimLogger>(&n); }
        cs::context* cx = new cs::context(in->mgr, in->sm, nil, lg, in->fac, in->sched, in->ev, p);
        try { in->srv = cs::cs_new<cs::raft_server>(cx); }
        catch (std::exception& e) { violation("C07", "exception-start", std::string("server fails to start: ") + e.what()); node_exit(n, "exception", true); }
#ifdef SIM_FULL
        { ptr<cs::logger> ll; { Hold h; ll = cs::cs_new<SimLogger>(&n); } in->lis = in->svc->create_rpc_listener((unsigned short)(9000 + n.id), ll); in->lis->listen(in->srv); }
#endif
        Hold h; in->constructed = true; trace("node %d started", n.id);
    });
}

// ------------------------------------------------------------------ plan execution
static int leader_id() { int best = -1; u64 bt = 0; for (auto& p : W->nodes) if (up(p.first) && p.second.cur->leader && p.second.cur->leader_term >= bt) { best = p.first; bt = p.second.cur->leader_term; } return best; }
static std::vector<int> live_members() {
    // members of the newest committed membership
    std::vector<int> v; ConfImg c;
    if (!W->conf_at.empty()) { parse_conf(W->conf_at.rbegin()->second, c); for (auto& s : c.srv) v.push_back(s.first); }
    else v = W->members0;
    return v;
}
// symbolic targets: -1 leader, -2/-3/-4 the first/second/third other member, 1.. a server
static int target(i64 t) {
    if (t > 0) return (int)t;
    int l = leader_id(); std::vector<int> m = live_members();
    if (l < 0) { l = m.empty() ? 1 : m[0]; for (int x : m) if (up(x)) { l = x; break; } }
    if (t == -1) return l;
    int k = (int)(-t - 2); for (int x : m) if (x != l) { if (k-- == 0) return x; }
    return l;
}
static void set_link(int a, int b, bool blk, int mode) { W->blocked[a][b] = blk; W->blockmode[a][b] = mode; }
static void release_held() {
    std::vector<Held> keep, go;
    for (auto& x : held_msgs) if (W->blocked[x.from][x.to]) keep.push_back(x); else go.push_back(x);
    held_msgs.swap(keep);
#ifdef SIM_FULL
    simnet::links_changed();
#endif
    for (auto& x : go) { auto f = x.go; at(now() + 100 * US + pick('y', 999, 40) * 100 * US, f); }
}
static void submit(int id, int count, int size, bool repl) {
    if (!up(id)) return;
    std::vector<u64> ids; std::vector<std::string> pl;
    { Hold h;
      for (int i = 0; i < count; ++i) {
        Submission s; s.id = W->next_sub++; s.node = id; s.inc = N(id).inc; s.at = now(); s.by_replicate = repl; s.async = !repl;
        std::string b((const char*)&s.id, 8); Rng r(s.id * 77 + 5); for (int k = 0; k < size; ++k) b.push_back((char)r.below(256));
        s.pay = hash_bytes(b.data(), b.size()); W->subs[s.id] = s; ids.push_back(s.id); pl.push_back(b);
      }
      note(repl ? "op.replicate" : "op.submit", (u64)count); }
    spawn(id, repl ? "repl" : "cli", [id, ids, pl, repl] {
        Node& n = N(id); while (n.paused_until > now()) sleep_until(n.paused_until);
        Inc* in = n.cur.get(); if (in->stopped) return;
        { Hold h; in->requests_running++; }
        {
            Enter en(n, K_API, 0, 0, -1);
            if (repl) {
                for (size_t i = 0; i < ids.size(); ++i) {
                    cs::bufptr b = str_buf(pl[i]); ptr<void> ck = std::make_shared<int>((int)ids[i]);
                    Time t0 = now(); bool exp0; { Hold h; exp0 = cfg("c14") && expired_leader(*in, t0); }
                    bool ok = in->srv->replicate_log(b, ck, (uint)(ids[i] & 0xffff));
                    Hold h; Submission& s = W->subs[ids[i]]; s.returned = true; s.accepted = ok;
                    trace("replicate_log %llu -> %d", (unsigned long long)ids[i], ok);
                    if (ok && !s.appended) violation("C12", "replicate-result", "replicate_log reports success for an entry that it did not put in the log");
                    if (!ok && s.appended) violation("C12", "replicate-result", "replicate_log reports failure for an entry that it put in the log");
                    if (ok && s.appended && !in->led_terms.count(s.app_term)) violation("C12", "accepted-by-non-leader", "replicate_log accepts an entry on server " + S(id) + " which is not leader");
                    if (ok && exp0 && expired_leader(*in, now())) violation("C14", "accepts-expired", "server " + S(id) + " accepts an entry although it heard from no majority for more than twice the maximum election timeout");
                }
            } else {
                std::vector<cs::bufptr> v; for (auto& p : pl) v.push_back(str_buf(p));
                Time t0 = now(); bool exp0; { Hold h; exp0 = cfg("c14") && expired_leader(*in, t0); }
                ptr<cs::async_result<bool>> res;
                try { res = in->srv->append_entries(v); }
                catch (std::exception& e) { violation("C07", "exception-api", std::string("append_entries throws ") + e.what()); node_exit(n, "exception", true); }
                bool local; { Hold h; Ctx* c = ctx(); local = c && !c->own_appends.empty(); }
                std::vector<u64> idc = ids;
                cs::async_result<bool>::handler_type hd = [idc, local, exp0, in, id](bool& ok, const ptr<std::exception>& e) {
                    Hold h; trace("submission %llu completes: %d %s", (unsigned long long)idc[0], ok, e ? "error" : "");
                    for (u64 i : idc) { Submission& s = W->subs[i]; s.completions++; s.accepted = ok && !e; s.err = (bool)e;
                        if (s.completions > 1) violation("C12", "answered-twice", "submission " + S(i) + " is answered " + S(s.completions) + " times");
                        if (s.fwd == 1 && !s.accepted) violation("C12", "answer-differs", "the leader accepted submission " + S(i) + " and its answer arrived at server " + S(id) + ", but the submission is reported as failed");
                        if (s.fwd == 2 && s.err) violation("C12", "answer-differs", "the answer to submission " + S(i) + " arrived at server " + S(id) + ", but the submission is reported as an error");
                        if (s.fwd == 3 && !s.err) violation("C12", "answer-differs", "forwarding submission " + S(i) + " from server " + S(id) + " to the leader failed, but the submission is reported without an error");
                        if (local && !s.accepted) violation("C12", "answer-differs", "server " + S(id) + " put submission " + S(i) + " in its log as leader but reports it as not accepted");
                        if (s.accepted && !s.appended) violation("C12", "accepted-not-appended", "submission " + S(i) + " is reported accepted but no server put it in its log");
                        if (s.accepted && local && exp0 && expired_leader(*in, now())) violation("C14", "accepts-expired", "server " + S(id) + " accepts client entries although it heard from no majority for more than twice the maximum election timeout");
                    }
                };
                res->when_ready(hd);
                Hold h; for (u64 i : ids) W->subs[i].returned = true;
            }
        }
        Hold h; in->requests_running--;
    });
}
// what became of a request: 0 none yet, 1 accepted, 2 refused, 3 failed
static void membership(int via, bool add, int id, std::shared_ptr<int> out = nullptr) {
    if (!up(via)) return;
    { Hold h; note(add ? "op.add" : "op.remove"); if (!add && W->nodes.count(id)) N(id).removed_req = true; }
    spawn(via, add ? "add" : "rm", [via, add, id, out] {
        Node& n = N(via); while (n.paused_until > now()) sleep_until(n.paused_until);
        Inc* in = n.cur.get(); if (in->stopped) return;
        { Hold h; in->requests_running++; }
        { Enter en(n, K_API, 0, 0, -1);
          try {
            ptr<cs::async_result<bool>> r;
            if (add) { cs::srv_config sc(id, "sim" + S(id)); r = in->srv->add_srv(sc); } else r = in->srv->remove_srv(id);
            cs::async_result<bool>::handler_type hd = [via, add, id, out](bool& ok, const ptr<std::exception>& e) { Hold h; if (out) *out = e ? 3 : ok ? 1 : 2; trace("%s %d via %d -> %d %s", add ? "add" : "remove", id, via, ok, e ? "error" : ""); if (ok && !e) note(add ? "op.add.accepted" : "op.remove.accepted"); };
            r->when_ready(hd);
          } catch (std::exception& e) { violation("C07", "exception-api", std::string("membership request throws ") + e.what()); node_exit(n, "exception", true); } }
        Hold h; in->requests_running--;
    });
}
static void sample_leaders() {
    for (auto& p : W->nodes) if (up(p.first)) {
        int id = p.first;
        spawn(id, "probe", [id] {
            Node& n = N(id); while (n.paused_until > now()) sleep_until(n.paused_until);
            Inc* in = n.cur.get(); if (in->stopped) return;
            bool e0, f0; u64 t0; { Hold h; e0 = expired_leader(*in, now()); f0 = fresh_leader(*in, now()); t0 = n.d.term; in->requests_running++; }
            bool r = in->srv->is_leader();
            Hold h; in->requests_running--; note("probe.is_leader");
            if (r && e0 && expired_leader(*in, now())) violation("C14", "claims-expired", "server " + S(id) + " reports itself leader although it heard from no majority for more than twice the maximum election timeout");
            if (!r && f0 && fresh_leader(*in, now()) && t0 == n.d.term) violation("C14", "denies-fresh", "server " + S(id) + " leads term " + S(n.d.term) + " and hears from a majority but does not report itself leader");
        });
    }
}
static void heal_all() { for (int i = 0; i < 16; ++i) for (int j = 0; j < 16; ++j) set_link(i, j, false, 0); release_held(); }

static void graceful_stop(int id) {
    Node& n = N(id); if (!up(id)) return;
    // no new requests, responses or timers reach the server; wait until none is executing (the commit thread keeps going)
    std::shared_ptr<Inc> in = n.cur;
    { Hold h; in->stopped = true; trace("STOP node %d", id); note("op.stop"); net_node_down(id); }
    bool idle = wait_until([&] { return !up(id) ? (n.cur == in && n.up && !in->requests_running && !in->timers_running && !in->handlers_running) : false; }, now() + 20 * SEC, (Time)cfg("stop_poll", 1000) * US);
    if (!idle || n.cur != in || !n.up) return;
    bool done = false; 
    int f = spawn(id, "stop", [in, &done] {
#ifdef SIM_FULL
        in->lis->stop(); in->svc->stop(); in->lis.reset();
#endif
        in->srv.reset(); done = true; });
    (void)f;
    if (!wait_until([&] { return done || !n.up; }, now() + 5 * SEC, 1 * MS) && n.up) violation("C21", "destroy-hangs", "destroying server " + S(id) + " does not return");
    else note("op.stopped");
    if (n.up && n.cur == in) crash_node(id, "stopped");
}

// the process of a server that is to be added is started, also when that server left the cluster before
static bool in_conf(int id);
static void rejoin(int id) {
    Node& n = N(id);
    if (n.exited) { if (in_conf(id)) { if (!cfg("restart_left")) return; /* gave up waiting, but has not been removed */ note("op.restart_left"); } note("op.rejoin"); n.exited = false; }
    n.retired = false; start_node(id);
}


static void exec(const Step& s) {
    auto A = [&](size_t i, i64 d = 0) { return i < s.a.size() ? s.a[i] : d; };
    Hold h;
    trace("PLAN %s %lld %lld %lld %lld", s.op.c_str(), (long long)A(0), (long long)A(1), (long long)A(2), (long long)A(3));
    fold(hash_bytes(s.op.data(), s.op.size()));
    if (s.op == "submit") submit(target(A(0)), (int)A(1, 1), (int)A(2, 8), false);
    else if (s.op == "repl") submit(target(A(0)), (int)A(1, 1), (int)A(2, 8), true);
    else if (s.op == "iso") { // isolate a server: mode, direction(0 both,1 out,2 in), duration ms
        int t = target(A(0)); note("fault.partition");
        for (auto& p : W->nodes) if (p.first != t) { if (A(2) != 2) set_link(t, p.first, true, (int)A(1)); if (A(2) != 1) set_link(p.first, t, true, (int)A(1)); }
        at(now() + A(3, 500) * MS, [t] { trace("heal node %d", t); for (auto& p : W->nodes) { set_link(t, p.first, false, 0); set_link(p.first, t, false, 0); } release_held(); });
    } else if (s.op == "link") {
        int a = target(A(0)), b = target(A(1)); if (a == b) return; note("fault.linkdown"); set_link(a, b, true, (int)A(2));
        if (A(4)) set_link(b, a, true, (int)A(2));
        at(now() + A(3, 500) * MS, [a, b] { set_link(a, b, false, 0); set_link(b, a, false, 0); release_held(); });
    } else if (s.op == "part") { // group mask
        note("fault.partition"); i64 m = A(0);
        for (auto& p : W->nodes) for (auto& q : W->nodes) if (((m >> p.first) & 1) != ((m >> q.first) & 1)) set_link(p.first, q.first, true, (int)A(1));
        at(now() + A(2, 500) * MS, [m] { for (auto& p : W->nodes) for (auto& q : W->nodes) if (((m >> p.first) & 1) != ((m >> q.first) & 1)) set_link(p.first, q.first, false, 0); release_held(); });
    } else if (s.op == "crash") { // after A(1) yield points, restart after A(2) ms
        int t = target(A(0)); if (!N(t).up) return; i64 back = A(2, 300);
        u32 myinc = N(t).inc;
        auto doit = [t, back, myinc] { if (!N(t).up || N(t).inc != myinc) return; note("fault.crash"); crash_node(t, "injected"); if (back >= 0) at(now() + back * MS, [t] { start_node(t); }); };
        if (A(1) > 0) { arm_kill(t, (u64)A(1), doit); at(now() + 200 * MS, doit); } else doit();
    } else if (s.op == "restart") start_node(target(A(0)));
    else if (s.op == "pause") { int t = target(A(0)); note("fault.pause"); N(t).paused_until = now() + A(1, 200) * MS; }
    else if (s.op == "skew") { int t = target(A(0)); note("fault.clock_jump"); set_node_skew(t, A(1) * MS); }
    else if (s.op == "burst") { note("fault.burst"); W->burst_ppm = (u32)A(0); at(now() + A(1, 300) * MS, [] { W->burst_ppm = 0; }); }
    else if (s.op == "add") { int id = (int)A(1); if (!W->nodes.count(id)) return; if (!N(id).ever || N(id).exited) rejoin(id); if (N(id).exited) return; W->want_in.insert(id); W->want_out.erase(id); int via = target(A(0)); at(now() + 20 * MS, [via, id] { membership(via, true, id); }); }
    else if (s.op == "rm") { int via = target(A(0)), id = target(A(1)); if (via == id && A(1) < 0) return; if (W->want_out.count(id) || (int)W->want_out.size() + 1 >= (int)W->members0.size()) return; W->want_out.insert(id); W->want_in.erase(id); membership(via, false, id); }
    else if (s.op == "trap") W->traps.push_back({(int)A(0), A(1), std::vector<i64>(s.a.begin() + 2, s.a.end())});   // event, occurrences to skip, action...
    else if (s.op == "stop") { int t = target(A(0)); i64 back = A(1, 200); if (!up(t)) return; spawn(-1, "stopper", [t, back] { graceful_stop(t); at(now() + back * MS, [t] { start_node(t); }); }); }
}

static void trap_act(const std::vector<i64>& a, int node) { // action, delay us, x, y
    auto A = [&](size_t i, i64 d = 0) { return i < a.size() ? a[i] : d; };
    Step s; s.t = 0; int l = leader_id();
    switch (A(0)) {
    case 0: s.op = "crash"; s.a = {node, A(2), A(3)}; break;
    case 1: s.op = "crash"; s.a = {-1, A(2), A(3)}; break;
    case 2: s.op = "iso"; s.a = {node, A(2) % 2, 0, A(3)}; break;
    case 3: s.op = "iso"; s.a = {-1, A(2) % 2, 0, A(3)}; break;
    case 4: if (l < 0) return; s.op = "part"; s.a = {(1ll << l) | (1ll << node), A(2) % 2, A(3)}; break;   // the leader and that server among themselves
    case 5: s.op = "submit"; s.a = {-1, 1 + A(2) % 4, 8}; break;
    case 6: s.op = "add"; s.a = {node, A(2)}; break;
    case 7: s.op = "rm"; s.a = {node, A(2)}; break;
    case 8: s.op = "pause"; s.a = {node, A(3)}; break;
    case 9: s.op = "link"; s.a = {-1, node, A(2) % 2, A(3), 1}; break;
    case 10: // what the leader has reaches nobody but that server, then the leader goes
        if (l < 0 || l == node) return;
        { Hold h; note("fault.linkdown"); for (auto& p : W->nodes) if (p.first != l && p.first != node) { set_link(l, p.first, true, 0); int b = p.first; at(now() + (A(3) + 20) * MS, [l, b] { set_link(l, b, false, 0); release_held(); }); } }
        at(now() + A(2) * MS, [l] { if (W->faults_on && N(l).up) { Hold h; note("fault.crash"); crash_node(l, "trap"); at(now() + 900 * MS, [l] { start_node(l); }); } }); return;
    default: return;
    }
    exec(s);
}
static std::string fail_state() {
    std::string s;
    for (auto& p : W->nodes) { Node& n = p.second; s += " [" + S(p.first) + (n.up ? " up" : n.exited ? " exited" : " down") + " term " + S(n.d.term) + (n.cur && n.cur->leader && n.up ? " LEADER" : "") + " log " + S(n.d.log.start) + ".." + S(n.d.log.next() - 1) + " applied " + S(n.cur ? n.cur->sm_pos : 0) + "]"; }
    return s;
}
static bool in_conf(int id) { for (int x : live_members()) if (x == id) return true; return false; }
static bool quorum_possible() { std::vector<int> m = live_members(); size_t k = 0; for (int x : m) if (!N(x).exited) k++; return k >= m.size() / 2 + 1; }

// known finding: the log of a member that does not know its own addition as committed is newer than that of the other
// running members; it does not stand for election, and they cannot win one
static bool newest_is_silent() {
    auto last = [](Node& n) { u64 i = n.d.log.next() - 1; const Ent* e = n.d.log.get(i); return std::make_pair(e ? e->term : n.d.last_snap && n.d.snaps.count(n.d.last_snap) ? n.d.snaps[n.d.last_snap]->term : 0, i); };
    std::pair<u64, u64> loud(0, 0), silent(0, 0);
    for (int x : live_members()) if (up(x)) { Node& n = N(x); ConfImg c; if (n.cur->leader) return false; bool in = parse_conf(n.d.config, c) && c.srv.count(x); auto l = last(n); (in ? loud : silent) = std::max(in ? loud : silent, l); }
    return silent > loud;
}
// known finding: a server that was told to leave gave up waiting and left on its own; the running members are a majority of the
// committed membership, but those that do not know it as committed still count with the one before, of which they are none
static bool left_behind() {
    for (int x : live_members()) if (up(x)) { ConfImg c; if (!parse_conf(N(x).d.config, c)) continue; size_t k = 0; bool self = false; for (auto& s : c.srv) { Node& o = N(s.first); k += up(s.first); self = self || (o.exited && o.self_removed); } if (self && k < c.srv.size() / 2 + 1) return true; }
    return false;
}
static void tag_stuck() { if (newest_is_silent()) known_finding("silent-joiner"); else if (left_behind()) known_finding("self-removal"); }
static bool settle(Time deadline) {
    // probe entries until one is applied by every running member
    u64 first = W->next_sub; Time next = 0; size_t rr = 0;
    auto good = [&]() -> bool {
        u64 idx = 0;
        for (auto it = W->subs.lower_bound(first); it != W->subs.end(); ++it) { auto c = W->commit_index_of_payload.find(it->first); if (c != W->commit_index_of_payload.end()) { idx = c->second; break; } }
        if (!idx) return false;
        u64 top = W->committed.rbegin()->first;
        for (int x : live_members()) { Node& n = N(x); if (n.exited) continue; if (!n.up || !n.cur || n.cur->sm_pos < std::max(idx, top)) return false; }
        return true;
    };
    while (now() < deadline) {
        if (violated()) return false;
        { Hold h; if (good()) return true; }
        { Hold h;
          for (auto& p : W->nodes) {
              Node& n = p.second;
              if (!n.ever) continue;
              // operators stop servers that are no longer members and restart members that crashed
              if (n.up && !in_conf(p.first) && !W->want_in.count(p.first) && !(n.joiner && !W->seen_member.count(p.first))) { crash_node(p.first, "no longer a member"); n.retired = true; continue; }
              if (n.retired && in_conf(p.first)) n.retired = false; // an addition that had been accepted before took effect
              if (!n.up && !n.exited && !n.retired) start_node(p.first);
              if (in_conf(p.first)) W->seen_member.insert(p.first);
          }
          if (now() >= next) {
              next = now() + 250 * MS;
              int l = leader_id(); std::vector<int> m = live_members();
              int via = (rr % 3 == 2 || l < 0) ? (m.empty() ? 1 : m[rr % m.size()]) : l; rr++;
              submit(via, 1, 8, false);
          } }
        sleep_until(now() + 20 * MS);
    }
    return good();
}

// C10: in a healthy cluster an accepted request takes effect without being made again, whatever requests that have to be
// refused (adding a member, removing a stranger) and submissions come in meanwhile
static void strict_membership() {
    int rounds = 1 + (int)pick('k', 20, 3);
    for (int i = 0; i < rounds && !violated(); ++i) {
        { Hold h; for (auto& p : W->nodes) if (p.second.up && !in_conf(p.first)) { crash_node(p.first, "not a member"); p.second.retired = true; } }
        sleep_until(now() + 1 * SEC);
        if (!settle(now() + cfg("settle_ms", 20000) * MS)) return;
        std::vector<int> m, out; int l; { Hold h; m = live_members(); l = leader_id(); for (auto& p : W->nodes) if (!in_conf(p.first)) out.push_back(p.first); }
        if (l < 0) return;
        for (int x : m) if (!up(x)) return;
        bool add = !out.empty() && (m.size() <= 1 || pick('k', 21, 3) > 0);
        if (!add && m.size() < 2) return;
        int id; if (add) id = out[pick('k', 22, out.size())]; else { m.erase(std::find(m.begin(), m.end(), l)); id = m[pick('k', 23, m.size())]; }
        if (add) { W->want_in.insert(id); W->want_out.erase(id); rejoin(id); sleep_until(now() + 20 * MS); } else { W->want_out.insert(id); W->want_in.erase(id); }
        // a follower that is down can be removed as well
        bool dead = !add && live_members().size() >= 3 && pick('k', 29, 3) == 0;
        if (dead) { { Hold h; note("strict.remove_dead"); crash_node(id, "strict: to be removed"); N(id).retired = true; } sleep_until(now() + (Time)pick('k', 30, 400) * MS); }
        if (!up(l) || leader_id() != l) continue;
        u64 t0 = N(l).d.term; auto res = std::make_shared<int>(0); Time lim = now() + 20 * SEC; Time start = now();
        { Hold h; note("strict.request"); if (!add) N(id).removed_req = true; membership(l, add, id, res); }
        int noise = (int)pick('k', 24, 4); std::vector<std::shared_ptr<int>> ref;
        auto done = [&] { return add ? in_conf(id) && up(id) && N(id).cur->sm_pos >= W->committed.rbegin()->first : !in_conf(id); };
        auto calm = [&] { return up(l) && leader_id() == l && N(l).d.term == t0; };
        Time next = start + (Time)pick('k', 25, 200) * 100 * US;
        while (now() < lim && calm() && !done() && *res < 2 && !violated()) {
            if (now() >= next && noise > 0) {
                Hold h; noise--; next = now() + (Time)pick('k', 26, 200) * 100 * US; std::vector<int> mm = live_members();
                int k = (int)pick('k', 27, 4);
                if (k == 0) submit(l, 1, 8, false);
                else { auto r = std::make_shared<int>(0); ref.push_back(r); note("strict.refused"); int x = k == 1 ? l : mm[pick('k', 28, mm.size())]; if (k == 3) membership(l, false, 99, r); else if (x != id) membership(l, true, x, r); }
            }
            sleep_until(now() + 500 * US);
        }
        Hold h; if (violated()) return;
        if (!calm()) { note("strict.disturbed"); continue; }
        if (done()) note(add ? "strict.added" : "strict.removed");
        else if (*res == 1) violation("C10", "accepted-dropped", "the request to " + std::string(add ? "add" : "remove") + " server " + S(id) + " was accepted by the leader of a healthy cluster but does not take effect within 20 s:" + fail_state());
        else if (*res == 0) violation("C10", "unanswered", "the request to " + std::string(add ? "add" : "remove") + " server " + S(id) + " is not answered by the leader of a healthy cluster within 20 s:" + fail_state());
        else violation("C10", "refused", "the request to " + std::string(add ? "add" : "remove") + " server " + S(id) + " is refused by the leader of a healthy cluster:" + fail_state());
        for (auto& r : ref) if (*r == 1) violation("C10", "accepted-invalid", "a request to add a member or to remove a server that is not a member is accepted");
    }
    if (!violated() && quorum_possible() && !settle(now() + cfg("settle_ms", 20000) * MS) && !violated()) { Hold h; tag_stuck(); violation("C10", "no-progress-after-change", "the cluster does not make progress after membership changes:" + fail_state()); }
}
// C24: an established leader and a majority run undisturbed
static void calm_phase() {
    Time el = cfg("el_hi", 300) * MS, hb = cfg("hb", 50) * MS, bound = 25 * MS;
#ifdef SIM_FULL
    sleep_until(now() + 5 * SEC);   // connection attempts from before have ended
#endif
    sleep_until(now() + 5 * el);
    if (violated()) return;
    std::vector<int> m; int l; { Hold h; m = live_members(); l = leader_id(); }
    if (l < 0) { violation("C24", "no-leader", "no server leads a cluster that applied entries on all members"); return; }
    for (int x : m) if (!up(x)) return;
    { Hold h; for (auto& p : W->nodes) if (p.second.up && std::find(m.begin(), m.end(), p.first) == m.end()) { crash_node(p.first, "not a member"); p.second.retired = true; } }
    { Hold h; trace("CALM leader %d", l); note("calm.window"); W->calm = true; W->calm_since = now(); W->calm_term = N(l).d.term; }
    int rounds = 4 + (int)pick('k', 1, 8), down = -1;
    for (int i = 0; i < rounds && !violated(); ++i) {
        int k = (int)pick('k', 2, 8);
        if (k == 0) {
            sleep_until(now() + 2 * hb); u64 c0; Time t0 = now(); { Hold h; c0 = W->rx_raft; }
            sleep_until(now() + el * (Time)(1 + pick('k', 3, 6)));
            Hold h; u64 c = W->rx_raft - c0, most = (u64)((now() - t0) / hb + 3) * (m.size() - 1);
            if (c > most && !violated()) { violation("C24", "not-quiet", S(c) + " requests were received in " + S((now() - t0) / MS) + " ms although nothing is to be done and the heartbeat interval is " + S(hb / MS) + " ms"); break; }
        }
        else if (k == 1 && down < 0 && m.size() >= 3) { Hold h; do down = m[pick('k', 4, m.size())]; while (down == l); note("calm.member_down"); crash_node(down, "calm"); }
        else if (k == 2 && down > 0 && cfg("calm_restart", 1)) { 
            // a member that restarts faster than the leader notices may start an election: not calm until it is settled
            { Hold h; W->calm = false; } start_node(down); note("calm.member_back"); down = -1; sleep_until(now() + 5 * el);
            wait_until([] { return leader_id() > 0; }, now() + 40 * el, 5 * MS); sleep_until(now() + 3 * el);
            Hold h; if ((l = leader_id()) < 0) { violation("C24", "no-leader", "40 election timeouts after a member came back no server leads:" + fail_state()); return; }
            W->calm = true; W->calm_since = now(); W->calm_term = N(l).d.term; }
        else {
            std::vector<int> run; for (int x : m) if (up(x)) run.push_back(x);
            int via = pick('k', 5, 2) ? l : run[pick('k', 6, run.size())]; bool repl = via == l && pick('k', 7, 3) == 0;
            u64 id = W->next_sub; Time t0 = now(); { Hold h; submit(via, 1, 8, repl); }
            auto applied = [&]() -> bool { auto c = W->commit_index_of_payload.find(id); if (c == W->commit_index_of_payload.end()) return false; for (int x : run) if (N(x).cur->sm_pos < c->second) return false; return true; };
            bool ok = wait_until([&] { return applied() || (via != l && W->subs[id].completions && !W->subs[id].accepted); }, t0 + bound, 500 * US);
            if (via != l && W->subs[id].completions && !W->subs[id].accepted) { Hold h; note("calm.forward_failed"); continue; } // a connection from before: the submission reports the error
            if (!ok) { if (violated()) break; Hold h; violation("C24", "slow", "an entry submitted at server " + S(via) + " is not applied by all running members within " + S(bound / MS) + " ms although the leader " + S(l) + " and a majority run undisturbed:" + fail_state()); break; }
           
            sleep_until(now() + (Time)pick('k', 8, 3) * hb + (Time)pick('k', 9, 40) * MS);
        }
    }
    if (violated()) { W->calm = false; return; }
    { Hold h; if (leader_id() != l || N(l).d.term != W->calm_term) violation("C24", "leader-lost", "the leader " + S(l) + " of term " + S(W->calm_term) + " does not lead any more although it and a majority run undisturbed:" + fail_state()); W->calm = false; }
    if (down > 0) start_node(down);
    // ---- the leader fails: another one takes over
    if (m.size() >= 3 && !violated() && down < 0 && pick('k', 10, 2)) {
        { Hold h; note("calm.leader_down"); crash_node(l, "calm: leader"); }
        Time t0 = now(), lim = t0 + 20 * el; u64 first = W->next_sub; Time nx = 0;
        auto ok = [&]() -> bool { for (auto it = W->subs.lower_bound(first); it != W->subs.end(); ++it) if (W->commit_index_of_payload.count(it->first)) return true; return false; };
        while (now() < lim && !ok() && !violated()) { { Hold h; int y = leader_id(); if (y > 0 && now() >= nx) { nx = now() + el / 3; submit(y, 1, 8, false); } } sleep_until(now() + 5 * MS); }
       
        if (!violated() && !ok()) { Hold h; violation("C24", "failover", "20 election timeouts after the leader failed no entry was accepted and applied, although all other members run undisturbed:" + fail_state()); }
        start_node(l);
    }
}
// C08: while snapshots succeed they keep being taken and the log stays bounded
static void growth_checks() {
    u64 dist = (u64)cfg("snap_dist"), res = (u64)cfg("reserved");
    std::vector<int> m; { Hold h; m = live_members(); for (int x : m) if (!up(x)) return; note("snap.growth"); }
    u64 top0 = 0; Time lim = now() + 20 * SEC;
    auto stale = [&](Node& n) { return n.d.last_snap + dist + 3 < n.cur->sm_pos; };
    auto grown = [&](Node& n) { return n.d.log.start + res + dist + 3 < n.d.last_snap; };
    // a snapshot that is being made while the server is stalled delays the next one: more entries follow until it is over
    for (int round = 0; round < 3 && !violated(); ++round) {
        top0 = W->committed.rbegin()->first;
        while (now() < lim && W->committed.rbegin()->first < top0 + 2 * dist + 4 && !violated()) { { Hold h; int l = leader_id(); if (l > 0) submit(l, 1, 8, false); } sleep_until(now() + 80 * MS); }
        sleep_until(now() + 1 * SEC);
        Hold h; bool bad = false; for (int x : m) if (up(x) && (stale(N(x)) || grown(N(x)))) bad = true;
        if (!bad) return;
    }
    Hold h; if (violated()) return;
    for (int x : m) {
        Node& n = N(x); if (!up(x) || n.cur->sm_pos < top0 + 2 * dist + 4) continue;
        if (stale(n)) violation("C08", "no-snapshots", "server " + S(x) + " applied index " + S(n.cur->sm_pos) + " but its last snapshot is at index " + S(n.d.last_snap) + " although one is due every " + S(dist) + " entries and none failed");
        else if (grown(n)) violation("C08", "not-compacted", "the log of server " + S(x) + " starts at index " + S(n.d.log.start) + " although its last snapshot is at index " + S(n.d.last_snap) + " and " + S(res) + " entries are to be kept");
    }
}
// C25: what the events told at the end of a quiet period
static void event_checks() {
    sleep_until(now() + 3 * cfg("el_hi", 300) * MS);
    Hold h; if (violated()) return;
    for (auto& p : W->nodes) if (up(p.first)) {
        Inc& in = *p.second.cur;
        if (in.timers_running || in.requests_running || in.handlers_running) continue;
        if (!in.ev_catchup) violation("C25", "no-catch-up", "server " + S(p.first) + " applied all committed entries but did not announce that it caught up");
        if (in.ev_leader && in.ev_term < p.second.d.term) violation("C25", "deposed-unannounced", "server " + S(p.first) + " is in term " + S(p.second.d.term) + " but has not announced that it is no longer leader of term " + S(in.ev_term));
    }
}
static bool answers_pending(bool settled) { Hold h; for (auto& p : W->subs) { Submission& s = p.second; if (s.async && !s.completions && N(s.node).up && N(s.node).inc == s.inc && !N(s.node).cur->stopped) return true;
    if (settled && s.accepted && s.appended && s.app_term == W->max_leader_term && !W->commit_index_of_payload.count(p.first)) return true; } return false; }
static void final_checks(bool settled) {
    for (Time lim = now() + 6000 * MS; now() < lim && answers_pending(settled) && !violated();) sleep_until(now() + 50 * MS);
    Hold h;
    for (auto& p : W->subs) {
        Submission& s = p.second;
        bool alive = N(s.node).up && N(s.node).inc == s.inc && !N(s.node).cur->stopped;
        if (alive && s.async && s.completions == 0) { violation("C12", "never-answered", "submission " + S(p.first) + " made at server " + S(s.node) + " is never answered"); }
        if (settled && s.accepted && s.appended && s.app_term == W->max_leader_term && !W->commit_index_of_payload.count(p.first))
            violation("C12", "accepted-lost", "submission " + S(p.first) + " was accepted in term " + S(s.app_term) + ", no later term exists, but it is never applied");
    }
    for (auto& b : long_blocked(10 * SEC)) violation("C07", "deadlock", "thread " + b.name + " of server " + S(b.node) + " is blocked on a " + b.what + " for over 10 s");
    heap_check("end");
}

void run_cluster() {
    W = new World(); memset(W->blocked, 0, sizeof W->blocked); memset(W->blockmode, 0, sizeof W->blockmode);
    on_terminate = on_term;
#ifdef SIM_FULL
    step_limit = 60000000; simnet::link_of = link_of; simnet::window = cfg("window", 65536); simnet::p_short_ppm = (u32)cfg("p_short"); simnet::p_intr_ppm = (u32)cfg("p_intr"); simnet::p_slow_ppm = (u32)cfg("p_slow"); simnet::p_refuse_ppm = (u32)cfg("p_refuse"); simnet::p_accept_ppm = (u32)cfg("p_accept"); simnet::faults_on = true;
#endif
    p_preempt_ppm = (u32)cfg("p_preempt", 3000); p_stall_ppm = (u32)cfg("p_stall", 200); p_spurious_ppm = (u32)cfg("p_spur", 0); p_pick_ppm = (u32)cfg("p_pick", 100000); p_mem_ppm = (u32)cfg("p_mem", 0); p_wstall_ppm = (u32)cfg("p_wstall", 0);
    stall_max_class = (u32)cfg("stall_cls", 10);
    W->drop_ppm = (u32)cfg("p_drop"); W->dup_ppm = (u32)cfg("p_dup"); W->respdrop_ppm = (u32)cfg("p_respdrop");
    int n = (int)cfg("n", 3), j = (int)cfg("joiners", 0);
    ptr<cs::cluster_config> c0 = cs::cs_new<cs::cluster_config>(0, 0);
    for (int i = 1; i <= n; ++i) { W->members0.push_back(i); c0->get_servers().push_back(cs::cs_new<cs::srv_config>(i, "sim" + S(i))); }
    std::string cb = conf_str(c0);
    for (int i = 1; i <= n + j; ++i) {
        Node& nd = W->nodes[i]; nd.id = i; nd.joiner = i > n;
        nd.d.config = cb;   // a joiner starts knowing the cluster it is going to join, itself not included
    }
    for (auto& s : spec->plan) if (s.op == "add" || s.op == "rm" || cfg("strict") || (s.op == "trap" && s.a.size() > 2 && (s.a[2] == 6 || s.a[2] == 7))) W->fixed_members = false;
    run_main([n] {
        for (int i = 1; i <= n; ++i) { if (pick('0', i, 4) == 0) start_node(i); else { int k = i; at(pick('1', i, 40) * MS, [k] { start_node(k); }); } }
        if (cfg("c14")) spawn(-1, "sampler", [] { while (!W->final_phase) { { Hold h; sample_leaders(); } sleep_until(now() + (Time)(15 + pick('q', 1, 60)) * MS); } });
        for (auto& s : spec->plan) {
            if (s.t * MS > now()) sleep_until(s.t * MS);
            if (violated()) { stop_run(); return; }
            exec(s);
        }
        sleep_until(std::max(now(), (Time)cfg("end", 3000) * MS));
        if (violated()) { stop_run(); return; }
        // ---- faults stop
        { Hold h; trace("FINAL PHASE"); W->faults_on = false; W->final_phase = true; W->burst_ppm = 0; heal_all();
#ifdef SIM_FULL
          simnet::faults_on = false;
#endif
          for (auto& p : W->nodes) { p.second.paused_until = 0; set_node_skew(p.first, 0); }
          p_stall_ppm = 0; p_wstall_ppm = 0; stall_max_class = 1; }
        sleep_until(now() + 200 * MS);
        Time limit = now() + cfg("settle_ms", 20000) * MS;
        bool ok = settle(limit);
        if (violated()) { stop_run(); return; }
        if (!ok) { Hold h; for (auto& p : W->nodes) for (auto& b : all_fibers(p.first)) trace("fiber %s of node %d: %s since %lld", b.name.c_str(), b.node, b.what.c_str(), (long long)b.since); if (quorum_possible()) tag_stuck(); if (quorum_possible()) violation("C06", "no-progress", "no new entry is applied by all running members within " + S(cfg("settle_ms", 20000)) + " ms after faults stopped:" + fail_state()); else note("final.noquorum"); }
        else {
            note("final.settled");
            // ---- membership requests still outstanding are issued again
            bool pend = !W->want_in.empty() || !W->want_out.empty();
            Time ml = now() + cfg("settle_ms", 20000) * MS;
            auto reached = [&] { for (int x : W->want_in) if (!in_conf(x) || !N(x).cur || N(x).cur->sm_pos < W->committed.rbegin()->first) return false; for (int x : W->want_out) if (in_conf(x)) return false; return true; };
            Time next = now(); int leader_crashes = 0, asked_l = 0; u64 asked_t = 0;
            while (pend && now() < ml && !violated()) {
                { Hold h; if (reached()) break;
                  for (int x : W->want_in) if (!N(x).up) rejoin(x);
                  for (auto& p : W->nodes) if (p.second.ever && !p.second.up && !p.second.exited && !p.second.retired) start_node(p.first);
                  // a server that missed its removal campaigns on its own and declines requests of a lower term: the request that
                  // cost a leader its term is made again as soon as there is a leader, not only at the fixed rate
                  int l = leader_id(); u64 lt = l > 0 ? N(l).d.term : 0;
                  bool fresh = l > 0 && (l != asked_l || lt != asked_t);
                  if (now() >= next || fresh) {
                      next = now() + 400 * MS; asked_l = l; asked_t = lt;
                      if (l > 0) {
                          bool done = false;
                          if (W->want_out.count(l) && in_conf(l) && leader_crashes++ >= 4) { W->want_out.erase(l); continue; }
                          for (int x : W->want_out) if (!done && in_conf(x) && !up(x)) { membership(l, false, x); done = true; }   // the dead first, or a quorum may be lost
                          for (int x : W->want_out) if (!done && in_conf(x)) { if (x == l) { /* removing the leader is refused by design: make another one lead */ crash_node(x, "leader to be removed"); done = true; } else { membership(l, false, x); done = true; } }
                          for (int x : W->want_in) if (!done && in_conf(x) && N(x).exited && x != l) { membership(l, false, x); done = true; }   // it gave up waiting for its removal, which did not happen
                          for (int x : W->want_in) if (!done && !in_conf(x) && up(x)) { membership(l, true, x); done = true; }
                      }
                  } }
                sleep_until(now() + 20 * MS);
            }
            if (pend && !violated()) {
                Hold h;
                if (!reached() && !quorum_possible()) note("final.membership_noquorum");
                else if (!reached()) violation("C10", "membership-stuck", "an add or remove request does not take effect within " + S(cfg("settle_ms", 20000)) + " ms in a healthy cluster:" + fail_state());
                else note("final.membership");
            }
            if (pend && !violated() && quorum_possible()) { if (!settle(now() + cfg("settle_ms", 20000) * MS) && !violated()) { Hold h; tag_stuck(); violation("C10", "no-progress-after-change", "the cluster does not make progress after membership changes:" + fail_state()); } }
        }
        if (ok && !violated() && cfg("strict")) { strict_membership(); if (violated()) { stop_run(); return; } }
        if (ok && !violated() && cfg("calm")) { calm_phase(); if (violated()) { stop_run(); return; } }
        if (ok && !violated() && cfg("growth")) { growth_checks(); if (violated()) { stop_run(); return; } }
        if (ok && !violated() && cfg("events")) { event_checks(); if (violated()) { stop_run(); return; } }
        final_checks(ok);
        stop_run();
    });
}
} // namespace cl
