// Small manual driver for raft_server: no network, no clock, every message and timer is delivered by the test program.
#pragma once
#include "cornerstone.hxx"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <thread>
#include <vector>
using namespace cornerstone;
#define CHECK(c, ...) do { if (!(c)) { printf("FAILED at line %d: ", __LINE__); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _Exit(1); } } while (0)
inline void nap(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
template <class F> bool eventually(F f, int ms = 5000) { for (int i = 0; i < ms; ++i) { if (f()) return true; nap(1); } return f(); }
inline ptr<log_entry> clone(const ptr<log_entry>& e) { bufptr b = buffer::copy(e->get_buf()); b->pos(0); return cs_new<log_entry>(e->get_term(), std::move(b), e->get_val_type()); }
struct MemLog : log_store {
    std::vector<ptr<log_entry>> e; ulong start = 1; mutable std::recursive_mutex m;
    typedef std::lock_guard<std::recursive_mutex> G;
    ulong next_slot() const override { G g(m); return start + e.size(); }
    ulong start_index() const override { G g(m); return start; }
    ptr<log_entry> last_entry() const override { G g(m); if (e.empty()) { return cs_new<log_entry>((ulong)0, buffer::alloc(1)); } return clone(e.back()); }
    ulong append(ptr<log_entry>& x) override { G g(m); e.push_back(clone(x)); return start + e.size() - 1; }
    void write_at(ulong i, ptr<log_entry>& x) override { G g(m); e.resize(i - start); e.push_back(clone(x)); }
    ptr<std::vector<ptr<log_entry>>> log_entries(ulong s, ulong en) override { G g(m); if (s < start || s >= en || en > start + e.size()) return ptr<std::vector<ptr<log_entry>>>(); auto v = cs_new<std::vector<ptr<log_entry>>>(); for (ulong i = s; i < en; ++i) v->push_back(clone(e[i - start])); return v; }
    ptr<log_entry> entry_at(ulong i) override { G g(m); if (i < start || i >= start + e.size()) return ptr<log_entry>(); return clone(e[i - start]); }
    ulong term_at(ulong i) override { G g(m); return i < start || i >= start + e.size() ? 0 : e[i - start]->get_term(); }
    bufptr pack(ulong i, int32 n) override {
        G g(m); std::vector<bufptr> bs; size_t sz = 4; for (ulong k = i; k < i + n && k < start + e.size(); ++k) { bs.push_back(e[k - start]->serialize()); sz += 4 + bs.back()->size(); }
        bufptr r = buffer::alloc(sz); r->put((int32)bs.size()); for (auto& b : bs) { b->pos(0); r->put((int32)b->size()); r->put(*b); } r->pos(0); return r; }
    void apply_pack(ulong i, buffer& p) override { G g(m); int32 n = p.get_int(); e.resize(i - start); for (int32 k = 0; k < n; ++k) { int32 s = p.get_int(); bufptr b = buffer::alloc(s); p.get(b); b->pos(0); e.push_back(log_entry::deserialize(*b)); } }
    bool compact(ulong l) override { G g(m); if (l >= start + e.size()) { e.clear(); start = l + 1; } else if (l >= start) { e.erase(e.begin(), e.begin() + (l + 1 - start)); start = l + 1; } return true; }
};
struct Disk { ptr<MemLog> log = cs_new<MemLog>(); ulong term = 0; int vote = -1; std::string conf; bool frozen = false; int saves = 0, freeze_after = -1; };
inline std::string ser(const cluster_config& c) { bufptr b = const_cast<cluster_config&>(c).serialize(); b->pos(0); return std::string((const char*)b->data(), b->size()); }
struct Mgr : state_mgr {
    int id; Disk* d; std::atomic<int> exited{0};
    Mgr(int i, Disk* x) : id(i), d(x) {}
    ptr<cluster_config> load_config() override { bufptr b = buffer::alloc(d->conf.size()); memcpy(b->data(), d->conf.data(), d->conf.size()); b->pos(0); return cluster_config::deserialize(*b); }
    void save_config(const cluster_config& c) override { if (!d->frozen) d->conf = ser(c); }
    void save_state(const srv_state& s) override { if (d->freeze_after >= 0 && d->saves >= d->freeze_after) d->frozen = true; if (!d->frozen) { d->term = s.get_term(); d->vote = s.get_voted_for(); } d->saves++; }
    ptr<srv_state> read_state() override { if (!d->term) return ptr<srv_state>(); auto s = cs_new<srv_state>(); s->set_term(d->term); s->set_voted_for(d->vote); return s; }
    ptr<log_store> load_log_store() override { return d->log; }
    int32 server_id() override { return id; }
    void system_exit(const int c) override { exited = c ? c : 1000; }
};
struct SM : state_machine {
    std::map<ulong, std::string> applied; std::vector<std::string> ev; std::string recv; ulong snap_idx = 0; ptr<snapshot> last; std::map<ulong, std::string> snaps; std::atomic<ulong> pos{0}; mutable std::mutex m; bool snap_enabled = true; int snaps_made = 0; std::string received_at_apply;
    typedef std::lock_guard<std::mutex> G;
    static std::string str(buffer& b) { b.pos(0); std::string s((const char*)b.data(), b.size()); return s; }
    std::string state() { G g(m); std::string s; for (auto& p : applied) s += std::to_string(p.first) + "=" + p.second + ";"; return s; }
    void commit(const ulong i, buffer& d, const uptr<log_entry_cookie>&) override { G g(m); applied[i] = str(d); ev.push_back("c" + std::to_string(i)); pos = i; }
    void pre_commit(const ulong i, buffer& d, const uptr<log_entry_cookie>&) override { G g(m); ev.push_back("p" + std::to_string(i)); }
    void rollback(const ulong i, buffer& d, const uptr<log_entry_cookie>&) override { G g(m); ev.push_back("r" + std::to_string(i)); }
    void save_snapshot_data(snapshot& s, const ulong off, buffer& d) override { G g(m); if (recv.size() < off + d.size()) recv.resize(off + d.size()); recv.replace(off, d.size(), std::string((const char*)d.data() , d.size())); }
    bool apply_snapshot(snapshot& s) override { G g(m); snaps[s.get_last_log_idx()] = recv; received_at_apply = recv; last = keep(s); pos = s.get_last_log_idx(); ev.push_back("s" + std::to_string(s.get_last_log_idx())); recv.clear(); return true; }
    int read_snapshot_data(snapshot& s, const ulong off, buffer& d) override { G g(m); std::string& c = snaps[s.get_last_log_idx()]; if (off >= c.size()) return 0; size_t n = std::min(d.size() - d.pos(), c.size() - off); memcpy(d.data(), c.data() + off, n); return (int)n; }
    ptr<snapshot> last_snapshot() override { G g(m); return last; }
    ulong last_commit_index() override { return pos; }
    static ptr<snapshot> keep(snapshot& s) { bufptr b = s.serialize(); b->pos(0); return snapshot::deserialize(*b); }
    void create_snapshot(snapshot& s, async_result<bool>::handler_type& done) override {
        { G g(m); std::string st; for (auto& p : applied) if (p.first <= s.get_last_log_idx()) st += std::to_string(p.first) + "=" + p.second + ";"; if (st.empty()) st = "-"; snaps[s.get_last_log_idx()] = st; ptr<cluster_config> c = s.get_last_config(); last = cs_new<snapshot>(s.get_last_log_idx(), s.get_last_log_term(), c, st.size()); snaps_made++; }
        bool ok = true; ptr<std::exception> e; done(ok, e); }
};
struct Sched : delayed_task_scheduler {
    std::vector<std::pair<ptr<delayed_task>, int>> q; std::recursive_mutex m;
    void schedule(ptr<delayed_task>& t, int32 ms) override { std::lock_guard<std::recursive_mutex> g(m); t->reset(); q.push_back({t, ms}); }
    void cancel_impl(ptr<delayed_task>& t) override { std::lock_guard<std::recursive_mutex> g(m); for (size_t i = 0; i < q.size();) if (q[i].first == t) q.erase(q.begin() + i); else ++i; }
    bool fire(int lo, int hi) { ptr<delayed_task> t; { std::lock_guard<std::recursive_mutex> g(m); for (size_t i = 0; i < q.size(); ++i) if (q[i].second >= lo && q[i].second <= hi) { t = q[i].first; q.erase(q.begin() + i); break; } } if (t) t->execute(); return !!t; }
};
struct Msg { int src, dst; ptr<req_msg> req; rpc_handler h; };
struct Net { std::deque<Msg> q; std::recursive_mutex m; };
struct Cli : rpc_client { Net* n; int src, dst; Cli(Net* x, int s, int d) : n(x), src(s), dst(d) {} void send(ptr<req_msg>& r, rpc_handler& h) override { std::lock_guard<std::recursive_mutex> g(n->m); n->q.push_back({src, dst, r, h}); } };
struct Fac : rpc_client_factory { Net* n; int src; Fac(Net* x, int s) : n(x), src(s) {} ptr<rpc_client> create_client(const std::string& ep) override { return cs_new<Cli>(n, src, atoi(ep.c_str())); } };
struct Ev : raft_event_listener { std::atomic<int> leader{0}; void on_event(raft_event e) override { if (e == raft_event::become_leader) leader = 1; else if (e == raft_event::become_follower) leader = 0; } };
struct Log : logger { void debug(const std::string& s) override { if (getenv("V")) puts(s.c_str()); } void info(const std::string& s) override { debug(s); } void warn(const std::string& s) override { debug(s); } void err(const std::string& s) override { debug(s); } };
struct Cluster;
struct Node { int id; Disk disk; ptr<Mgr> mgr; ptr<SM> sm; ptr<Sched> sched; ptr<Ev> ev; std::unique_ptr<raft_server> srv; bool up = false; };
struct Cluster {
    Net net; std::map<int, Node> nodes; std::function<void(raft_params&)> tune = [](raft_params&) {};
    std::vector<Msg> seen;
    explicit Cluster(std::vector<int> ids) {
        for (int i : ids) { Node& n = nodes[i]; n.id = i; cluster_config c; for (int k : ids) c.get_servers().push_back(cs_new<srv_config>(k, std::to_string(k))); n.disk.conf = ser(c); }
    }
    Node& operator[](int i) { return nodes[i]; }
    void start(int i, bool keep_sm = true) {
        Node& n = nodes[i]; n.disk.frozen = false; n.disk.freeze_after = -1; n.mgr = cs_new<Mgr>(i, &n.disk); if (!n.sm || !keep_sm) n.sm = cs_new<SM>(); n.sched = cs_new<Sched>(); n.ev = cs_new<Ev>();
        raft_params* p = new raft_params(); (*p).with_election_timeout_lower(1000).with_election_timeout_upper(2000).with_hb_interval(100).with_rpc_failure_backoff(50).with_max_append_size(100).with_snapshot_enabled(0).with_log_sync_batch_size(1000).with_log_sync_stopping_gap(10).with_reserved_log_items(0).with_prevote_enabled(false);
        tune(*p);
        ptr<rpc_listener> nil; n.srv.reset(new raft_server(new context(n.mgr, n.sm, nil, cs_new<Log>(), cs_new<Fac>(&net, i), n.sched, n.ev, p))); n.up = true;
    }
    void start_all() { for (auto& p : nodes) start(p.first); }
    // a crash: what the server does from here on reaches neither the disk nor the network
    void crash(int i) { Node& n = nodes[i]; n.up = false; n.disk.frozen = true; auto img = n.disk.log; n.disk.log = cs_new<MemLog>(); n.disk.log->e = img->e; n.disk.log->start = img->start; drop([i](Msg& m) { return m.src == i; }); n.srv.reset(); }
    template <class F> void drop(F f) { std::lock_guard<std::recursive_mutex> g(net.m); for (size_t i = 0; i < net.q.size();) if (f(net.q[i])) net.q.erase(net.q.begin() + i); else ++i; }
    template <class F> bool take(F f, Msg& out) { std::lock_guard<std::recursive_mutex> g(net.m); for (size_t i = 0; i < net.q.size(); ++i) if (f(net.q[i])) { out = net.q[i]; net.q.erase(net.q.begin() + i); return true; } return false; }
    void fail(Msg& m, const char* w = "failed") { ptr<resp_msg> r; ptr<rpc_exception> e = cs_new<rpc_exception>(w, m.req); if (nodes[m.src].up) m.h(r, e); }
    ptr<resp_msg> serve(Msg& m) { // executes the request at its destination, does not answer
        if (!nodes[m.dst].up) return ptr<resp_msg>();
        req_msg c(m.req->get_term(), m.req->get_type(), m.req->get_src(), m.req->get_dst(), m.req->get_last_log_term(), m.req->get_last_log_idx(), m.req->get_commit_idx());
        for (auto& e : m.req->log_entries()) c.log_entries().push_back(clone(e));
        return nodes[m.dst].srv->process_req(c); }
    void answer(Msg& m, ptr<resp_msg> r) { ptr<rpc_exception> e; if (nodes[m.src].up) m.h(r, e); }
    void deliver(Msg& m) { ptr<resp_msg> r = serve(m); if (r) answer(m, r); else fail(m); }
    template <class F> int pump(F ok, int rounds = 100000) { int k = 0; for (Msg m; rounds-- > 0;) { if (take([&](Msg& x) { return ok(x); }, m)) { deliver(m); ++k; } else break; } return k; }
    template <class F> void settle(F ok, int ms = 40) { for (int i = 0; i < ms / 2; ++i) { while (pump(ok)) {} nap(2); } }
    void settle(int ms = 40) { settle([](Msg&) { return true; }, ms); }
    bool election(int i) { return nodes[i].sched->fire(1000, 2000); }
    bool heartbeat(int i) { bool any = false; for (size_t k = 0, n = nodes[i].sched->q.size(); k < n; ++k) any |= nodes[i].sched->fire(1, 999); return any; }
    bool leader(int i) { return nodes[i].up && nodes[i].ev->leader; }
    void elect(int i) { election(i); settle(); CHECK(leader(i), "scenario: server %d is not elected", i); }
    void submit(int i, std::vector<std::string> ss) { std::vector<bufptr> v; for (auto& s : ss) { bufptr b = buffer::alloc(s.size()); memcpy(b->data(), s.data(), s.size()); v.push_back(std::move(b)); } nodes[i].srv->append_entries(v); }
    void submit(int i, const std::string& s) { std::vector<bufptr> v; bufptr b = buffer::alloc(s.size()); memcpy(b->data(), s.data(), s.size()); v.push_back(std::move(b)); nodes[i].srv->append_entries(v); }
};
