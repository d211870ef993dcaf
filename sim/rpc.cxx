// Requests over TCP: the real asio client, listener and sessions on the simulated kernel (C19).
#include "harness.h"
#include "simfs.h"
#include "simnet.h"
#include "cornerstone.hxx"
#include <algorithm>
#include <cstring>
#include <mutex>
#include <set>
#include <netinet/in.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <unistd.h>
using namespace rt;
namespace cs = cornerstone;
using cs::ptr;

// plan: send client entries size behaviour delay_us seed chain | stranger server kind seed stay_ms | reset which | kill server down_ms | drop client
void gen_rpc(RunSpec& s) {
    Rng r(mix(mix(s.seed, hash_bytes(s.prop.data(), s.prop.size())), 0x29c));
    auto& c = s.cfg; auto one = [&](std::initializer_list<i64> l) { auto it = l.begin(); std::advance(it, r.below(l.size())); return *it; };
    c["ncpu"] = one({1, 2, 2, 3}); c["p_preempt"] = one({0, 5000, 50000, 200000}); c["p_mem"] = one({0, 0, 500, 5000, 20000}); c["p_pick"] = one({0, 200000, 500000}); c["p_spurious"] = one({0, 0, 20000}); c["p_stall"] = one({0, 0, 500, 5000}); c["p_wstall"] = one({0, 0, 50000}); c["stall_max"] = one({4, 7, 9});
    bool calm = r.chance(15); auto f = [&](std::initializer_list<i64> l) { return calm ? 0 : one(l); };
    c["calm"] = calm; c["p_intr"] = f({0, 0, 30000}); c["p_short"] = f({0, 100000, 500000, 900000}); c["p_slow"] = f({0, 0, 20000, 200000}); c["p_refuse"] = f({0, 0, 0, 100000, 400000}); c["p_accept"] = f({0, 0, 0, 200000}); c["p_socket"] = f({0, 0, 0, 50000}); c["p_resolve"] = f({0, 0, 0, 100000}); c["window"] = one({1, 7, 60, 100, 4096, 65536, 65536}); c["v6"] = r.chance(20);
    i64 clients = r.range(1, 4), servers = one({1, 1, 2}); c["clients"] = clients; c["servers"] = servers;
    i64 span = one({2, 20, 200, 2000}) * 1000; int n = (int)r.range(2, 30); i64 grid = one({1, 1000, 10000});
    auto when = [&]() -> i64 { i64 t = (i64)r.below((u64)span); return r.chance(50) ? t / grid * grid : t; };
    i64 big = one({0, 0, 0, 1});
    for (int i = 0; i < n; ++i) {
        Step x; x.t = when(); int k = (int)r.below(100);
        if (calm || k < 86) { i64 sz = big && r.chance(20) ? (c["window"] == 65536 && r.chance(10) ? one({300000, 3000000}) : one({255, 256, 4096, 32759, 32768, 40000})) : r.range(0, 60); if (c["window"] < 100) sz = std::min<i64>(sz, 300); i64 beh = r.chance(80) ? 0 : (i64)r.range(1, 2); x.op = "send"; x.a = {(i64)r.below((u64)clients), r.chance(50) ? 0 : r.range(1, 5), sz, beh, r.chance(60) ? 0 : one({50, 500, 5000, 40000}), (i64)r.below(1000000), r.chance(20) ? r.range(1, 3) : 0}; }
        else if (k < 92) { x.op = "reset"; x.a = {(i64)r.below(100)}; }
        else if (k < 96) { x.op = "kill"; x.a = {1 + (i64)r.below((u64)servers), one({0, 1, 20, 300})}; }
        else if (k < 98) { x.op = "unlisten"; x.a = {1 + (i64)r.below((u64)servers), one({0, 1, 20, 300})}; }
        else { x.op = "drop"; x.a = {(i64)r.below((u64)clients)}; }
        s.plan.push_back(x);
    }
    if (r.chance(30)) for (int i = (int)r.range(1, 4); i > 0; --i) { Step x; x.t = when(); x.op = "stranger"; x.a = {1 + (i64)r.below((u64)servers), (i64)r.below(6), (i64)r.below(1000000), one({0, 1, 20, 300})}; s.plan.push_back(x); }
    std::stable_sort(s.plan.begin(), s.plan.end(), [](const Step& a, const Step& b) { return a.t < b.t; });
}
namespace rp {
static std::string D(i64 x) { return std::to_string(x); }
static void bad(const std::string& cls, const std::string& msg) { violation("C19", cls, msg); }
struct Ent { u64 term; int type; std::string data; };
struct Req { int id = 0, client = 0; u64 term, lterm, lidx, cidx; int type, src, dst; std::vector<Ent> e; int behaviour = 0; i64 delay = 0; int chain = 0; u64 seed = 0; i64 ne = 0, size = 0;
    int seen = 0, done = 0; bool answered = false, got_resp = false; u64 rterm = 0, rnext = 0; int rtype = 0, rsrc = 0, rdst = 0; bool racc = false; ptr<cs::req_msg> msg; bool lasting = false; std::string what; Time at = 0; };
static std::vector<Req*> reqs; static cs::asio_service* svc[8]; static ptr<cs::logger> lg[8]; static ptr<cs::rpc_listener> lis[8]; static char dummy[8][64]; static std::vector<ptr<cs::rpc_client>> cli; static u64 sent; static bool restarting[8];
static void submit(ptr<cs::rpc_client> c, Req* q);
static Req* make(int client, i64 ne, i64 size, int beh, i64 delay, u64 seed, int chain) {
    Hold h; Req* q = new Req(); q->id = (int)reqs.size(); Rng r(mix(mix(seed, spec->seed), (u64)q->id)); q->client = client; q->behaviour = beh; q->delay = delay; q->chain = chain; q->seed = seed; q->ne = ne; q->size = size;
    auto u = [&]() -> u64 { return r.chance(10) ? ~0ull : r.chance(30) ? r.below(1000) : r.next(); };
    q->term = u(); q->lterm = u(); q->lidx = r.next(); q->cidx = u(); auto v = [](Rng& g) -> int { static const int k[] = {0, 1, -1, 255, 256, 0x7fffffff, (int)0x80000000}; return g.chance(40) ? k[g.below(7)] : g.chance(40) ? (int)g.below(10) : (int)g.next(); };
    q->type = 1 + (int)r.below(22); q->src = v(r); q->dst = v(r);
    for (i64 i = 0; i < ne; ++i) { Ent e; e.term = u(); e.type = 1 + (int)r.below(5); i64 z = i == 0 ? size : (i64)r.below((u64)size + 1); for (i64 k = 0; k < z; ++k) e.data += (char)r.below(256); q->e.push_back(e); }
    Rng a(r.next()); q->rterm = a.next(); q->rnext = a.next(); q->rtype = 1 + (int)a.below(22); q->rsrc = v(a); q->rdst = v(a); q->racc = a.chance(50);
    reqs.push_back(q); return q;
}
static bool same(Req* q, cs::req_msg& m) {
    if (m.get_term() != q->term || m.get_last_log_term() != q->lterm || m.get_last_log_idx() != q->lidx || m.get_commit_idx() != q->cidx || (int)m.get_type() != q->type || m.get_src() != q->src || m.get_dst() != q->dst || m.log_entries().size() != q->e.size()) return false;
    for (size_t i = 0; i < q->e.size(); ++i) { auto& e = m.log_entries()[i]; if (!e || e->get_term() != q->e[i].term || (int)e->get_val_type() != q->e[i].type || e->get_buf().size() != q->e[i].data.size() || memcmp(e->get_buf().data() - e->get_buf().pos(), q->e[i].data.data(), q->e[i].data.size())) return false; }
    return true;
}
static ptr<cs::resp_msg> serve(cs::req_msg& m) {
    Req* q = nullptr; { Hold h; for (Req* x : reqs) if (same(x, m)) { q = x; break; } note("op.served");
      if (!q) { std::string near; for (Req* x : reqs) if (x->lidx == m.get_last_log_idx()) near = " (request " + D(x->id) + " with " + D((i64)x->e.size()) + " entries was sent)"; bad("request-altered", "the server received a request that was never sent, with " + D((i64)m.log_entries().size()) + " entries" + near); return nullptr; }
      if (++q->seen > 1) { bad("request-repeated", "request " + D(q->id) + " was received " + D(q->seen) + " times"); return nullptr; }
      trace("request %d received", q->id); }
    if (q->delay) sleep_until(now() + q->delay * US);
    if (q->behaviour == 1) throw std::runtime_error("the handler fails");
    if (q->behaviour == 2) return nullptr;
    ptr<cs::resp_msg> r = std::make_shared<cs::resp_msg>(q->rterm, (cs::msg_type)q->rtype, q->rsrc, q->rdst, q->rnext, q->racc); Hold h; q->answered = true; return r;
}
static void submit(ptr<cs::rpc_client> c, Req* q) {
    ptr<cs::req_msg> m = std::make_shared<cs::req_msg>(q->term, (cs::msg_type)q->type, q->src, q->dst, q->lterm, q->lidx, q->cidx);
    for (auto& e : q->e) { cs::bufptr b = cs::buffer::alloc(e.data.size()); if (!e.data.empty()) memcpy(b->data(), e.data.data(), e.data.size()); b->pos(q->seed & 1 ? 0 : (size_t)(mix(q->seed, e.data.size()) % (e.data.size() + 1))); m->log_entries().push_back(std::make_shared<cs::log_entry>(e.term, std::move(b), (cs::log_val_type)e.type)); }
    { Hold h; q->msg = m; q->at = now(); ++sent; note("op.sent"); trace("request %d sent by client %d", q->id, q->client); }
    cs::rpc_handler hd = [q, c](ptr<cs::resp_msg>& r, const ptr<cs::rpc_exception>& e) {
        bool more = false;
        { Hold h; if (++q->done > 1) { bad("completed-twice", "request " + D(q->id) + " completed " + D(q->done) + " times"); return; }
          trace("request %d completes with %s%s", q->id, e ? "error " : "a response", e ? e->what() : ""); note(e ? "op.failed" : "op.answered");
          if (e) { q->what = e->what(); if (r) bad("both", "request " + D(q->id) + " completed with an error and a response"); if (e->req() != q->msg) bad("error-names", "the error for request " + D(q->id) + " names another request"); }
          else if (!r) bad("neither", "request " + D(q->id) + " completed with neither an error nor a response");
          else { q->got_resp = true; if (!q->answered || r->get_term() != q->rterm || r->get_next_idx() != q->rnext || (int)r->get_type() != q->rtype || r->get_src() != q->rsrc || r->get_dst() != q->rdst || r->get_accepted() != q->racc) { std::string of; for (Req* x : reqs) if (x->rnext == r->get_next_idx() && x->rterm == r->get_term()) of = " (it is the one of request " + D(x->id) + ")"; bad("response-wrong", "request " + D(q->id) + " completed with a response that the server did not give to it" + of); } }
          more = q->chain > 0; }
        if (more) submit(c, make(q->client, q->ne, q->size, 0, q->delay, q->seed + 1, q->chain - 1));
    };
    c->send(m, hd);
}
static void listen(int s) { lis[s] = svc[s]->create_rpc_listener((unsigned short)(9000 + s), lg[s]); ptr<cs::raft_server> h(std::shared_ptr<void>(), (cs::raft_server*)dummy[s]); lis[s]->listen(h); }
static void start_server(int s) { svc[s] = new cs::asio_service(); lg[s] = svc[s]->create_logger(cs::asio_service::log_level::debug, "/sim/server" + D(s)); listen(s); }
static bool gone(std::vector<int> ids, Time d) { Time end = now() + d, st = 20 * US; for (;;) { bool all = true; { Hold h; for (int id : ids) all = all && fiber_done(id); } if (all) return true; if (now() >= end || violated()) return false; sleep_until(now() + st); st = std::min<Time>(st * 2, 20 * MS); } }
static bool up(int s) { return gone({spawn(s, "start", [s] { start_server(s); })}, 30 * SEC); }
// somebody connects and sends bytes that are no request: a header cut off, one that announces a negative or an excessive amount of
// log data, log data cut off, or log data whose last entry claims more bytes than there are
static std::string nonsense(i64 kind, u64 seed) {
    Rng r(mix(seed, spec->seed)); auto num = [](u64 v, int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)(v >> (8 * i)); return s; };
    std::string h = num(1 + r.below(22), 1) + num(r.next(), 4) + num(r.next(), 4); for (int i = 0; i < 4; ++i) h += num(r.next(), 8);
    switch (kind) {
    case 0: return h.substr(0, r.below(h.size()) + 1);
    case 1: return h + num(0x80000000u | r.next(), 4) + std::string(r.below(60), 'x');
    case 2: return h + num(0x1000001 + r.below(0x60000000), 4) + std::string(r.below(60), 'x');
    case 3: { std::string d = std::string(1 + r.below(300), 'y'); return h + num(d.size(), 4) + d.substr(0, r.below(d.size())); }
    case 4: { std::string d; for (u64 i = r.below(3); i > 0; --i) { u64 z = r.below(30); d += num(r.next(), 8) + num(1 + r.below(5), 1) + num(z, 4) + std::string(z, 'z'); } u64 z = r.below(40); d += num(r.next(), 8) + num(1, 1) + num(r.chance(50) ? 0x80000000u | r.next() : z + 1 + r.below(r.chance(50) ? 3 : 100000), 4) + std::string(z, 'w'); return h + num(d.size(), 4) + d; }
    default: { std::string d = std::string(1 + r.below(12), 'v'); return h + num(d.size(), 4) + d; }
    }
}
static void stranger(int s, std::string what, Time stay) {
    { Hold h; note("op.stranger"); trace("a stranger sends %zu bytes to server %d", what.size(), s); }
    int fd = ::socket(AF_INET, SOCK_STREAM, 0); if (fd < 0) return; int on = 1; ioctl(fd, FIONBIO, &on);
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((uint16_t)(9000 + s)); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    ::connect(fd, (sockaddr*)&a, sizeof a);
    size_t off = 0; for (int i = 0; i < 400 && off < what.size(); ++i) { ssize_t n = ::send(fd, what.data() + off, what.size() - off, MSG_NOSIGNAL); if (n > 0) off += (size_t)n; else if (errno != EAGAIN && errno != EINTR && errno != ENOTCONN && errno != EINPROGRESS) break; else sleep_until(now() + 200 * US); }
    sleep_until(now() + stay); ::close(fd);
}
static bool all_done() { Hold h; for (Req* q : reqs) if (q->msg && !q->done) return false; return true; }
static int server_of(int client) { return 1 + client % (int)cfg("servers"); }
static void root() {
    int S = (int)cfg("servers"); std::vector<int> acts;
    for (int s = 1; s <= S; ++s) if (!up(s)) { if (!violated()) bad("start", "a listener does not start"); stop_run(); return; }
    if (!gone({spawn(0, "client", [] { svc[0] = new cs::asio_service(); for (i64 i = 0; i < cfg("clients"); ++i) { ptr<cs::rpc_client> c = svc[0]->create_client("tcp://host:" + D(9000 + server_of((int)i))); Hold h; cli.push_back(c); } })}, 30 * SEC)) { if (!violated()) bad("start", "clients cannot be created"); stop_run(); return; }
    simnet::faults_on = true; Time t0 = now(); std::vector<std::pair<Time, int>> downs;
    for (auto& x : spec->plan) {
        if (violated()) break; sleep_until(t0 + x.t * US);
        if (x.op == "send") { ptr<cs::rpc_client> c = cli[x.a[0]]; if (!c) continue; acts.push_back(spawn(0, "sender", [c, x] { submit(c, make((int)x.a[0], x.a[1], x.a[2], (int)x.a[3], x.a[4], (u64)x.a[5], (int)x.a[6])); }));
            u64 o = 0; for (Req* q : reqs) o += q->msg && !q->done; state_seen(mix(mix(o > 8 ? 8 : o, simnet::live()), mix((u64)x.a[1] * 8 + (u64)x.a[3], mix((u64)cfg("window"), (u64)cfg("p_short"))))); }
        else if (x.op == "stranger") { int sv = (int)x.a[0]; std::string b = nonsense(x.a[1], (u64)x.a[2]); Time stay = x.a[3] * MS; acts.push_back(spawn(0, "stranger", [sv, b, stay] { stranger(sv, b, stay); })); }
        else if (x.op == "reset") simnet::reset_some((u64)x.a[0]);
        else if (x.op == "drop") { cli[x.a[0]].reset(); }
        else if (x.op == "unlisten") { int s = (int)x.a[0]; if (restarting[s]) continue; restarting[s] = true; Time dn = x.a[1] * MS;
            acts.push_back(spawn(-1, "relisten", [s, dn] { { Hold h; trace("listener of server %d stops", s); note("op.listener_stopped"); }
                if (!gone({spawn(s, "stop-listening", [s] { lis[s]->stop(); lis[s].reset(); })}, 30 * SEC) && !violated()) bad("stop-listening-hangs", "stopping a listener does not return");
                sleep_until(now() + dn); if (!gone({spawn(s, "listen", [s] { listen(s); })}, 30 * SEC) && !violated()) bad("listen-hangs", "listening again does not return"); restarting[s] = false; })); }
        else if (x.op == "kill") { int s = (int)x.a[0]; if (restarting[s]) continue; restarting[s] = true; { Hold h; trace("fault: server %d dies", s); note("fault.server_crash"); kill_node(s); simnet::close_all(s); simfs::close_all(s); } Time dn = x.a[1] * MS; acts.push_back(spawn(-1, "restart", [s, dn] { sleep_until(now() + dn); revive_node(s); up(s); restarting[s] = false; })); }
    }
    if (!violated()) {
        if (!gone(acts, 60 * SEC) && !violated()) bad("send-hangs", "sending a request does not return");
        simnet::faults_on = false; p_stall_ppm = p_wstall_ppm = 0;
        Time end = now() + 60 * SEC, st = 1 * MS; while (!all_done() && now() < end && !violated()) { sleep_until(now() + st); st = std::min<Time>(st * 2, 100 * MS); }
        if (!violated()) for (Req* q : reqs) if (q->msg && !q->done) { bad("never-completes", "request " + D(q->id) + " of client " + D(q->client) + " never completes" + (q->seen ? ", the server received it" : "")); break; }
        // nothing failed, so every request the handler answered got its answer
        if (!violated() && cfg("calm")) for (Req* q : reqs) if (q->msg && !q->behaviour && !q->got_resp) { bad("fails-undisturbed", "request " + D(q->id) + " failed although no fault was injected: " + q->what); break; }
        // every client works again
        for (size_t i = 0; i < cli.size() && !violated(); ++i) if (cli[i]) {
            bool ok = false; std::string what;
            for (int k = 0; k < 3 && !ok && !violated(); ++k) { Req* q = make((int)i, 1, 20, 0, 0, 4711 + k, 0); ptr<cs::rpc_client> c = cli[i]; spawn(0, "sender", [c, q] { submit(c, q); }); Time e2 = now() + 30 * SEC; st = 100 * US; while (!q->done && now() < e2 && !violated()) { sleep_until(now() + st); st = std::min<Time>(st * 2, 20 * MS); } ok = q->got_resp; what = q->done ? q->what : "no completion"; if (!q->done) break; }
            if (!ok && !violated()) bad("does-not-recover", "client " + D((i64)i) + " does not work again once connections can be made: " + what);
        }
    }
    heap_check("end"); stop_run();
}
static void on_term(const char* why) { bad("terminated", why); stop_run(); }
static void run() {
    on_terminate = on_term; step_limit = 20000000; time_limit = 100000 * SEC;
    p_preempt_ppm = (u32)cfg("p_preempt"); p_mem_ppm = (u32)cfg("p_mem"); p_pick_ppm = (u32)cfg("p_pick"); p_spurious_ppm = (u32)cfg("p_spurious"); p_stall_ppm = (u32)cfg("p_stall"); p_wstall_ppm = (u32)cfg("p_wstall"); stall_max_class = (u32)cfg("stall_max", 6);
    simnet::p_intr_ppm = (u32)cfg("p_intr"); simnet::p_short_ppm = (u32)cfg("p_short"); simnet::p_slow_ppm = (u32)cfg("p_slow"); simnet::p_refuse_ppm = (u32)cfg("p_refuse"); simnet::p_accept_ppm = (u32)cfg("p_accept"); simnet::p_socket_ppm = (u32)cfg("p_socket"); simnet::p_resolve_ppm = (u32)cfg("p_resolve"); simnet::window = cfg("window", 65536); simnet::v6_first = cfg("v6");
    run_main(root);
}
}
void run_rpc() { rp::run(); }
// the handler behind the listener: this stand-in takes the place of the raft server at link time
namespace cornerstone { ptr<resp_msg> raft_server::process_req(req_msg& req) { return rp::serve(req); } }
