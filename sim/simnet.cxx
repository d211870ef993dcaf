#include "simnet.h"
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <list>
#include <map>
#include <memory>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <set>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <unistd.h>
using namespace rt;
extern "C" ssize_t simfs_write(int, const void*, size_t, int*); extern "C" ssize_t simfs_read(int, void*, size_t, int*); extern "C" int simfs_close(int, int*);
namespace simnet {
u32 p_short_ppm, p_intr_ppm, p_slow_ppm, p_refuse_ppm, p_accept_ppm, p_socket_ppm, p_resolve_ppm; i64 window = 65536; bool faults_on, v6_first; int (*link_of)(int, int);
enum Kind { EPOLL, EVENT, TIMER, SOCK };
struct File; typedef std::shared_ptr<File> FP;
struct Item { uint32_t ev = 0; epoll_data_t data; bool queued = false; };
struct Seg { std::string data; int kind; /* 0 data, 1 fin, 2 reset */ };
struct Pipe { std::string rcv; std::deque<Seg> held; size_t flying = 0; Time last = 0; bool fin_sent = false, fin = false; };   // one direction
struct Conn { Pipe p[2]; std::weak_ptr<File> end[2]; int node[2] = {-1, -1}; bool reset = false, est = false, acc = false; u64 id = 0; };
enum SockState { IDLE, LISTEN, CONNECTING, CONNECTED, FAILED };
struct File { Kind kind; int node = -1, fd = -1; bool closed = false;
    // epoll
    std::map<int, Item> items; std::list<int> ready;
    // eventfd, timerfd
    u64 count = 0, ev = 0;
    // sockets
    SockState st = IDLE; int port = 0; bool v6 = false; int so_error = 0; std::shared_ptr<Conn> c; int side = 0; std::deque<std::shared_ptr<Conn>> backlog; bool rd_shut = false, wr_shut = false, wr_full = false; };
static std::map<int, FP>* files; static std::map<u64, std::weak_ptr<Conn>>* conns; static int next_fd = 200000; static u64 next_conn;
static void init() { if (!files) { files = new std::map<int, FP>(); conns = new std::map<u64, std::weak_ptr<Conn>>(); } }
static FP get(int fd) { if (fd < 200000 || !files) return nullptr; auto it = files->find(fd); return it == files->end() ? nullptr : it->second; }
static FP add(Kind k) { init(); FP f = std::make_shared<File>(); f->kind = k; f->node = cur_node(); f->fd = next_fd++; (*files)[f->fd] = f; return f; }
static uint32_t state(File& f) {
    switch (f.kind) {
    case EVENT: return (f.count ? EPOLLIN : 0) | EPOLLOUT;
    case TIMER: return f.count ? EPOLLIN : 0;
    case EPOLL: return 0;
    case SOCK: break;
    }
    switch (f.st) {
    case IDLE: return EPOLLOUT | EPOLLHUP;
    case LISTEN: return f.backlog.empty() ? 0 : EPOLLIN;
    case CONNECTING: return 0;
    case FAILED: return EPOLLIN | EPOLLOUT | EPOLLHUP | (f.so_error ? EPOLLERR : 0);
    case CONNECTED: break;
    }
    Pipe& in = f.c->p[1 - f.side]; Pipe& out = f.c->p[f.side]; uint32_t r = 0;
    if (f.c->reset) return EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP | (f.so_error ? EPOLLERR : 0);
    if (!in.rcv.empty() || in.fin) r |= EPOLLIN | (in.fin ? EPOLLRDHUP : 0);
    if (!f.wr_full && (i64)(out.flying + out.rcv.size()) < window) r |= EPOLLOUT;
    if (in.fin && out.fin_sent) r |= EPOLLHUP;
    return r;
}
static void changed(FP f) { trace("net: fd %d changed %x", f ? f->fd : -1, f && !f->closed ? state(*f) : 0);   // the state of f may have changed: queue it on every epoll set that watches it
    if (!f || f->closed) return;
    for (auto& p : *files) if (p.second->kind == EPOLL) { auto it = p.second->items.find(f->fd); if (it == p.second->items.end()) continue; if (!(state(*f) & (it->second.ev | EPOLLERR | EPOLLHUP))) continue; if (!it->second.queued) { it->second.queued = true; p.second->ready.push_back(f->fd); } wake(p.second.get()); }
    wake(f.get());
}
static void do_reset(std::shared_ptr<Conn> c, int err_for /* side that learns of it, 2: both */) {
    if (c->reset) return;
    c->reset = true; c->p[0].rcv.clear(); c->p[1].rcv.clear();
    for (int s = 0; s < 2; ++s) { FP e = c->end[s].lock(); if (e && !e->closed) { if (err_for == 2 || err_for == s) e->so_error = ECONNRESET; changed(e); } }
}
static Time latency(u64 ent) { if (faults_on && p_slow_ppm) { u32 s = choose('l', ent, p_slow_ppm, 8); if (s) { note("fault.net_slow"); return (Time)2 * MS << s; } } return (Time)(20 + pick('L', ent, 180)) * US; }
static int link_state(std::shared_ptr<Conn>& c, int side) { return link_of && c->node[0] >= 0 ? link_of(c->node[side], c->node[1 - side]) : 0; }
static void arrive(std::shared_ptr<Conn> c, int side, const std::string& data, int kind) {
    if (c->reset) return;
    Pipe& o = c->p[side];
    int l = link_state(c, side);
    if (l == 2) { note("fault.net_cut"); do_reset(c, 2); return; }
    if (l == 1 || !o.held.empty()) { note("fault.net_held"); o.held.push_back({data, kind}); return; }
    if (kind == 2) { do_reset(c, 1 - side); return; }
    if (kind == 1) { o.fin = true; changed(c->end[1 - side].lock()); return; }
    o.flying -= data.size(); FP peer = c->end[1 - side].lock();
    if ((!peer && (side == 1 || c->acc)) || (peer && peer->closed)) { if (c->est) do_reset(c, side); return; }     // nobody there any more
    o.rcv += data; if (peer) changed(peer);
}
static void send_fin(std::shared_ptr<Conn> c, int side) {
    Pipe& p = c->p[side]; if (p.fin_sent) return; p.fin_sent = true;
    p.last = std::max(p.last, now() + latency(mix(c->id, side)));
    at(p.last, [c, side] { arrive(c, side, "", 1); });
}
static void shut(FP f) {
    f->closed = true;
    if (f->kind == TIMER && f->ev) { cancel_event(f->ev); f->ev = 0; }
    if (f->kind == SOCK) {
        if (f->st == LISTEN) for (auto& c : f->backlog) do_reset(c, 0);
        if (f->c) { std::shared_ptr<Conn> c = f->c; if (!c->p[1 - f->side].rcv.empty()) do_reset(c, 1 - f->side); else send_fin(c, f->side); }
    }
    for (auto& p : *files) if (p.second->kind == EPOLL && p.second->items.erase(f->fd)) p.second->ready.remove(f->fd);
    files->erase(f->fd);
}
void close_all(int node) { Hold h; init(); std::vector<FP> v; for (auto& p : *files) if (p.second->node == node) v.push_back(p.second); for (auto& f : v) { if (f->kind == SOCK && f->c && !f->c->reset) { std::shared_ptr<Conn> c = f->c; int other = 1 - f->side; f->closed = true; at(now() + latency(c->id), [c, other] { arrive(c, 1 - other, "", 2); }); f->c = nullptr; } shut(f); } }
void links_changed() {
    Hold h; init(); std::vector<std::shared_ptr<Conn>> v; for (auto& p : *conns) if (auto c = p.second.lock()) v.push_back(c);
    for (auto& c : v) for (int s = 0; s < 2; ++s) if (!c->p[s].held.empty() && link_state(c, s) != 1) at(now() + latency(mix(c->id, 7)), [c, s] { if (link_state(const_cast<std::shared_ptr<Conn>&>(c), s) == 1) return; std::deque<Seg> q; q.swap(c->p[s].held); for (auto& x : q) arrive(c, s, x.data, x.kind); });
}
int reset_between(int a, int b) { Hold h; init(); int n = 0; std::vector<std::shared_ptr<Conn>> v; for (auto& p : *conns) if (auto c = p.second.lock()) v.push_back(c); for (auto& c : v) if (c->est && !c->reset && c->node[0] == a && c->node[1] == b) { note("fault.net_reset"); do_reset(c, 2); ++n; } return n; }
int live() { Hold h; init(); int n = 0; for (auto it = conns->begin(); it != conns->end();) { auto c = it->second.lock(); if (!c || c->reset) it = conns->erase(it); else { n += c->est; ++it; } } return n; }
int reset_some(u64 which) { Hold h; int n = live(); if (!n) return 0; u64 k = which % n; for (auto& p : *conns) { auto c = p.second.lock(); if (c && c->est && k-- == 0) { note("fault.net_reset"); trace("fault: connection %llu is reset", (unsigned long long)c->id); do_reset(c, 2); break; } } return n; }
static bool intr(const char* op) { Hold h; if (!faults_on || !p_intr_ppm) return false; if (!choose('i', mix(cur_ident(), hash_bytes(op, strlen(op))), p_intr_ppm, 1)) return false; note("fault.syscall_interrupted"); errno = EINTR; return true; }
static bool fails(char kind, u32 ppm, const char* what) { Hold h; if (!faults_on || !ppm) return false; if (!choose(kind, cur_ident(), ppm, 1)) return false; note((std::string("fault.") + what).c_str()); trace("fault: %s", what); return true; }
static size_t shorten(char kind, size_t n) { Hold h; if (!faults_on || !p_short_ppm || n < 2) return n; u32 v = choose(kind, cur_ident(), p_short_ppm, 16); if (!v) return n; note(kind == 's' ? "fault.short_send" : "fault.short_recv"); size_t m = v < 6 ? v : n * v / 17; return m < 1 ? 1 : m > n ? n : m; }
static ssize_t do_send(FP f, const char* p, size_t n) {
    yield_point('K'); if (intr("send")) return -1;
    size_t m = shorten('s', n);
    Hold h;
    if (f->kind != SOCK || f->closed) { errno = EBADF; return -1; }
    if (f->so_error) { errno = f->so_error; f->so_error = 0; return -1; }
    if (f->st != CONNECTED) { errno = f->st == FAILED ? EPIPE : ENOTCONN; return -1; }
    if (f->c->reset || f->c->p[f->side].fin_sent) { errno = EPIPE; return -1; }
    Pipe& o = f->c->p[f->side]; i64 room = window - (i64)(o.flying + o.rcv.size());
    if (f->wr_full || room <= 0) { f->wr_full = true; errno = EAGAIN; return -1; }
    bool cut = m < n; if ((i64)m > room) { m = (size_t)room; cut = true; }
    std::shared_ptr<Conn> c = f->c; int side = f->side; FP peer = c->end[1 - side].lock();
    std::string data(p, m); o.flying += m; o.last = std::max(o.last, now() + latency(mix(c->id, side)));
    fold(mix(hash_bytes(p, m), c->id * 2 + side));
    at(o.last, [c, side, data] { arrive(c, side, data, 0); });
    trace("net: fd %d sends %zu of %zu", f->fd, m, n);
    if (cut) { f->wr_full = true; FP ff = f; at(now() + latency(mix(c->id, 5)), [ff] { if (ff->closed || !ff->c) return; Pipe& q = ff->c->p[ff->side]; if ((i64)(q.flying + q.rcv.size()) < window) { ff->wr_full = false; changed(ff); } }); }
    return (ssize_t)m;
}
static ssize_t do_recv(FP f, char* p, size_t n) {
    yield_point('K'); if (intr("recv")) return -1;
    size_t want = n; { Hold h; if (f->kind == SOCK && f->st == CONNECTED && f->c) want = std::min(n, f->c->p[1 - f->side].rcv.size()); }
    want = shorten('r', want);
    Hold h;
    if (f->kind != SOCK || f->closed) { errno = EBADF; return -1; }
    if (f->so_error) { errno = f->so_error; f->so_error = 0; return -1; }
    if (f->st != CONNECTED) { if (f->st == FAILED) return 0; errno = ENOTCONN; return -1; }
    if (f->c->reset) return 0;
    Pipe& in = f->c->p[1 - f->side];
    if (in.rcv.empty()) { if (in.fin) return 0; errno = EAGAIN; return -1; }
    size_t m = std::min(want ? want : n, in.rcv.size()); memcpy(p, in.rcv.data(), m); in.rcv.erase(0, m); trace("net: fd %d receives %zu of %zu", f->fd, m, n);
    FP peer = f->c->end[1 - f->side].lock(); if (peer && peer->wr_full) { FP pp = peer; at(now() + latency(mix(f->c->id, 6)), [pp] { if (pp->closed || !pp->c) return; Pipe& q = pp->c->p[pp->side]; if ((i64)(q.flying + q.rcv.size()) < window) { pp->wr_full = false; changed(pp); } }); }
    return (ssize_t)m;
}
template <class T> static T real(const char* n) { return (T)dlsym(RTLD_NEXT, n); }
static int addr_port(const sockaddr* a) { return ntohs(a->sa_family == AF_INET6 ? ((const sockaddr_in6*)a)->sin6_port : ((const sockaddr_in*)a)->sin_port); }
static void fill(FP f, int port, sockaddr* a, socklen_t* len) { if (!a || !len) return; if (f->v6) { sockaddr_in6 s; memset(&s, 0, sizeof s); s.sin6_family = AF_INET6; s.sin6_addr = in6addr_loopback; s.sin6_port = htons(port); memcpy(a, &s, std::min<size_t>(*len, sizeof s)); *len = sizeof s; } else { sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(INADDR_LOOPBACK); s.sin_port = htons(port); memcpy(a, &s, std::min<size_t>(*len, sizeof s)); *len = sizeof s; } }
static FP listener(int port, bool v6) { for (auto& p : *files) if (p.second->kind == SOCK && p.second->st == LISTEN && p.second->port == port && p.second->v6 == v6 && (p.second->node < 0 || node_alive(p.second->node))) return p.second; return nullptr; }
}
using namespace simnet;
extern "C" {
int epoll_create1(int) { yield_point('K'); Hold h; return add(EPOLL)->fd; }
int epoll_create(int) { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event* e) {
    yield_point('K'); Hold h; FP p = get(ep), f = get(fd);
    if (!p || !f || p->kind != EPOLL) { errno = EBADF; return -1; }
    auto it = p->items.find(fd);
    if (op == EPOLL_CTL_DEL) { if (it == p->items.end()) { errno = ENOENT; return -1; } p->items.erase(it); p->ready.remove(fd); return 0; }
    if (op == EPOLL_CTL_ADD && it != p->items.end()) { errno = EEXIST; return -1; }
    if (op == EPOLL_CTL_MOD && it == p->items.end()) { errno = ENOENT; return -1; }
    Item& i = p->items[fd]; i.ev = e->events; i.data = e->data;
    if (state(*f) & (i.ev | EPOLLERR | EPOLLHUP)) { if (!i.queued) { i.queued = true; p->ready.push_back(fd); } wake(p.get()); }
    return 0;
}
int epoll_wait(int ep, struct epoll_event* out, int max, int timeout) {
    yield_point('K'); FP p; { Hold h; p = get(ep); } if (!p || p->kind != EPOLL) { errno = EBADF; return -1; }
    if (intr("epoll_wait")) return -1;
    Time dl = timeout < 0 ? -1 : now() + (Time)timeout * MS;
    for (;;) {
        { Hold h; int n = 0; std::list<int> again;
          while (n < max && !p->ready.empty()) {
              int fd = p->ready.front(); p->ready.pop_front(); auto it = p->items.find(fd); FP f = get(fd); if (it == p->items.end() || !f) continue;
              it->second.queued = false; uint32_t r = state(*f) & (it->second.ev | EPOLLERR | EPOLLHUP) & ~EPOLLET; if (!r) continue;
              out[n].events = r; out[n].data = it->second.data; ++n;
              if (!(it->second.ev & EPOLLET)) { it->second.queued = true; again.push_back(fd); }
          }
          p->ready.splice(p->ready.end(), again);
          if (n) { for (int q = 0; q < n; ++q) trace("net: epoll %d returns %x", ep, out[q].events); return n; } }
        if (timeout == 0 || (dl >= 0 && now() >= dl)) return 0;
        park(p.get(), dl);
    }
}
int eventfd(unsigned v, int) { yield_point('K'); Hold h; FP f = add(EVENT); f->count = v; return f->fd; }
int timerfd_create(int, int) { yield_point('K'); Hold h; return add(TIMER)->fd; }
int timerfd_settime(int fd, int flags, const struct itimerspec* n, struct itimerspec* o) {
    yield_point('K'); Hold h; FP f = get(fd); if (!f) { errno = EBADF; return -1; }
    if (o) memset(o, 0, sizeof *o);
    if (f->ev) { cancel_event(f->ev); f->ev = 0; } f->count = 0;
    Time t = (Time)n->it_value.tv_sec * SEC + n->it_value.tv_nsec; if (t == 0) return 0;
    Time when = (flags & TFD_TIMER_ABSTIME) ? t : now() + t;
    f->ev = at(when, [f] { f->ev = 0; f->count = 1; changed(f); });
    return 0;
}
int socket(int domain, int type, int proto) {
    if (!spec) { static auto r = real<int (*)(int, int, int)>("socket"); return r(domain, type, proto); }
    yield_point('K'); if (cur_node() == 0 && fails('o', p_socket_ppm, "socket_fails")) { errno = EMFILE; return -1; }
    Hold h; FP f = add(SOCK); f->v6 = domain == AF_INET6; return f->fd;
}
int setsockopt(int fd, int l, int o, const void* v, socklen_t n) { if (!get(fd)) { static auto r = real<int (*)(int, int, int, const void*, socklen_t)>("setsockopt"); return r(fd, l, o, v, n); } return 0; }
int getsockopt(int fd, int, int o, void* v, socklen_t* n) { Hold h; FP f = get(fd); if (!f) { errno = EBADF; return -1; } int r = 0; if (o == SO_ERROR) { r = f->so_error; f->so_error = 0; } if (v && n && *n >= 4) { memcpy(v, &r, 4); *n = 4; } return 0; }
int bind(int fd, const struct sockaddr* a, socklen_t) { yield_point('K'); Hold h; FP f = get(fd); if (!f) { errno = EBADF; return -1; } f->port = addr_port(a); if (listener(f->port, f->v6)) { errno = EADDRINUSE; return -1; } return 0; }
int listen(int fd, int) { yield_point('K'); Hold h; FP f = get(fd); if (!f) { errno = EBADF; return -1; } if (listener(f->port, f->v6)) { errno = EADDRINUSE; return -1; } f->st = LISTEN; return 0; }
int accept(int fd, struct sockaddr* a, socklen_t* len) {
    yield_point('K'); if (intr("accept")) return -1;
    { Hold h; FP f = get(fd); if (!f || f->st != LISTEN) { errno = f ? EINVAL : EBADF; return -1; } if (f->backlog.empty()) { errno = EAGAIN; return -1; } }
    if (fails('a', p_accept_ppm, "accept_fails")) { Hold h; errno = pick('A', cur_ident(), 2) ? EMFILE : ENOBUFS; return -1; }
    Hold h; FP f = get(fd); if (!f) { errno = EBADF; return -1; } if (f->backlog.empty()) { errno = EAGAIN; return -1; }
    std::shared_ptr<Conn> c = f->backlog.front(); f->backlog.pop_front();
    FP n = add(SOCK); n->v6 = f->v6; n->st = CONNECTED; n->c = c; n->side = 1; n->node = f->node; c->end[1] = n; c->acc = true; if (c->reset) n->so_error = ECONNRESET;
    fill(n, 40000 + (int)c->id, a, len); note("net.accepted"); return n->fd;
}
int accept4(int fd, struct sockaddr* a, socklen_t* len, int) { return accept(fd, a, len); }
int connect(int fd, const struct sockaddr* a, socklen_t l) {
    if (!get(fd)) { static auto r = real<int (*)(int, const struct sockaddr*, socklen_t)>("connect"); return r(fd, a, l); }
    yield_point('K'); Hold h; FP f = get(fd); if (!f) { errno = EBADF; return -1; }
    if (f->st == CONNECTING) { errno = EALREADY; return -1; } if (f->st == CONNECTED) { errno = EISCONN; return -1; }
    int port = addr_port(a); u64 id = ++next_conn; f->st = CONNECTING; f->so_error = 0;
    Time t = now() + latency(mix(id, 9)); u32 bad = faults_on ? choose('c', cur_ident(), p_refuse_ppm, 3) : 0;
    if (bad) { note(bad == 1 ? "fault.connect_refused" : "fault.connect_timeout"); if (bad > 1) t = now() + (bad == 2 ? 200 * MS : 3 * SEC); }
    Time dead = now() + 60 * SEC;
    std::function<void()>* go = new std::function<void()>();
    *go = [f, port, bad, id, dead, go] {
        if (f->closed || f->st != CONNECTING) return;
        FP l = bad ? nullptr : listener(port, f->v6); int to = l ? l->node : port - 9000;
        int ls = link_of && f->node >= 0 ? std::max(link_of(f->node, to), link_of(to, f->node)) : 0;
        if (ls == 1 && now() < dead) { at(now() + 50 * MS, *go); return; }       // lost and sent again
        if (ls) { f->st = FAILED; f->so_error = ls == 1 ? ETIMEDOUT : EHOSTUNREACH; changed(f); return; }
        if (!l) { f->st = FAILED; f->so_error = bad > 1 ? ETIMEDOUT : ECONNREFUSED; changed(f); return; }
        std::shared_ptr<Conn> c = std::make_shared<Conn>(); c->id = id; c->est = true; c->end[0] = f; if (link_of) { c->node[0] = f->node; c->node[1] = to; } (*conns)[id] = c; f->c = c; f->side = 0; f->st = CONNECTED;
        l->backlog.push_back(c); note("net.connected"); changed(f); changed(l); };
    at(t, *go);
    errno = EINPROGRESS; return -1;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* len) { Hold h; FP f = get(fd); if (!f) { errno = EBADF; return -1; } fill(f, f->port, a, len); return 0; }
int getpeername(int fd, struct sockaddr* a, socklen_t* len) { Hold h; FP f = get(fd); if (!f || !f->c || f->c->reset) { errno = f ? ENOTCONN : EBADF; return -1; } fill(f, 40000 + (int)f->c->id, a, len); return 0; }
int shutdown(int fd, int how) { yield_point('K'); Hold h; FP f = get(fd); if (!f || !f->c || f->c->reset) { errno = f ? ENOTCONN : EBADF; return -1; } if (how != SHUT_RD) send_fin(f->c, f->side); if (how != SHUT_WR) f->c->p[1 - f->side].fin = true; changed(f); return 0; }
ssize_t send(int fd, const void* p, size_t n, int fl) { FP f = get(fd); if (!f) { static auto r = real<ssize_t (*)(int, const void*, size_t, int)>("send"); return r(fd, p, n, fl); } return do_send(f, (const char*)p, n); }
ssize_t recv(int fd, void* p, size_t n, int fl) { FP f = get(fd); if (!f) { static auto r = real<ssize_t (*)(int, void*, size_t, int)>("recv"); return r(fd, p, n, fl); } return do_recv(f, (char*)p, n); }
ssize_t sendmsg(int fd, const struct msghdr* m, int fl) { FP f = get(fd); if (!f) { static auto r = real<ssize_t (*)(int, const struct msghdr*, int)>("sendmsg"); return r(fd, m, fl); } std::string s; { Hold h; for (size_t i = 0; i < m->msg_iovlen; ++i) s.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); } return do_send(f, s.data(), s.size()); }
ssize_t recvmsg(int fd, struct msghdr* m, int fl) { FP f = get(fd); if (!f) { static auto r = real<ssize_t (*)(int, struct msghdr*, int)>("recvmsg"); return r(fd, m, fl); } for (size_t i = 0; i < m->msg_iovlen; ++i) if (m->msg_iov[i].iov_len) return do_recv(f, (char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return 0; }
ssize_t write(int fd, const void* p, size_t n) {
    int h = 0; ssize_t k = simfs_write(fd, p, n, &h); if (h) return k;
    FP f = get(fd); if (!f) { static auto r = real<ssize_t (*)(int, const void*, size_t)>("write"); return r(fd, p, n); }
    if (f->kind == SOCK) return do_send(f, (const char*)p, n);
    yield_point('K'); Hold hh; u64 v = 0; if (n < 8) { errno = EINVAL; return -1; } memcpy(&v, p, 8); f->count += v; changed(f); return 8;
}
ssize_t read(int fd, void* p, size_t n) {
    int h = 0; ssize_t k = simfs_read(fd, p, n, &h); if (h) return k;
    FP f = get(fd); if (!f) { static auto r = real<ssize_t (*)(int, void*, size_t)>("read"); return r(fd, p, n); }
    if (f->kind == SOCK) return do_recv(f, (char*)p, n);
    yield_point('K'); Hold hh; if (!f->count) { errno = EAGAIN; return -1; } if (n < 8) { errno = EINVAL; return -1; } memcpy(p, &f->count, 8); f->count = 0; return 8;
}
int close(int fd) {
    int h = 0; int k = simfs_close(fd, &h); if (h) return k;
    if (!get(fd)) { static auto r = real<int (*)(int)>("close"); return r(fd); }
    yield_point('K'); Hold hh; FP f = get(fd); if (!f) { errno = EBADF; return -1; } shut(f); return 0;
}
int poll(struct pollfd* p, nfds_t n, int t) {
    if (!(n == 1 && (get(p->fd) || (p->fd >= 100000 && p->fd < 200000)))) { static auto r = real<int (*)(struct pollfd*, nfds_t, int)>("poll"); return r(p, n, t); }
    FP f = get(p->fd); if (!f) { p->revents = p->events; return 1; }
    yield_point('K'); Time dl = t < 0 ? -1 : now() + (Time)t * MS;
    for (;;) { { Hold h; p->revents = (short)(state(*f) & (p->events | POLLERR | POLLHUP)); if (p->revents) return 1; } if (t == 0 || (dl >= 0 && now() >= dl)) return 0; park(f.get(), dl); }
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); if (fd >= 100000) return 0; static auto r = real<int (*)(int, int, ...)>("fcntl"); return r(fd, cmd, a); }
int getaddrinfo(const char* host, const char* serv, const struct addrinfo*, struct addrinfo** out) {
    yield_point('K'); if (cur_fiber() >= 0) { Time d; { Hold h; d = latency(mix(cur_ident(), 4)); } sleep_until(now() + d); }
    if (fails('g', p_resolve_ppm, "resolve_fails")) return EAI_AGAIN;
    Hold h; if (host && !strncmp(host, "nohost", 6)) return EAI_NONAME;
    int port = serv ? atoi(serv) : 0; struct addrinfo* head = nullptr;
    auto mk = [&](bool v6) { struct addrinfo* a = (struct addrinfo*)calloc(1, sizeof(struct addrinfo) + sizeof(sockaddr_in6)); a->ai_family = v6 ? AF_INET6 : AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_protocol = IPPROTO_TCP; a->ai_addr = (struct sockaddr*)(a + 1); FP f = std::make_shared<File>(); f->v6 = v6; a->ai_addrlen = sizeof(sockaddr_in6); fill(f, port, a->ai_addr, &a->ai_addrlen); return a; };
    head = mk(false); if (v6_first) { struct addrinfo* s = mk(true); s->ai_next = head; head = s; }
    *out = head; return 0;
}
void freeaddrinfo(struct addrinfo* a) { while (a) { struct addrinfo* n = a->ai_next; free(a); a = n; } }
}
