// The file log store on a simulated file system against a list model.
//   C15: no faults, several buffer sizes, reopening, concurrent readers and appenders
//   C16: file operations fail, are short, or the disk is full
//   C23: the process is killed at any point of any operation and the store opened again
#include "harness.h"
#include "simfs.h"
#include "cornerstone.hxx"
#include "fs_log_store.hxx"
#include <algorithm>
#include <cstring>
#include <set>
using namespace rt;
namespace cs = cornerstone;
using cs::ptr; using cs::log_entry; using cs::fs_log_store; using cs::bufptr; using cs::buffer;

void gen_logstore(RunSpec& s) {
    Rng r(mix(mix(s.seed, hash_bytes(s.prop.data(), s.prop.size())), 77));
    auto& c = s.cfg; const std::string& P = s.prop;
    auto one = [&](std::initializer_list<i64> l) { auto it = l.begin(); std::advance(it, r.below(l.size())); return *it; };
    c["buf"] = one({-1, 0, 1, 2, 3, 5, 8, 20, 1000}); c["buf2"] = one({-1, 1, 2, 4, 1000});
    c["p_preempt"] = one({0, 5000, 50000, 200000}); c["p_mem"] = one({0, 0, 1000, 20000}); c["p_pick"] = one({0, 200000, 500000});
    if (P == "C15") { c["readers"] = one({0, 0, 1, 2, 3}); if (!c["readers"]) c["p_preempt"] = c["p_mem"] = 0; }
    if (P == "C16") { c["p_fail"] = one({2000, 10000, 30000, 100000, 300000}); c["p_short"] = one({0, 0, 50000, 300000}); c["p_preempt"] = c["p_mem"] = 0; }
    if (P == "C23") { c["p_tear"] = one({0, 200000, 600000}); c["p_preempt"] = c["p_mem"] = 0; }
    int n = (int)r.range(4, 26); i64 big = one({0, 0, 0, 1, 2});
    auto size = [&]() -> i64 { int k = (int)r.below(12); if (big && k < 2) return one({4000, 8180, 8183, 8192, 16000, 32757, 32758, 32760, 33000, 70000}); return k < 4 ? r.range(0, 3) : k < 10 ? r.range(1, 40) : r.range(40, 300); };
    i64 t = 0; bool two = r.chance(50);
    for (int i = 0; i < n; ++i) {
        i64 st = two && r.chance(35) ? 1 : 0; Step x; x.t = t++;
        if (P == "C16" && r.chance(12)) { x.op = "full"; x.a = {r.chance(60) ? (i64)r.below(200) : r.chance(50) ? (i64)r.below(3000) : -1}; s.plan.push_back(x); x.t = t++; x.a.clear(); }
        if (P == "C23" && r.chance(45)) { x.op = "kill"; x.a = {(i64)r.below(one({4, 12, 40, 90}))}; s.plan.push_back(x); x.t = t++; x.a.clear(); }
        int k = (int)r.below(100);
        if (k < 36) { x.op = "append"; x.a = {st, (i64)r.range(1, r.chance(20) ? 30 : 4), size(), (i64)r.below(1000000)}; }
        else if (k < 56) { x.op = "write"; x.a = {st, r.chance(30) ? 1000 : r.chance(30) ? 999 : (i64)r.below(1001), size(), (i64)r.below(1000000)}; }
        else if (k < 66 && two) { x.op = "pack"; x.a = {st, (i64)r.below(1001), (i64)r.range(1, 12), r.chance(50) ? 1000 : (i64)r.below(1001)}; }
        else if (k < 78) { x.op = "compact"; x.a = {st, r.chance(15) ? 1000 + (i64)r.below(20) : (i64)r.below(1001)}; }
        else if (k < 90) { x.op = "reopen"; x.a = {st, one({-1, 0, 1, 2, 3, 7, 50}), r.chance(50)}; }
        else if (k < 94 && P == "C15") { x.op = "par"; x.a = {st, (i64)r.range(2, 3), (i64)r.range(1, 5)}; }
        else { x.op = "read"; x.a = {st, (i64)r.below(1000000), (i64)r.range(1, 12)}; }
        s.plan.push_back(x);
    }
}
namespace ls {
struct Ent { u64 term = 0; int type = 0; std::string data; bool operator==(const Ent& o) const { return term == o.term && type == o.type && data == o.data; } };
typedef std::shared_ptr<Ent> EP;
struct Log { u64 start = 1; std::vector<EP> e; u64 next() const { return start + e.size(); } const Ent* at(u64 i) const { return i >= start && i < next() ? e[i - start].get() : nullptr; }
    bool same(const Log& o) const { if (start != o.start || e.size() != o.e.size()) return false; for (size_t i = 0; i < e.size(); ++i) if (!(*e[i] == *o.e[i])) return false; return true; } };
struct Window { u64 min_next, max_next, min_start, max_start; };
struct St { std::string dir; int buf = 10; fs_log_store* s = nullptr; std::vector<Log> cand; bool broken = false; u64 fault_mark = 0; std::map<u64, std::vector<EP>> hist; std::vector<Window*> wins; std::vector<std::pair<u64, u64>> inflight; };
static St S[2];
static std::string prop; static std::string D(i64 x) { return std::to_string(x); }
static void bad(const std::string& cls, const std::string& msg) { violation(prop.c_str(), cls, msg); }
static std::string show(const Ent* e) { if (!e) return "none"; return "(term " + D((i64)e->term) + " type " + D(e->type) + " " + D((i64)e->data.size()) + " bytes)"; }
static EP from(log_entry& le) { EP e = std::make_shared<Ent>(); e->term = le.get_term(); e->type = (int)le.get_val_type(); buffer& b = le.get_buf(); size_t p = b.pos(); b.pos(0); e->data.assign((const char*)b.data(), b.size()); b.pos(p); return e; }
static ptr<log_entry> to(const Ent& e) { bufptr b = buffer::alloc(e.data.size()); if (!e.data.empty()) memcpy(b->data(), e.data.data(), e.data.size()); b->pos(0); return cs::cs_new<log_entry>(e.term, std::move(b), (cs::log_val_type)e.type); }
static EP make(u64 seed, i64 size) { Rng r(mix(seed, 99)); EP e = std::make_shared<Ent>(); e->term = r.chance(20) ? r.next() : r.below(1000); e->type = 1 + (int)r.below(5); for (i64 i = 0; i < size; ++i) e->data.push_back((char)(r.chance(15) ? 0 : r.below(256))); return e; }
enum Res { OK, REFUSED, THREW, KILLED };
struct Call { Res r = OK; std::string what; };
static void after_kill() { Hold h; trace("process killed"); note("fault.process_kill"); revive_node(0); simfs::close_all(0); for (auto& st : S) st.s = nullptr; }
// runs fn as a thread of the simulated process
static Call call(const char* name, std::function<bool()> fn, std::vector<std::function<void()>> others = {}) {
    Call c; Call* cp = &c; std::vector<int> ids; bool dead = false;
    auto* f = new std::function<bool()>(std::move(fn));
    ids.push_back(spawn(0, name, [f, cp] { try { cp->r = (*f)() ? OK : REFUSED; } catch (std::exception& e) { Hold h; cp->r = THREW; cp->what = e.what(); } }));
    for (auto& o : others) ids.push_back(spawn(0, "reader", o));
    int stuck = 0; Time step = 10 * US;
    for (;;) { bool all = true; for (int id : ids) all = all && fiber_done(id); if (!node_alive(0)) { dead = true; break; } if (all) break; sleep_until(now() + step); step = std::min<Time>(step * 2, 2 * MS); if (++stuck > 100000) { bad("hang", std::string(name) + " does not return"); stop_run(); } }
    if (dead) { c.r = KILLED; after_kill(); }
    return c;
}
static void widen(Window* w, u64 start, u64 next) { w->min_next = std::min(w->min_next, next); w->max_next = std::max(w->max_next, next); w->min_start = std::min(w->min_start, start); w->max_start = std::max(w->max_start, start); }
// states an operation in progress may already show
static void win(St& st, u64 start, u64 next) { Hold h; st.inflight.push_back({start, next}); for (Window* w : st.wins) widen(w, start, next); }
static void learn(St& st, u64 idx, EP e) { Hold h; st.hist[idx].push_back(e); }
static bool was(St& st, u64 idx, const Ent& e) { Hold h; auto it = st.hist.find(idx); if (it == st.hist.end()) return false; for (auto& x : it->second) if (*x == e) return true; return false; }
static void uniq(std::vector<Log>& v) { std::vector<Log> o; for (auto& l : v) { bool dup = false; for (auto& x : o) if (x.same(l)) { dup = true; break; } if (!dup) o.push_back(l); } v.swap(o); }
static bool faulty(St& st) { return st.broken || simfs::faults() != st.fault_mark; }

// ---- reads while other threads may write (fault free)
static void reader_body(St* st, u64 seed, int n) {
    Rng r(seed);
    for (int i = 0; i < n; ++i) {
        Window w; { Hold h; const Log& m = st->cand[0]; w = {m.next(), m.next(), m.start, m.start}; for (auto& p : st->inflight) widen(&w, p.first, p.second); st->wins.push_back(&w); }
        u64 lo = w.min_start, hi = w.max_next; u64 a = lo + r.below(hi - lo + 2), b = a + r.below(8);
        if (r.chance(30) && a > 1) --a;
        int k = (int)r.below(6); std::string what; const char* ops[] = {"entry_at", "term_at", "log_entries", "next_slot", "start_index", "last_entry"};
        try {
            if (k == 0) { ptr<log_entry> e = st->s->entry_at(a); Hold h; if (!e) { if (a < w.min_next) what = "no entry at " + D((i64)a) + " although the log never ended before " + D((i64)w.min_next); } else { EP x = from(*e); if (!was(*st, a, *x)) what = "entry " + show(x.get()) + " at " + D((i64)a) + " was never there"; } }
            else if (k == 1) { u64 t = st->s->term_at(a); Hold h; if (a >= w.max_start && a < w.min_next) { bool ok = false; for (auto& x : st->hist[a]) ok = ok || x->term == t; if (!ok) what = "term " + D((i64)t) + " at " + D((i64)a) + " was never there"; } }
            else if (k == 2) {
                ptr<std::vector<ptr<log_entry>>> v = st->s->log_entries(a, b); Hold h;
                if (!v) { if (a < b && a < w.min_next) what = "no entries in [" + D((i64)a) + "," + D((i64)b) + ") although the log never ended before " + D((i64)w.min_next); }
                else { if (a + v->size() < std::min(b, w.min_next) || a + v->size() > std::min(b, w.max_next)) what = D((i64)v->size()) + " entries for [" + D((i64)a) + "," + D((i64)b) + ") while the log ended between " + D((i64)w.min_next) + " and " + D((i64)w.max_next);
                    for (size_t q = 0; q < v->size() && what.empty(); ++q) { if (!(*v)[q]) what = "no entry in place of " + D((i64)(a + q)); else { EP x = from(*(*v)[q]); if (!was(*st, a + q, *x)) what = "entry " + show(x.get()) + " at " + D((i64)(a + q)) + " was never there"; } } } }
            else if (k == 3) { u64 x = st->s->next_slot(); Hold h; if (x < w.min_next || x > w.max_next) what = "next slot " + D((i64)x); }
            else if (k == 4) { u64 x = st->s->start_index(); Hold h; if (x < w.min_start || x > w.max_start) what = "start " + D((i64)x); }
            else { ptr<log_entry> e = st->s->last_entry(); Hold h; EP x = from(*e); bool ok = w.min_next <= w.max_start && x->term == 0; for (u64 q = w.min_next ? w.min_next - 1 : 0; q < w.max_next && !ok; ++q) ok = was(*st, q, *x); if (!ok) what = "last entry " + show(x.get()); }
        } catch (std::range_error& e) { Hold h; if (!(k <= 2 && (a < w.max_start || a >= w.min_next))) what = std::string("range error: ") + e.what(); }
        catch (std::exception& e) { Hold h; if (!(k == 1 && a >= w.min_next)) what = std::string("exception: ") + e.what(); }
        Hold h; note("op.concurrent_read");
        st->wins.erase(std::find(st->wins.begin(), st->wins.end(), &w));
        if (!what.empty()) { bad(std::string("read-") + ops[k], std::string(ops[k]) + "(" + D((i64)a) + (k == 2 ? "," + D((i64)b) : "") + "): " + what); return; }
    }
}
static std::vector<std::function<void()>> readers(St* st, u64 seed) { std::vector<std::function<void()>> v; int n = (int)cfg("readers"); for (int i = 0; i < n; ++i) v.push_back([st, seed, i] { reader_body(st, mix(seed, i), 6); }); return v; }

// ---- what the store shows now, as a list
static bool observe(St& st, Log& out, std::string& err) {
    fs_log_store& s = *st.s;
    out = Log(); out.start = s.start_index(); u64 nx = s.next_slot();
    if (nx < out.start || nx - out.start > 100000) { err = "start " + D((i64)out.start) + " next " + D((i64)nx); return false; }
    for (u64 i = out.start; i < nx; ++i) { ptr<log_entry> e = s.entry_at(i); if (!e) { err = "no entry at " + D((i64)i); return false; } out.e.push_back(from(*e)); }
    // the other queries have to say the same
    if (s.entry_at(nx)) { err = "an entry at the next slot " + D((i64)nx); return false; }
    Ent dummy; EP last = from(*s.last_entry()); if (out.e.empty() ? last->term != 0 : !(*last == *out.e.back())) { err = "last_entry " + show(last.get()) + " instead of " + show(out.e.empty() ? nullptr : out.e.back().get()); return false; }
    for (u64 i = out.start; i < nx; ++i) { u64 t = s.term_at(i); if (t != out.at(i)->term) { err = "term_at(" + D((i64)i) + ")=" + D((i64)t) + " instead of " + D((i64)out.at(i)->term); return false; } }
    auto v = s.log_entries(out.start, nx);
    if (out.e.empty() ? (v && !v->empty()) : (!v || v->size() != out.e.size())) { err = "log_entries of the whole log gives " + D(v ? (i64)v->size() : -1) + " of " + D((i64)out.e.size()) + " entries"; return false; }
    for (size_t i = 0; i < out.e.size(); ++i) { if (!(*v)[i] || !(*from(*(*v)[i]) == *out.e[i])) { err = "log_entries differs from entry_at at " + D((i64)(out.start + i)); return false; } }
    for (int q = 0; q < 4 && !out.e.empty(); ++q) { u64 a = out.start + pick('a', 1, (u32)out.e.size()), b = a + 1 + pick('b', 1, 6); auto w = s.log_entries(a, b); size_t want = std::min(b, nx) - a; if (!w || w->size() != want) { err = "log_entries(" + D((i64)a) + "," + D((i64)b) + ") gives " + D(w ? (i64)w->size() : -1) + " entries instead of " + D((i64)want); return false; } for (size_t i = 0; i < want; ++i) if (!(*w)[i] || !(*from(*(*w)[i]) == *out.at(a + i))) { err = "log_entries(" + D((i64)a) + "," + D((i64)b) + ") differs at " + D((i64)(a + i)); return false; } }
    if (out.start > 1) { bool threw = false; try { if (s.entry_at(out.start - 1)) { err = "an entry before the start index"; return false; } } catch (std::range_error&) { threw = true; } (void)threw; }
    return true;
}
static std::string diff(const Log& a, const Log& b) {
    if (a.start != b.start) return "start index " + D((i64)a.start) + " instead of " + D((i64)b.start);
    if (a.e.size() != b.e.size()) return "ends at " + D((i64)a.next()) + " instead of " + D((i64)b.next());
    for (size_t i = 0; i < a.e.size(); ++i) if (!(*a.e[i] == *b.e[i])) return "entry " + D((i64)(a.start + i)) + " is " + show(a.e[i].get()) + " instead of " + show(b.e[i].get());
    return "same";
}
// compare with the candidates; resolve (only after reopening) to the one observed
static void compare(St& st, const char* when, bool resolve) {
    if (!st.s || violated()) return;
    bool fo = simfs::faults_on; simfs::faults_on = false; Log o; std::string err; bool ok = false;
    Call c = call("check", [&] { ok = observe(st, o, err); return true; });
    simfs::faults_on = fo;
    if (c.r == THREW) { if (!faulty(st) || resolve) bad(std::string("throws-") + when, std::string("a query ") + when + " throws " + c.what); return; }
    if (c.r == KILLED) return;
    if (!ok) { bad(std::string("wrong-") + when, std::string(when) + ": " + err); return; }
    for (auto& l : st.cand) if (l.same(o)) { if (resolve) { Log k = l; st.cand.assign(1, k); } return; }
    bad(std::string("differs-") + when, std::string(when) + ": " + diff(o, st.cand[0]) + (st.cand.size() > 1 ? " (and differs from all other allowed outcomes)" : ""));
}
static void open(St& st, int buf, bool with_faults) {
    for (int tries = 0; tries < 40; ++tries) {
        bool fo = simfs::faults_on; i64 sp = simfs::space_left; if (!with_faults || tries >= 3) { simfs::faults_on = false; simfs::space_left = -1; }
        u64 f0 = simfs::faults(); fs_log_store* ns = nullptr;
        Call c = call("open", [&] { ns = new fs_log_store(st.dir, buf); return true; });
        bool clean = simfs::faults() == f0; simfs::faults_on = fo; if (tries >= 3) {} else simfs::space_left = sp;
        if (c.r == KILLED) continue;
        if (c.r == THREW) { if (clean) { bad("cannot-open", "the store cannot be opened: " + c.what); return; } continue; }
        st.s = ns; st.buf = buf; st.broken = !clean; st.fault_mark = simfs::faults(); return;
    }
}
static void reopen(St& st, int buf, bool close_first, bool with_faults) {
    if (st.s) { fs_log_store* s = st.s; Call c = call("close", [&] { if (close_first) s->close(); delete s; return true; }); st.s = nullptr; if (c.r == THREW) bad("close-throws", "closing throws " + c.what); }
    open(st, buf, with_faults);
}
// after an operation on st with possible new states `applied` (always includes what it was before unless it succeeded)
static void settle(St& st, const char* op, const Call& c, std::vector<Log> done, std::vector<Log> partial, bool compact) {
    note((std::string("op.") + op + (c.r == OK ? "" : c.r == KILLED ? ".killed" : ".failed")).c_str());
    trace("%s %s [%llu,%llu) idx %zu dat %zu -> %s %s", st.dir.c_str(), op, (unsigned long long)st.cand[0].start, (unsigned long long)st.cand[0].next(), simfs::content(st.dir + "/store.idx").size(), simfs::content(st.dir + "/store.dat").size(), c.r == OK ? "ok" : c.r == REFUSED ? "refused" : c.r == THREW ? "threw" : "killed", c.what.c_str());
    if (c.r == OK) { st.cand = done; uniq(st.cand); return; }
    if ((c.r == THREW || c.r == REFUSED) && !faulty(st)) { bad(std::string("fails-") + op, std::string(op) + " fails without any fault: " + c.what); return; }
    if (c.r == KILLED || !compact) { for (auto& l : done) st.cand.push_back(l); for (auto& l : partial) st.cand.push_back(l); }
    uniq(st.cand);
    if (c.r == KILLED) return;
    if (c.r == THREW) st.broken = true;
    compare(st, "after-failure", false);
}
static u64 sel(const Log& l, i64 rel) { return l.start + (u64)rel * l.e.size() / 1000; }
static void exec(const Step& x) {
    if (x.op == "full") { simfs::space_left = x.a[0]; return; }
    if (x.op == "kill") { arm_kill(0, (u64)x.a[0], [] { kill_node(0); }); return; }
    St& st = S[x.a[0] & 1];
    if (!st.s) open(st, st.buf, false), compare(st, "after-crash", true);
    for (auto& o : S) if (!o.s && node_alive(0)) { open(o, o.buf, false); compare(o, "after-crash", true); }
    if (violated() || !st.s) return;
    state_seen(mix(mix(hash_bytes(x.op.data(), x.op.size()), std::min<size_t>(st.cand[0].e.size(), 12)), mix((u64)std::min<i64>(st.buf, 9), mix(st.cand.size() > 3 ? 3 : st.cand.size(), (st.broken ? 2 : 0) + (st.cand[0].start > 1)))));
    simfs::faults_on = cfg("p_fail") || cfg("p_short");
    if (x.op == "append") {
        for (i64 i = 0; i < x.a[1] && st.s && !violated(); ++i) {
            EP e = make((u64)x.a[3] + i, i ? x.a[2] / (i + 1) : x.a[2]); std::vector<Log> done = st.cand; for (auto& l : done) { learn(st, l.next(), e); l.e.push_back(e); }
            u64 idx = 0;
            St* sp = &st; auto rd = readers(sp, mix((u64)x.a[3], i)); u64 hi = done[0].next();
            std::vector<Log> before = st.cand;
            Call c = call("append", [&] { ptr<log_entry> le = to(*e); { Hold h; win(*sp, before[0].start, hi); } idx = sp->s->append(le); Hold h; sp->cand = done; sp->inflight.clear(); return true; }, rd);
            st.inflight.clear(); if (c.r != OK) st.cand = before;
            if (c.r == OK) { std::vector<Log> keep; for (auto& l : done) if (l.next() - 1 == idx) keep.push_back(l); if (keep.empty()) { bad("append-index", "append returned index " + D((i64)idx) + " instead of " + D((i64)done[0].next() - 1)); return; } done = keep; }
            settle(st, "append", c, done, {}, false);
            if (c.r != OK) break;
        }
    } else if (x.op == "write") {
        u64 idx = sel(st.cand[0], x.a[1]); EP e = make((u64)x.a[3], x.a[2]);
        std::vector<Log> done, part, before = st.cand; for (auto& l : st.cand) { if (idx < l.start || idx > l.next()) continue; Log p = l; p.e.resize(idx - l.start); part.push_back(p); Log d = p; learn(st, idx, e); d.e.push_back(e); done.push_back(d); }
        St* sp = &st; u64 cut = idx;
        Call c = call("write_at", [&] { ptr<log_entry> le = to(*e); { Hold h; win(*sp, before[0].start, cut); win(*sp, before[0].start, cut + 1); } sp->s->write_at(idx, le); Hold h; sp->cand = done; sp->inflight.clear(); return true; }, readers(sp, (u64)x.a[3]));
        st.inflight.clear(); if (c.r != OK) st.cand = before;
        settle(st, "write_at", c, done, part, false);
    } else if (x.op == "pack") { // from the other store
        St& src = S[1 - (x.a[0] & 1)]; if (!src.s || src.cand.size() > 1 || src.broken) return;
        const Log sl = src.cand[0]; if (sl.e.empty()) return;
        u64 from_i = std::min(sel(sl, x.a[1]), sl.next() - 1), cnt = std::min<u64>((u64)x.a[2], sl.next() - from_i); u64 idx = sel(st.cand[0], x.a[3]);
        std::vector<EP> es; for (u64 i = 0; i < cnt; ++i) es.push_back(sl.e[from_i - sl.start + i]);
        std::vector<Log> done, part, before = st.cand; for (auto& l : st.cand) { if (idx < l.start || idx > l.next()) continue; Log p = l; p.e.resize(idx - l.start); part.push_back(p); for (u64 i = 0; i < cnt; ++i) { learn(st, idx + i, es[i]); p.e.push_back(es[i]); if (i + 1 < cnt) part.push_back(p); } done.push_back(p); }
        bufptr* pk = new bufptr(buffer::alloc(0)); i64 ask = x.a[2];
        Call c = call("pack", [&] { *pk = src.s->pack(from_i, (int)ask); return true; });
        if (c.r != OK) { if (c.r == KILLED) { note("op.pack.killed"); return; } if (c.r == THREW && !faulty(src)) bad("fails-pack", "pack fails without any fault: " + c.what); src.broken = true; return; }
        St* sp = &st;
        c = call("apply_pack", [&] { { Hold h; for (u64 q = idx; q <= idx + cnt; ++q) win(*sp, before[0].start, q); } sp->s->apply_pack(idx, **pk); Hold h; sp->cand = done; sp->inflight.clear(); return true; }, readers(sp, (u64)x.a[1] + 5));
        st.inflight.clear(); if (c.r != OK) st.cand = before;
        settle(st, "apply_pack", c, done, part, false);
    } else if (x.op == "compact") {
        const Log l0 = st.cand[0]; u64 idx = x.a[1] >= 1000 ? l0.next() - 1 + (u64)(x.a[1] - 1000) : sel(l0, x.a[1]); if (idx < l0.start) idx = l0.start; if (x.a[1] < 1000 && idx >= l0.next() && idx > l0.start) idx = l0.next() - 1;
        std::vector<Log> done, before = st.cand; for (auto& l : st.cand) { if (idx < l.start) continue; Log d = l; u64 k = std::min<u64>(idx - l.start + 1, l.e.size()); d.e.erase(d.e.begin(), d.e.begin() + k); d.start = idx + 1; done.push_back(d); }
        St* sp = &st;
        Call c = call("compact", [&] { { Hold h; win(*sp, idx + 1, done[0].next()); win(*sp, before[0].start, before[0].next()); } bool ok = sp->s->compact(idx); Hold h; if (ok) sp->cand = done; sp->inflight.clear(); return ok; }, readers(sp, (u64)x.a[1] + 9));
        st.inflight.clear(); if (c.r != OK) st.cand = before;
        settle(st, "compact", c, done, {}, true);
        if ((c.r == REFUSED || c.r == THREW) && !violated()) { reopen(st, st.buf, true, false); if (st.s) compare(st, "after-failed-compaction", true); }
    } else if (x.op == "reopen") {
        bool wf = cfg("p_fail") && x.a[2];
        reopen(st, (int)x.a[1], x.a[2], wf); note("op.reopen");
        if (st.s) { if (st.broken) reopen(st, (int)x.a[1], x.a[2], false); if (st.s && !violated()) compare(st, "after-reopen", true); }
    } else if (x.op == "par") { // several threads append
        if (st.cand.size() > 1) return; int k = (int)x.a[1], n = (int)x.a[2]; Log m = st.cand[0]; std::vector<std::vector<std::pair<u64, EP>>> got(k); St* sp = &st; std::vector<std::function<void()>> fs;
        for (int q = 0; q < k; ++q) fs.push_back([&, q] { for (int i = 0; i < n; ++i) { EP e = make(mix((u64)x.t, q * 100 + i), 5 + i); ptr<log_entry> le = to(*e); u64 idx = sp->s->append(le); Hold h; got[q].push_back({idx, e}); } });
        Call c = call("par", [] { return true; }, fs);
        if (c.r != OK) return;
        std::map<u64, EP> all; for (auto& v : got) { u64 prev = 0; for (auto& p : v) { if (all.count(p.first)) { bad("append-index", "two appends returned index " + D((i64)p.first)); return; } if (p.first <= prev) { bad("append-index", "appends of one thread are out of order"); return; } prev = p.first; all[p.first] = p.second; learn(st, p.first, p.second); } }
        for (auto& p : all) { if (p.first != m.next()) { bad("append-index", "concurrent appends left index " + D((i64)m.next()) + " out"); return; } m.e.push_back(p.second); }
        st.cand.assign(1, m); note("op.par_append", all.size());
    } else if (x.op == "read") { // queries while faults are injected
        Rng r((u64)x.a[1]); Log l = st.cand[0]; std::vector<Log> cands = st.cand; St* sp = &st;
        for (i64 i = 0; i < x.a[2] && !violated() && st.s; ++i) {
            u64 a = l.start + r.below(l.e.size() + 1), b = a + 1 + r.below(5); int k = (int)r.below(3); std::string what;
            auto may = [&](u64 idx, const Ent* e) { for (auto& c : cands) { const Ent* x = c.at(idx); if ((!x && !e) || (x && e && *x == *e)) return true; } return false; };
            Call c = call("read", [&] {
                if (k == 0) { ptr<log_entry> e = sp->s->entry_at(a); Hold h; EP q = e ? from(*e) : nullptr; if (!may(a, q.get())) what = "entry_at(" + D((i64)a) + ") gives " + show(q.get()); }
                else if (k == 1) { if (a >= l.next()) return true; u64 t = sp->s->term_at(a); bool ok = false; for (auto& c : cands) ok = ok || (c.at(a) && c.at(a)->term == t); Hold h; if (!ok) what = "term_at(" + D((i64)a) + ") gives " + D((i64)t); }
                else { auto v = sp->s->log_entries(a, b); Hold h; if (v) for (size_t q = 0; q < v->size(); ++q) { EP z = (*v)[q] ? from(*(*v)[q]) : nullptr; if (!z || !may(a + q, z.get())) what = "log_entries(" + D((i64)a) + "," + D((i64)b) + ") gives " + show(z.get()) + " at " + D((i64)(a + q)); } }
                return true; });
            note(c.r == OK ? "op.read" : "op.read.failed");
            if (c.r == KILLED) return;
            if (c.r == THREW) { if (!faulty(st)) bad("fails-read", "a query fails without any fault: " + c.what); st.broken = true; }
            if (!what.empty()) bad("wrong-read", what);
        }
    }
    simfs::faults_on = false;
    if (violated()) return;
    if (st.s && !faulty(st)) compare(st, "after-operation", false);
    // a store that failed is closed and opened again, now or a little later
    if (st.s && (st.broken || st.cand.size() > 12) && (pick('o', 1, 10) < 7 || st.cand.size() > 12)) { reopen(st, st.buf, pick('o', 2, 2), false); if (st.s) compare(st, "after-reopen", true); }
}
static void on_term(const char* why) { violation(prop.c_str(), "terminated", why); stop_run(); }
static void run() {
    prop = spec->prop; if (prop != "C16" && prop != "C23") prop = "C15";
    on_terminate = on_term; step_limit = 20000000;
    p_preempt_ppm = (u32)cfg("p_preempt"); p_mem_ppm = (u32)cfg("p_mem"); p_pick_ppm = (u32)cfg("p_pick");
    simfs::p_fail_ppm = (u32)cfg("p_fail"); simfs::p_short_ppm = (u32)cfg("p_short"); simfs::p_tear_ppm = (u32)cfg("p_tear");
    run_main([] {
        for (int i = 0; i < 2; ++i) { S[i].dir = "/sim/" + std::string(i ? "b" : "a"); S[i].cand.assign(1, Log()); S[i].buf = (int)cfg(i ? "buf2" : "buf"); open(S[i], S[i].buf, false); }
        for (auto& x : spec->plan) { if (violated()) break; exec(x); }
        arm_kill(0, 1000000000, [] {});
        for (auto& st : S) if (!violated()) { reopen(st, st.buf, true, false); if (st.s) compare(st, "at-the-end", true); }
        heap_check("end");
        stop_run();
    });
}
}
void run_logstore() { ls::run(); }
