// Driver: runs, batches, replays and minimises simulated executions. Each run is one forked child.
#include "harness.h"
#include "shm.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace rt;

static Harness* find(const std::string& n) { for (int i = 0; i < n_harnesses; ++i) if (n == harnesses[i].name) return &harnesses[i]; return nullptr; }
static double wall() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec / 1e9; }

static void map_shm() { shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (shm == MAP_FAILED) { perror("mmap"); _exit(3); } }
static void reset_shm() { madvise(shm, sizeof(Shm), MADV_REMOVE); shm->nviol = 0; shm->err = 0; shm->finished = 0; shm->nnotes = 0; shm->nstates = 0; shm->ndecs = 0; shm->decs_overflow = 0; shm->hash = 0; shm->steps = 0; shm->vtime = 0; }

// runs the spec in a child; results in shm
static void run_child(RunSpec& s, bool record, bool trace) {
    reset_shm();
    s.record = record; s.trace = trace;
    Harness* h = find(s.harness);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        rt_child_init(h->crash_prop ? h->crash_prop : s.prop.c_str());
        struct rlimit rl = {2ull << 30, 2ull << 30}; setrlimit(RLIMIT_AS, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        rt::spec = &s;
        h->run();
        syscall(SYS_exit_group, 0);
    }
    int status = 0; while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    if (!shm->finished && !shm->nviol && !shm->err) { shm->err = 1; snprintf(shm->errmsg, sizeof shm->errmsg, "child ended with status %d without result", status); }
}
static bool hit(const RunSpec& s, std::string* cls = nullptr, std::string* msg = nullptr, const char* want_cls = nullptr) {
    if (shm->err) return false;
    for (int i = 0; i < shm->nviol; ++i)
        if (s.prop == shm->viol[i].prop && (!want_cls || !strcmp(want_cls, shm->viol[i].cls))) { if (cls) *cls = shm->viol[i].cls; if (msg) *msg = shm->viol[i].msg; return true; }
    return false;
}
static void write_replay(const std::string& path, const RunSpec& s, u64 hash, const std::string& cls, const std::string& msg) {
    std::ofstream f(path);
    f << "# deterministic simulation replay; run: sim replay <file>\n";
    f << "harness " << s.harness << "\nproperty " << s.prop << "\nseed " << s.seed << "\nclass " << cls << "\nmessage " << msg << "\nhash " << hash << "\n";
    f << "mode " << (s.list_mode ? "list" : "seed") << "\n";
    for (auto& p : s.cfg) f << "cfg " << p.first << " " << p.second << "\n";
    for (auto& st : s.plan) { f << "step " << st.t << " " << st.op; for (i64 a : st.a) f << " " << a; f << "\n"; }
    for (auto& d : s.decs) f << "dec " << (char)d.kind << " " << d.ent << " " << d.ctr << " " << d.val << "\n";
}
static bool read_replay(const std::string& path, RunSpec& s, u64& hash, std::string& cls) {
    std::ifstream f(path); if (!f) return false;
    std::string line; hash = 0;
    while (std::getline(f, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream is(line); std::string k; is >> k;
        if (k == "harness") is >> s.harness; else if (k == "property") is >> s.prop; else if (k == "seed") is >> s.seed; else if (k == "class") { is >> std::ws; std::getline(is, cls); }
        else if (k == "hash") is >> hash; else if (k == "mode") { std::string m; is >> m; s.list_mode = m == "list"; }
        else if (k == "cfg") { std::string a; i64 v; is >> a >> v; s.cfg[a] = v; }
        else if (k == "step") { Step st; is >> st.t >> st.op; i64 v; while (is >> v) st.a.push_back(v); s.plan.push_back(st); }
        else if (k == "dec") { DecRec d; char c; is >> c >> d.ent >> d.ctr >> d.val; d.kind = (u32)c; s.decs.push_back(d); }
    }
    return !s.harness.empty();
}
static std::vector<DecRec> grab_decs() { std::vector<DecRec> v; for (u32 i = 0; i < shm->ndecs; ++i) { ShmDec& d = shm->decs[i]; v.push_back({d.kind, d.ent, d.ctr, d.val}); } return v; }

// ddmin-like reduction under a wall clock budget
template <class T, class F> static bool reduce(std::vector<T>& v, F still, double deadline) {
    size_t chunk = (v.size() + 1) / 2; bool any = false;
    while (chunk >= 1 && !v.empty()) {
        bool removed = false;
        for (size_t i = 0; i < v.size();) {
            if (wall() > deadline) return any;
            std::vector<T> w(v.begin(), v.begin() + i); w.insert(w.end(), v.begin() + std::min(v.size(), i + chunk), v.end());
            if (still(w)) { v = w; removed = any = true; } else i += chunk;
        }
        if (chunk == 1 && !removed) break;
        chunk = chunk > 1 ? (chunk + 1) / 2 : 1;
        if (chunk == 1 && !removed && v.size() > 400) break;
    }
    return any;
}

static int cmd_minimize(RunSpec s, const std::string& cls, const std::string& out, double budget) {
    double t0 = wall();
    auto test = [&](RunSpec& x) { run_child(x, false, false); return hit(x, nullptr, nullptr, cls.c_str()); };
    RunSpec cur = s;
    reduce(cur.plan, [&](std::vector<Step>& v) { RunSpec x = cur; x.plan = v; return test(x); }, t0 + budget * 0.4);
    // turn the seeded decisions into an explicit list, then reduce that
    run_child(cur, true, false);
    if (hit(cur, nullptr, nullptr, cls.c_str()) && !shm->decs_overflow) {
        RunSpec x = cur; x.list_mode = true; x.decs = grab_decs();
        RunSpec y = x;
        if (test(y)) {
            reduce(x.decs, [&](std::vector<DecRec>& v) { RunSpec z = x; z.decs = v; return test(z); }, t0 + budget * 0.85);
            reduce(x.plan, [&](std::vector<Step>& v) { RunSpec z = x; z.plan = v; return test(z); }, t0 + budget);
            cur = x;
        }
    }
    run_child(cur, false, false);
    std::string c2, msg; bool ok = hit(cur, &c2, &msg, cls.c_str()); u64 h1 = shm->hash;
    run_child(cur, false, false);
    bool ok2 = hit(cur, nullptr, nullptr, cls.c_str());
    if (!ok || !ok2 || shm->hash != h1) return 1;
    write_replay(out, cur, h1, cls, msg);
    printf("minimized steps=%zu decisions=%zu\n", cur.plan.size(), cur.decs.size());
    return 0;
}

#include <sys/single_threaded.h>
int main(int argc, char** argv) {
    __libc_single_threaded = 0;   // fibers stand for threads: keep reference counts atomic

    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    map_shm();
    if (argc < 2) return 2;
    std::string cmd = argv[1];
    auto need = [&](int n) { if (argc < n) { fprintf(stderr, "usage\n"); _exit(2); } };
    if (cmd == "run" || cmd == "show") { // run harness prop seed [trace]
        need(5); RunSpec s; s.harness = argv[2]; s.prop = argv[3]; s.seed = strtoull(argv[4], nullptr, 10);
        Harness* h = find(s.harness); if (!h) return 2; h->gen(s);
        bool tr = argc > 5;
        if (cmd == "show" || tr) { for (auto& p : s.cfg) fprintf(stderr, "cfg %s %lld\n", p.first.c_str(), (long long)p.second); for (auto& st : s.plan) { fprintf(stderr, "step %lld %s", (long long)st.t, st.op.c_str()); for (i64 a : st.a) fprintf(stderr, " %lld", (long long)a); fprintf(stderr, "\n"); } }
        if (cmd == "show") return 0;
        double t0 = wall(); run_child(s, true, tr);
        printf("seed %llu hash %llu steps %llu vtime %.3fs wall %.3fs decs %u err %d %s\n", (unsigned long long)s.seed, (unsigned long long)shm->hash, (unsigned long long)shm->steps, shm->vtime / 1e9, wall() - t0, shm->ndecs, shm->err, shm->err ? shm->errmsg : "");
        for (int i = 0; i < shm->nviol; ++i) printf("  %s [%s] %s\n", shm->viol[i].prop, shm->viol[i].cls, shm->viol[i].msg);
        if (tr) for (int i = 0; i < shm->nnotes; ++i) printf("  %s=%llu\n", shm->notes[i].key, (unsigned long long)shm->notes[i].n);
        return 0;
    }
    if (cmd == "batch") { // batch harness prop first stride count|0 seconds out.json-ish statesfile [allprops]
        need(9); std::string harness = argv[2], prop = argv[3]; u64 first = strtoull(argv[4], nullptr, 10), stride = strtoull(argv[5], nullptr, 10), count = strtoull(argv[6], nullptr, 10); double secs = atof(argv[7]); std::string out = argv[8];
        bool all = argc > 9;
        Harness* h = find(harness); if (!h) return 2;
        std::map<std::string, u64> notes; std::set<u64> states, hashes; u64 runs = 0, steps = 0, viol = 0, errs = 0; double vt = 0; double t0 = wall(); std::string first_err; u64 detfail = 0, detchk = 0;
        std::ofstream vf(out + ".viol");
        for (u64 i = 0; (!count || i < count); ++i) {
            if (secs > 0 && wall() - t0 > secs) break;
            RunSpec s; s.harness = harness; s.prop = prop; s.seed = first + i * stride; h->gen(s);
            run_child(s, false, false); ++runs;
            steps += shm->steps; vt += shm->vtime / 1e9; hashes.insert(shm->hash);
            for (int k = 0; k < shm->nnotes; ++k) notes[shm->notes[k].key] += shm->notes[k].n;
            for (u32 k = 0; k < shm->nstates && states.size() < 2000000; ++k) states.insert(shm->states[k]);
            if (shm->err) { ++errs; if (first_err.empty()) first_err = "seed " + std::to_string(s.seed) + ": " + shm->errmsg; }
            bool stop = false;
            for (int k = 0; k < shm->nviol; ++k) if (all || prop == shm->viol[k].prop) { vf << s.seed << "\t" << shm->hash << "\t" << shm->viol[k].prop << "\t" << shm->viol[k].cls << "\t" << shm->viol[k].msg << "\n"; vf.flush(); if (prop == shm->viol[k].prop) { ++viol; stop = true; } }
            if (i % 97 == 5) { u64 hh = shm->hash; ++detchk; run_child(s, false, false); if (hh != shm->hash) { ++detfail; if (first_err.empty()) first_err = "seed " + std::to_string(s.seed) + " is not deterministic"; } }
            if (stop && !all) break;
        }
        std::ofstream f(out);
        f << "runs " << runs << "\nsteps " << steps << "\nvtime " << vt << "\nwall " << wall() - t0 << "\nviolations " << viol << "\nerrors " << errs << "\ndetchecks " << detchk << "\ndetfail " << detfail << "\nhashes " << hashes.size() << "\n";
        if (!first_err.empty()) f << "first_error " << first_err << "\n";
        for (auto& p : notes) f << "note " << p.first << " " << p.second << "\n";
        std::ofstream sf(out + ".states", std::ios::binary); for (u64 x : states) sf.write((char*)&x, 8);
        return 0;
    }
    if (cmd == "minimize") { // minimize harness prop seed class out budget
        need(8); RunSpec s; s.harness = argv[2]; s.prop = argv[3]; s.seed = strtoull(argv[4], nullptr, 10); Harness* h = find(s.harness); h->gen(s);
        if (argc > 8) s.prop = argv[8];   // generated for one property, minimised for a violation of another
        return cmd_minimize(s, argv[5], argv[6], atof(argv[7]));
    }
    if (cmd == "record") { // record harness prop seed class out : replay file without minimisation
        need(7); RunSpec s; s.harness = argv[2]; s.prop = argv[3]; s.seed = strtoull(argv[4], nullptr, 10); Harness* h = find(s.harness); h->gen(s);
        run_child(s, false, false); std::string m; if (!hit(s, nullptr, &m, argv[5])) return 1; u64 h1 = shm->hash; run_child(s, false, false); if (!hit(s, nullptr, nullptr, argv[5]) || h1 != shm->hash) return 1;
        write_replay(argv[6], s, h1, argv[5], m); return 0;
    }
    if (cmd == "replay") { // replay file [trace]
        need(3); RunSpec s; u64 hash; std::string cls; if (!read_replay(argv[2], s, hash, cls)) return 2;
        run_child(s, false, argc > 3);
        std::string c2, msg; bool ok = hit(s, &c2, &msg, cls.c_str());
        printf("replay %s: %s hash %llu (recorded %llu) %s\n", argv[2], ok ? "VIOLATION reproduced" : "no violation", (unsigned long long)shm->hash, (unsigned long long)hash, msg.c_str());
        return ok && shm->hash == hash ? 0 : 1;
    }
    return 2;
}
