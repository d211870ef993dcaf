#!/usr/bin/env python3
"""Builds the simulators from /repo's working tree and decides one property by seeded simulation.

usage: check.py setup | check.py <property> [quick|thorough]
exit 0: held on everything explored; 1: violation (VIOLATION line); 2: the check itself could not run
"""
import hashlib, json, os, re, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 8

BASE = "-std=c++17 -g -w -DASIO_STANDALONE -DASIO_HAS_STD_CHRONO".split()
TSAN = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
sys.path.insert(0, os.path.join(VERIF, "tools"))
from targets import BINARIES, PROPS  # noqa: E402


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for root, dn, fn in sorted(os.walk(d)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode()); h.update(read(p))
    return h.hexdigest()


def build(names):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    hdr = tree_hash([os.path.join(REPO, "include"), os.path.join(VERIF, "sim")], (".hxx", ".h", ".hpp", ".ipp"))
    asio = os.path.join(REPO, "asio/asio/include")
    hdr += tree_hash([asio], (".hpp", ".ipp", ".h")) if os.path.isdir(asio) else ""
    jobs, links = {}, []
    for name in names:
        b = BINARIES[name]
        objs = []
        for src, instr, extra in b["sources"]:
            path = src.replace("$REPO", REPO).replace("$SIM", os.path.join(VERIF, "sim"))
            if not os.path.exists(path):
                raise RuntimeError("missing source " + path)
            flags = BASE + (["-O1"] if "-O" not in " ".join(extra) else []) + (TSAN if instr else []) + extra + ["-I" + os.path.join(REPO, "include"), "-I" + asio, "-I" + os.path.join(VERIF, "sim")]
            k = hashlib.sha256((hdr + " ".join(flags) + path).encode() + read(path)).hexdigest()[:32]
            obj = os.path.join(BUILD, "obj", k + ".o")
            objs.append(obj)
            if not os.path.exists(obj):
                jobs[obj] = ["g++"] + flags + ["-c", path, "-o", obj + ".tmp%d" % os.getpid()]
        lk = hashlib.sha256((" ".join(objs) + " ".join(b.get("ldflags", []))).encode()).hexdigest()[:16]
        exe = os.path.join(BUILD, name + "-" + lk)
        links.append((name, exe, objs, b.get("ldflags", [])))

    def cc(item):
        obj, cmd = item
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            raise RuntimeError("compile failed: " + " ".join(cmd) + "\n" + r.stdout[-3000:])
        os.replace(cmd[-1], obj)
    order = sorted(jobs.items(), key=lambda kv: -os.path.getsize(kv[1][kv[1].index("-c") + 1]))
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(cc, order))
    exes = {}
    for name, exe, objs, ld in links:
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            r = subprocess.run(["g++", "-rdynamic", "-o", tmp] + objs + ld + ["-ldl", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode:
                raise RuntimeError("link failed: " + r.stdout[-3000:])
            os.replace(tmp, exe)
        exes[name] = exe
    # keep the cache small: only what belongs to the latest builds
    keep = sorted((os.path.getmtime(os.path.join(BUILD, "obj", f)), f) for f in os.listdir(os.path.join(BUILD, "obj")))
    for _, f in keep[:-240]:
        os.unlink(os.path.join(BUILD, "obj", f))
    exf = sorted((os.path.getmtime(os.path.join(BUILD, f)), f) for f in os.listdir(BUILD) if os.path.isfile(os.path.join(BUILD, f)))
    for _, f in exf[:-12]:
        os.unlink(os.path.join(BUILD, f))
    return exes


def findings():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p, errors="replace"):
            m = re.match(r"finding: property=(\S+) binary=(\S+) replay=(\S+) (.*)", line)
            if m:
                out.append(dict(property=m[1], binary=m[2], replay=m[3], what=m[4].strip()))
    return out


def run_check(prop, tier):
    t_start = time.time()
    conf = PROPS[prop]
    base = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = float(os.environ.get("VERIF_SECONDS", conf.get("quick_s", 40) if tier == "quick" else conf.get("thorough_s", 900)))
    exes = build(sorted({r["bin"] for r in conf["runs"]}))
    t_built = time.time()
    work = os.path.join(VERIF, "build", "work-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    rep_dir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rep_dir, exist_ok=True)
    tot = dict(runs=0, steps=0, vtime=0.0, violations=0, errors=0, detchecks=0, detfail=0, hashes=0)
    notes, states, first_err, viols, per, samples = {}, set(), None, [], [], []
    share = sum(r["share"] for r in conf["runs"])
    for ri, r in enumerate(conf["runs"]):
        secs = budget * r["share"] / share
        hprop = r.get("gen", prop)
        procs = []
        seed0 = base * 1000003 + ri * 101
        for w in range(JOBS):
            out = os.path.join(work, "r%d.%d" % (ri, w))
            procs.append((subprocess.Popen([exes[r["bin"]], "batch", r["harness"], hprop, str(seed0 + w), str(JOBS), "0", str(secs), out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=work), out))
        t0 = time.time(); deadline = t0 + secs + 60
        stopping = False
        while any(p.poll() is None for p, _ in procs) and time.time() < deadline:
            time.sleep(0.1)
            if not stopping and any(os.path.exists(o + ".viol") and os.path.getsize(o + ".viol") for _, o in procs):
                stopping = True; deadline = min(deadline, time.time() + 4)   # one violation decides
        for p, _ in procs:
            if p.poll() is None:
                p.terminate()
        for p, _ in procs:
            try:
                p.wait(5)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait()
        rn = 0
        for _, o in procs:
            if os.path.exists(o):
                for line in open(o, errors="replace"):
                    k, _, v = line.rstrip("\n").partition(" ")
                    if k == "note":
                        a, b = v.rsplit(" ", 1); notes[a] = notes.get(a, 0) + int(b)
                    elif k == "first_error":
                        first_err = first_err or v
                    elif k in tot:
                        tot[k] += float(v) if k == "vtime" else int(v)
                        if k == "runs":
                            rn += int(v)
                raw = read(o + ".states") if os.path.exists(o + ".states") else b""
                states.update(struct.unpack("<%dQ" % (len(raw) // 8), raw[:len(raw) // 8 * 8]))
            if os.path.exists(o + ".viol"):
                for line in open(o + ".viol", errors="replace"):
                    f = line.rstrip("\n").split("\t")
                    if len(f) >= 5 and f[2] == prop:
                        viols.append((r, hprop, int(f[0]), f[3], f[4]))
        per.append(dict(binary=r["bin"], harness=r["harness"], runs=rn, wall_s=round(time.time() - t0, 1)))
        for sd in (seed0, seed0 + 1):
            q = subprocess.run([exes[r["bin"]], "show", r["harness"], hprop, str(sd)], stderr=subprocess.PIPE, text=True, errors="replace", cwd=work)
            samples.append(dict(harness=r["harness"], seed=sd, case=q.stderr.splitlines()[:60]))
        if viols:
            break
    # ---- decide
    status, rc = "", 0
    lines = []
    if viols:
        viols.sort(key=lambda v: v[2])
        done = False
        seen = set()
        for r, hprop, seed, cls, msg in viols:
            if done or len(seen) >= 3:
                break
            if cls in seen:
                continue
            seen.add(cls)
            rep = os.path.join(rep_dir, "%s-%d.replay" % (prop, seed))
            if os.path.exists(rep):
                os.unlink(rep)
            exe = exes[r["bin"]]
            q = subprocess.run([exe, "minimize", r["harness"], hprop, str(seed), cls, rep, "25" if tier == "quick" else "120", prop], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", cwd=work)
            if q.returncode or not os.path.exists(rep):
                q = subprocess.run([exe, "record", r["harness"], hprop, str(seed), cls, rep, prop], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", cwd=work)
            if q.returncode == 0 and os.path.exists(rep):
                ok = all(subprocess.run([exe, "replay", rep], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=work).returncode == 0 for _ in range(2))
                if ok:
                    print("VIOLATION property=%s replay=%s" % (prop, rep))
                    print("  [%s] seed %d: %s" % (cls, seed, msg))
                    print("  replay: %s replay %s trace   (%s)" % (exe, rep, q.stdout.strip()))
                    done = True
        if done:
            rc = 1
        else:
            print("note: a violation did not reproduce and is not reported: %s" % (viols[0][3:],))
    known = []
    for k in findings():
        if k["property"] == prop and k["binary"] in exes:
            q = subprocess.run([exes[k["binary"]], "replay", os.path.join(VERIF, k["replay"])], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", cwd=work)
            if "VIOLATION reproduced" in q.stdout:
                known.append(k["what"]); print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wall = time.time() - t_start
    explore = max(sum(p["wall_s"] for p in per), 0.001)
    faults = {k[6:]: v for k, v in notes.items() if k.startswith("fault.")}
    ev = dict(property=prop, tier=tier, seed=base, level="exploration",
              coverage=dict(evaluations=tot["runs"], distinct_nontrivial=tot["hashes"], rule=conf["rule"], samples=samples[:4],
                            simulated_runs=tot["runs"], seeds_per_hour=int(tot["runs"] / explore * 3600), simulated_time_s=round(tot["vtime"], 1), scheduler_steps=tot["steps"],
                            faults_injected=faults, operations={k: v for k, v in notes.items() if not k.startswith("fault.")},
                            distinct_states=len(states), distinct_states_measure=conf["states"],
                            determinism_rechecks=tot["detchecks"], determinism_failures=tot["detfail"], harness_errors=tot["errors"], first_harness_error=first_err,
                            components_real=conf["real"], components_stub=conf["stub"], batches=per, known_findings=known),
              assumptions=conf["assume"], wall_s=round(wall, 2), violations=1 if rc == 1 else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d runs (%d distinct), %.0f s simulated, %d states, %d faults, %d errors, build %.1f s, total %.1f s -> %s" % (
        prop, tier, tot["runs"], tot["hashes"], tot["vtime"], len(states), sum(faults.values()), tot["errors"], t_built - t_start, wall, "VIOLATION" if rc else "held"))
    if rc == 0 and tot["runs"] == 0:
        print("no run completed"); return 2
    if rc == 0 and tot["errors"] * 2 > tot["runs"]:
        print("most runs ended in harness errors: %s" % first_err); return 2
    return rc


def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    try:
        if sys.argv[1] == "setup":
            t = time.time(); build(sorted(BINARIES)); print("built in %.1f s" % (time.time() - t)); return 0
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return run_check(sys.argv[1], tier)
    except RuntimeError as e:
        print("check error:", e); return 2


sys.stdout.reconfigure(errors="backslashreplace")
sys.exit(main())
