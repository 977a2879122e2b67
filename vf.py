#!/usr/bin/env python3
"""Driver: builds the library under test and the harness, runs a property's generated cases on all
cores, shrinks failures and writes the evidence file.   vf.py check ID | build | replay ID FILE"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
B = os.path.join(V, ".build")
H = os.path.join(V, "harness")
CORES = os.cpu_count() or 4
REDEF = """mtx_init mtx_destroy mtx_lock mtx_timedlock mtx_trylock mtx_unlock cnd_init cnd_destroy cnd_wait cnd_timedwait cnd_signal cnd_broadcast
thrd_create thrd_join thrd_detach thrd_current thrd_equal thrd_yield thrd_sleep call_once sched_yield usleep nanosleep sleep
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy
thrd_exit pthread_exit pthread_mutex_timedlock pthread_cond_timedwait pthread_detach pthread_self pthread_equal pthread_once pthread_setname_np pthread_rwlock_init pthread_rwlock_destroy
pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock sem_init sem_destroy sem_wait sem_trywait sem_post
reallocarray aligned_alloc posix_memalign readv pipe pipe2 socketpair ppoll
pthread_cond_wait pthread_cond_signal pthread_cond_broadcast pthread_create pthread_join
malloc calloc realloc free strdup strndup socket epoll_create1 epoll_create eventfd dup close recv recvfrom read recvmsg send sendto write sendmsg writev
accept accept4 connect epoll_wait epoll_ctl epoll_pwait poll""".split()
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer", "-g1"]
LIBFLAGS = ["-O1", "-std=gnu11", "-w", "-DGRACHT_BUILD"] + SAN + ["-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores"]
CXXFLAGS = ["-O1", "-std=c++17", "-w"] + SAN

class BuildError(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stdout)
    return r.stdout

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def walk(d, exts):
    out = []
    for root, _, fs in os.walk(d):
        out += [os.path.join(root, f) for f in fs if f.endswith(exts)]
    return out

def lib_sources():
    s = [os.path.join(REPO, "runtime", f) for f in os.listdir(os.path.join(REPO, "runtime")) if f.endswith(".c") and "vali" not in f]
    d = os.path.join(REPO, "runtime/link/socket")
    return sorted(s + [os.path.join(d, f) for f in os.listdir(d) if f.endswith(".c")])

def includes():
    return ["-I" + os.path.join(B, "cfg"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "runtime"), "-I" + os.path.join(REPO, "runtime/link/socket"), "-I" + H]

def compile_c(src, obj):
    sh(["clang", "-c", src, "-o", obj] + LIBFLAGS + includes())
    sh(["objcopy", "--redefine-syms=" + os.path.join(B, "redef.txt"), obj])

def cached(out, key, make):
    kf = out + ".key"
    if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key: return out
    if os.path.exists(kf): os.unlink(kf)
    make()
    open(kf, "w").write(key)
    return out

def build(need=None):
    """Builds the library objects and the harness binary; returns its path."""
    os.makedirs(os.path.join(B, "cfg"), exist_ok=True); os.makedirs(os.path.join(B, "o"), exist_ok=True)
    with open(os.path.join(B, "cfg/config.h"), "w") as f:
        f.write("#ifndef __GRACHT_CONFIG_H__\n#define __GRACHT_CONFIG_H__\n#define HAVE_C11_THREADS\n#define HAVE_PTHREAD\n#endif\n")
    with open(os.path.join(B, "redef.txt"), "w") as f: f.write("".join("%s vf_%s\n" % (s, s) for s in REDEF))
    hdrs = walk(os.path.join(REPO, "include"), (".h",)) + walk(os.path.join(REPO, "runtime"), (".h",))
    # what every link begins with; the header that has it is not C++
    m = [m for h in sorted(hdrs) for m in re.findall(r"^struct gracht_link\s*\{.*?^\}[^;\n]*;", open(h).read(), re.S | re.M)]
    if len(m) != 1: raise BuildError("struct gracht_link is defined %d times" % len(m))
    text = '#include "gracht/link/link.h"\n' + m[0] + "\n"; lf = os.path.join(B, "cfg/vf_link.h")
    if not os.path.exists(lf) or open(lf).read() != text: open(lf, "w").write(text)
    hk = digest(hdrs, " ".join(LIBFLAGS) + "".join(REDEF)); hh = digest(walk(H, (".h",)) , " ".join(CXXFLAGS)) + digest([h for h in hdrs if "/gracht/" in h]) + text
    jobs, objs = [], []
    for s in lib_sources():
        o = os.path.join(B, "o", "lib_" + os.path.relpath(s, REPO).replace("/", "_") + ".o"); objs.append(o)
        jobs.append(lambda s=s, o=o: cached(o, digest([s], hk), lambda: compile_c(s, o)))
    hobjs, units = [], []
    for s in sorted(os.listdir(H)):
        if not s.endswith(".cpp"): continue
        p = os.path.join(H, s); o = os.path.join(B, "o", s + ".o")
        if s.startswith("unit_"): units.append((p, o)); continue
        hobjs.append(o)
        jobs.append(lambda p=p, o=o: cached(o, digest([p], hh), lambda: sh(["clang++", "-c", p, "-o", o] + CXXFLAGS + includes())))
    with ThreadPoolExecutor(CORES) as ex:
        for f in [ex.submit(j) for j in jobs]: f.result()
    # direct tests of internal interfaces: left out when those have changed
    for p, o in units:
        try: cached(o, digest([p], hh + hk), lambda: sh(["clang++", "-c", p, "-o", o] + CXXFLAGS + includes()))
        except BuildError: continue
        try: sh(["clang++", "-fsanitize=address", "-o", os.path.join(B, "o", "unit-probe")] + hobjs + objs + [o, "-lpthread"]) if not os.path.exists(o + ".ok") or open(o + ".ok").read() != digest(objs + hobjs + [o]) else None
        except BuildError: continue
        open(o + ".ok", "w").write(digest(objs + hobjs + [o])); hobjs = hobjs + [o]
    exe = os.path.join(B, "harness")
    cached(exe, digest(objs + hobjs), lambda: sh(["clang++", "-fsanitize=address", "-o", exe] + hobjs + objs + ["-lpthread"]))
    return exe

GEN = ("C01", "C16", "C17", "C18", "C27")
GENFLAGS = ["-O1", "-std=gnu11", "-w", "-DGRACHT_BUILD", "-fsanitize=address", "-g1"]
def build_gen():
    """The library and the support code of the generated drivers, unmodified, as one archive."""
    gd = os.path.join(V, "gen"); os.makedirs(os.path.join(B, "g"), exist_ok=True); os.makedirs(os.path.join(B, "cfg"), exist_ok=True)
    with open(os.path.join(B, "cfg/config.h"), "w") as f:
        f.write("#ifndef __GRACHT_CONFIG_H__\n#define __GRACHT_CONFIG_H__\n#define HAVE_C11_THREADS\n#define HAVE_PTHREAD\n#endif\n")
    hk = digest(walk(os.path.join(REPO, "include"), (".h",)) + walk(os.path.join(REPO, "runtime"), (".h",)) + walk(gd, (".h",)), " ".join(GENFLAGS))
    objs, jobs = [], []
    for s in lib_sources() + [os.path.join(gd, "support.c")]:
        o = os.path.join(B, "g", os.path.basename(s) + hashlib.sha256(s.encode()).hexdigest()[:6] + ".o"); objs.append(o)
        jobs.append(lambda s=s, o=o: cached(o, digest([s], hk), lambda: sh(["clang", "-c", s, "-o", o] + GENFLAGS + includes() + ["-I" + gd])))
    with ThreadPoolExecutor(CORES) as ex:
        for f in [ex.submit(j) for j in jobs]: f.result()
    a = os.path.join(B, "g", "gen.a")
    def make():
        if os.path.exists(a): os.unlink(a)
        sh(["ar", "rcs", a] + objs)
    cached(a, digest(objs), make)
    os.environ["VF_GENLIB"] = a; os.environ["VF_REPO"] = REPO
    return [sys.executable, os.path.join(gd, "genprops.py")]

def program(pid): return build_gen() if pid in GEN else [build()]

def tier(): return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
def seed():
    try: return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: return 1

def run_shards(exe, pid, cases, secs, sd, tmp):
    procs = []
    for i in range(CORES):
        rep, fl = os.path.join(tmp, "r%d.json" % i), os.path.join(tmp, "f%d.tape" % i)
        procs.append((rep, fl, subprocess.Popen(exe + [pid, "run", "--seed", str(sd), "--shard", str(i), "--shards", str(CORES), "--cases", str(max(1, cases // CORES)),
            "--secs", str(secs), "--report", rep, "--fail", fl], env=dict(os.environ, VF_TMP=tmp), stdout=subprocess.DEVNULL)))
    out = []
    for rep, fl, p in procs:
        rc = p.wait()
        r = json.load(open(rep)) if os.path.exists(rep) else {"status": 3, "evaluations": 0, "nontrivial": 0, "hashes": [], "samples": [], "counters": {}, "cov": [], "message": "no report (exit %d)" % rc}
        r["fail"] = fl; out.append(r)
    return out

QUICK_S, THOROUGH_S = 55, 600
QUICK_GEN_S = 80

def shard_cmd(exe, pid, i, cases, secs, sd, rep, fl):
    return exe + [pid, "run", "--seed", str(sd), "--shard", str(i), "--shards", str(CORES), "--cases", str(cases), "--secs", "%.1f" % secs, "--report", rep, "--fail", fl]

def engine_search(exe, pid, secs, sd, tmp):
    """Runs the shards until the time is over or one fails; returns (reports, first failing report or None)."""
    env = dict(os.environ, VF_TMP=tmp); ps = []
    for i in range(CORES):
        rep, fl = os.path.join(tmp, "r%d.json" % i), os.path.join(tmp, "f%d.tape" % i)
        for p in (rep, fl):
            if os.path.exists(p): os.unlink(p)
        ps.append([rep, fl, subprocess.Popen(shard_cmd(exe, pid, i, 1 << 40, secs, sd, rep, fl), env=env, stdout=subprocess.DEVNULL), False])
    reports, bad = [], None
    deadline = time.time() + secs + 150
    while any(not p[3] for p in ps):
        for p in ps:
            if p[3] or p[2].poll() is None: continue
            p[3] = True
            r = None
            try: r = json.load(open(p[0]))
            except Exception: pass
            if r is None:
                if bad is None: raise BuildError("a shard of %s ended without a report (exit %s)" % (pid, p[2].returncode))
                continue
            r["fail"] = p[1]; reports.append(r)
            if r["status"] and bad is None:
                bad = r
                for q in ps:
                    if not q[3]: q[2].terminate() # reports what it has covered so far
        if time.time() > deadline:
            for q in ps: q[2].kill()
            raise BuildError("shards of %s did not end" % pid)
        time.sleep(0.02)
    return reports, bad

def write_evidence(pid, level, cov, assumptions, t0, violations):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    e = {"property": pid, "tier": tier(), "seed": seed(), "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": violations}
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f: json.dump(e, f, indent=1)

def violation(pid, path, message):
    print("property %s does not hold:" % pid); print("  " + message.strip().replace("\n", "\n  "))
    print("VIOLATION property=%s replay=%s" % (pid, path)); sys.stdout.flush()

ASSUME = ["threads, locks, sockets calls and memory of the library run under the harness's deterministic scheduler (preemption at locks, system calls and memory accesses); hardware memory reordering is not explored",
          "local (AF_UNIX) and loopback sockets of this kernel stand for the network"]

ASSUME_GEN = ["the generated code is judged on this machine's C compiler (clang) and ABI", "names in definitions are not reserved by C or by the generated interface; string arrays are not supported by the generator",
              "values travel over a local (AF_UNIX) connection to a server with one worker"]

def check_engine(pid):
    t0 = time.time(); exe = program(pid)
    tmp = os.path.join(B, "run-%s-%d" % (pid, os.getpid())); shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    rep_dir = os.path.join(V, "replays"); os.makedirs(rep_dir, exist_ok=True)
    budget = THOROUGH_S if tier() == "thorough" else QUICK_GEN_S if pid in GEN else QUICK_S
    if os.environ.get("VF_SECS"): budget = float(os.environ["VF_SECS"])
    reports, found, unrepro, sd = [], None, [], seed()
    env = dict(os.environ, VF_TMP=tmp); end = time.time() + budget
    try:
        while True:
            rs, bad = engine_search(exe, pid, max(1.0, end - time.time()), sd, tmp); reports += rs
            if bad is None: break
            if bad["status"] == 3: raise BuildError("harness trouble in %s: %s" % (pid, bad["message"]))
            # confirm on its own, then shrink
            hits = any(subprocess.call(exe + [pid, "replay", bad["fail"]], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) == 1 for _ in range(5))
            if hits:
                dst = os.path.join(rep_dir, "%s-%s.tape" % (pid, hashlib.sha256(open(bad["fail"], "rb").read()).hexdigest()[:10]))
                shutil.copy(bad["fail"], dst); small = os.path.join(tmp, "small.tape")
                if subprocess.call(exe + [pid, "shrink", bad["fail"], small, "--secs", "40"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) == 0 and os.path.exists(small): shutil.copy(small, dst)
                head = [l[2:].rstrip() for l in open(dst) if l.startswith("# ")][1:]
                found = (dst, "\n".join(head) or bad["message"]); break
            unrepro.append(bad["message"][:300]); sd += 1000003
            if len(unrepro) >= 3 or end - time.time() < 3: break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if pid in GEN and not found and not sum(r["evaluations"] for r in reports):
        raise BuildError("no definition could be exercised: " + next((r.get("last_skip", "") for r in reports if r.get("last_skip")), ""))
    counters = {}
    for r in reports:
        for k, v in r["counters"].items(): counters[k] = counters.get(k, 0) + v
    samples = [s for r in reports for s in r["samples"]][:6]
    cov = {"evaluations": sum(r["evaluations"] for r in reports), "distinct_nontrivial": len({h for r in reports for h in r["hashes"]}), "nontrivial": sum(r["nontrivial"] for r in reports),
           "rule": reports[0]["rule"] if reports else "", "samples": [s.strip().split("\n") for s in samples], "counters": counters,
           "context_switches": sum(r["switches"] for r in reports), "library_memory_steps": sum(r["steps"] for r in reports),
           "library_edges_reached": len({x for r in reports for x in r["cov"]}), "library_edges": max([r["guards"] for r in reports] + [0]), "unreproduced_failures": unrepro}
    write_evidence(pid, "exploration", cov, ASSUME_GEN if pid in GEN else ASSUME, t0, 1 if found else 0)
    print("%s: %d cases, %d distinct non-trivial, %.0f s" % (pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    if unrepro: print("note: %d failure(s) could not be reproduced on their own and are not reported" % len(unrepro))
    if found: violation(pid, found[0], found[1]); return 1
    return 0

def main():
    cmd = sys.argv[1] if len(sys.argv) > 1 else "help"
    if cmd == "build": print(build()); print(build_gen()); return 0
    if cmd == "check":
        try: return check_engine(sys.argv[2])
        except BuildError as e: print(str(e)[-4000:], file=sys.stderr); return 3
    if cmd == "replay":
        exe = program(sys.argv[2]); return subprocess.call(exe + [sys.argv[2], "replay", sys.argv[3]], env=dict(os.environ, VF_TMP="/tmp"))
    if cmd == "dev":
        pid = sys.argv[2]; exe = program(pid); cases = int(sys.argv[3]); secs = float(sys.argv[4])
        tmp = os.path.join(B, "dev-" + pid); shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        t = time.time(); rs = run_shards(exe, pid, cases, secs, seed(), tmp)
        print("evals", sum(r["evaluations"] for r in rs), "nontrivial", sum(r["nontrivial"] for r in rs), "distinct", len({h for r in rs for h in r["hashes"]}), "wall %.1f" % (time.time() - t))
        c = {}
        for r in rs:
            for k, v in r["counters"].items(): c[k] = c.get(k, 0) + v
        print(c, "cov", len({x for r in rs for x in r["cov"]}), "of", rs[0].get("guards"))
        seen = set()
        for r in rs:
            if r["status"] and r["message"].split("\n")[0][:40] not in seen:
                seen.add(r["message"].split("\n")[0][:40])
                print("STATUS", r["status"], r["fail"]); print(r["message"].replace("\n", "\n   "))
        return 0
    return 2
if __name__ == "__main__": sys.exit(main())
