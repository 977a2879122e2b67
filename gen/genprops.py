#!/usr/bin/env python3
"""Properties of the code generator: C01 C16 C17 C18.
genprops.py PID run --seed S --shard I --shards N --secs T --report R --fail F | replay FILE | shrink IN OUT --secs T"""
import copy, hashlib, json, os, random, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
G = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, G); sys.dont_write_bytecode = True
import schema as sc, cdriver
REPO = os.environ.get("VF_REPO", "/repo")
LIB = os.environ.get("VF_GENLIB", "")           # archive of the library and support code
TMP = os.environ.get("VF_TMP", "/tmp")
WRAP = ["-D%s=vf_%s" % (f, f) for f in "malloc free realloc calloc strdup strndup".split()]
INC = ["-I" + os.path.join(REPO, "include"), "-I" + G, "-I" + os.path.join(G, "inc")]
class Trouble(Exception): pass

def sh(cmd, timeout=120, env=None, cwd=None):
    env = dict(env or os.environ, TMPDIR=TMP)
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True)
    try: out, _ = p.communicate(timeout=timeout); return p.returncode, out.decode("latin-1")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate(); return None, "(did not end within %d s)" % timeout

class Dir:
    n = 0
    def __enter__(self):
        Dir.n += 1; self.p = os.path.join(TMP, "g%d-%d" % (os.getpid(), Dir.n)); shutil.rmtree(self.p, ignore_errors=True); os.makedirs(self.p); return self.p
    def __exit__(self, *a): shutil.rmtree(self.p, ignore_errors=True)

def put(d, files):
    for k, t in files.items():
        p = os.path.join(d, k); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", newline="", encoding="utf-8") as f: f.write(t)

def generate(d, out, files, args=("--client", "--server"), hashseed="0", main="main.gr"):
    put(d, files); os.makedirs(out, exist_ok=True)
    env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONPYCACHEPREFIX=os.path.join(TMP, "pyc%d" % os.getpid())); env.pop("PYTHONDONTWRITEBYTECODE", None)
    return sh([sys.executable, os.path.join(REPO, "generator/parser.py"), "--service", os.path.join(d, main), "--out", out, "--lang-c"] + list(args), 60, env)

def listing(files): return "".join("--- %s\n%s\n" % (k, t.rstrip()) for k, t in files.items())

# ---- C01 and C17: run the generated code ----
def run_values(case, mode):
    s = case["schema"]
    with Dir() as d:
        out = d + "/out"; rc, txt = generate(d, out, sc.render(s))
        if rc != 0: return ("other", "the generator refuses the definition: " + txt[-600:])
        with open(out + "/driver.c", "w") as f: f.write(cdriver.Driver(s).text())
        srcs = sorted(x for x in os.listdir(out) if x.endswith(".c"))
        rc, txt = sh(["clang", "-O0", "-g1", "-w", "-fuse-ld=lld", "-fsanitize=address"] + WRAP + INC + ["-I.", "-o", "drv"] + srcs + [LIB, "-lpthread"], 300, cwd=out)
        if rc is None: raise Trouble("the compiler did not end")
        if rc != 0: return ("build", "the generated code does not compile with a program using it:\n" + "\n".join([l for l in txt.split("\n") if "error" in l][:6]))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1")
        rc, txt = sh([out + "/drv", str(case["seed"]), str(case["from"]), str(case["n"]), str(mode), str(case["seqn"])], 120, env, cwd=d)
        if rc == 0: return None
        if rc == 3: raise Trouble(txt[-500:])
        m = re.search(r"FAIL (C\d\d) (.*)", txt)
        if m: return (m.group(1), m.group(2))
        if "AddressSanitizer" in txt:
            i = txt.index("AddressSanitizer"); fr = re.findall(r"#\d+ \S+ in (\S+)", txt[i:])
            return ("mem", txt[i:].split("\n")[0] + " in " + " < ".join(f for f in fr if not f.startswith(("__asan", "__interceptor")))[:300])
        return ("mem", "the program ended with status %s: %s" % (rc, txt[-300:]))

def new_values(rnd, pid):
    size = rnd.choice([0.3, 0.6, 1.0, 1.0, 1.4]); s = sc.gen(rnd, size); s["files"][-1]["decls"].append(copy.deepcopy(sc.SYNC))
    return {"schema": s, "seed": rnd.getrandbits(40), "from": 0, "n": 300 if pid != "C17" else 120, "seqn": 0 if pid != "C17" else 150}
def check_c01(c):
    r = run_values(c, 0)
    if r is None: return None
    if r[0] in ("C01", "mem", "build"): return r[1]
    if r[0] == "other": return r[1] if c.get("strict") else "skip:" + r[1]
    return None
def check_c17(c):
    r = run_values(c, 1)
    if r is None: return None
    if r[0] in ("C17", "mem", "build"): return r[1]
    return "skip:" + r[1] # the definition is refused, or a value got lost on the way: other properties
def check_c27(c):
    r = run_values(c, 2)
    if r is None: return None
    if r[0] in ("C27",): return r[1]
    return "skip:" + r[1] # the definition is refused, or a value got lost on the way: other properties
def stats_values(c):
    v = sc.View(c["schema"]); ms = [m for s in v.structs() for m in v.members(s)]
    return {"structures": len(v.structs()), "variants": sum(m["k"] == "var" for m in ms), "struct_arrays": sum(m["k"] == "m" and m["arr"] and v.kind(m["type"]) == "struct" for m in ms),
            "functions": sum(x["k"] == "func" for _, q in v.services for x in q["items"]), "events": sum(x["k"] == "event" for _, q in v.services for x in q["items"]),
            "imports": len(c["schema"]["files"]) - 1, "calls_and_events": c["n"], "helper_calls": c["seqn"] * len(v.structs()), "extensions": sum(m["k"] == "ext" for f in c["schema"]["files"] for d in f["decls"] if d["k"] == "struct" for m in d["members"])}
def trivial_values(c):
    st = stats_values(c); return not (st["structures"] and st["functions"] > 1)

# ---- C16: accepted or refused ----
BADCH = list("@#$!%^&~`+|\\<>.?'")
def all_decls(s): return [(fi, di, d) for fi, f in enumerate(s["files"]) for di, d in enumerate(f["decls"])]
def services(s): return [d for _, _, d in all_decls(s) if d["k"] == "service"]
def mutate(s, kind, rnd):
    """Files of a definition that breaks one rule of the format, with a description; None when it does not apply."""
    s = copy.deepcopy(s); fix = lambda: sc.render(s)
    svcs = services(s); items = [x for v in svcs for x in v["items"]]
    if kind == "service_id":
        v = rnd.choice(svcs); v["id"] = rnd.choice([0, 255, 256, -1, 1000, 65536 + 3, -254]); return fix(), "service id %d" % v["id"]
    if kind == "item_id":
        if not items: return None
        x = rnd.choice(items); x["id"] = rnd.choice([0, 256, -1, 257, 1000, -255]); return fix(), "%s id %d" % (x["k"], x["id"])
    if kind == "dup_id":
        c = [v for v in svcs if len(v["items"]) > 1]
        if not c: return None
        a, b = rnd.sample(rnd.choice(c)["items"], 2); a["id"] = b["id"]; return fix(), "%s and %s share an id" % (a["k"], b["k"])
    if kind == "unknown_type":
        places = []
        firsts = True
        for fi, di, d in all_decls(s):
            if d["k"] == "struct" and any(d2["k"] == "service" for d2 in s["files"][fi]["decls"][di:] ) or d["k"] == "struct" and fi < len(s["files"]) - 1:
                for m in d["members"]:
                    if m["k"] == "var": places += [(e, 0, "variant alternative") for e in m["entries"]]
                    else: places.append((m, "type", "extension" if m["k"] == "ext" else "member"))
        for x in items:
            for key in ("req", "res", "params"): places += [(p, "type", key) for p in x.get(key, [])]
        if not places: return None
        p, k, w = rnd.choice(places); old = p[k]; p[k] = rnd.choice(["nosuchtype", "Uint32", "INT", "String", "uint128", "char", old + "_", "void"])
        if any(d.get("name", "").lower() == p[k].lower() for _, _, d in all_decls(s)): return None
        if old.lower() == p[k].lower() and old not in sc.SCALARS and old != "string": return None
        return fix(), "%s of unknown type %s" % (w, p[k])
    if kind == "missing_import":
        f = rnd.choice(s["files"]); f["decls"].insert(0, {"k": "import", "file": "nosuchfile.gr"}); return fix(), "import of a missing file"
    # the rest works on tokens
    fi = rnd.randrange(len(s["files"])) if rnd.random() < 0.4 else len(s["files"]) - 1
    ds = [sc.toks_file(f) for f in s["files"]]; names = [f["path"] for f in s["files"]]; decls = ds[fi]
    di = rnd.randrange(len(decls)); toks = decls[di]; lay = sc.Layout()
    def done(why):
        out = {n: lay.render(x) for n, x in zip(names, ds)}
        return out, why
    def inside_struct(i): return toks[0] == ("kw", "struct") and i > 2
    if kind == "drop":
        c = [i for i, t in enumerate(toks) if t[0] in ("p", "kw", "num", "q") or t[0] == "id" and not inside_struct(i)]
        if not c: return None
        i = rnd.choice(c); t = toks[i]
        if toks[0] == ("kw", "enum") and t[0] == "id" and i > 2 and toks[i + 1] == ("p", "}"): return None # leaves an empty enum or a comma at its end, which is fine
        if toks[0] == ("kw", "struct") and t == ("p", ";") and i + 2 < len(toks) and toks[i + 1][0] == "id" and toks[i + 2] == ("p", ";"): return None # two extensions become a member
        del toks[i]
        return done("without its %s %r" % ({"p": "symbol", "kw": "keyword", "num": "number", "q": "string", "id": "identifier"}[t[0]], t[1]))
    if kind == "stray":
        i = rnd.randrange(1, len(toks) + 1); t = rnd.choice([("p", ";"), ("p", "}"), ("p", ")"), ("p", "="), ("p", "]"), ("p", ":"), ("p", ","), ("p", "("), ("p", "{"), ("p", "["), ("num", 7), ("kw", "from"), ("q", "x")])
        if t == ("p", ",") and toks[0] == ("kw", "enum") and i == len(toks) - 1: return None
        toks.insert(i, t); return done("with a stray %r" % (t[1],))
    if kind == "badchar":
        i = rnd.randrange(0, len(toks) + 1); ch = rnd.choice(BADCH + ["-", "/", "--1", "0x", "0xg", "08", "-x"]); 
        if ch == "-" and i < len(toks) and toks[i][0] == "num": return None # a negative number
        toks.insert(i, ("kw", ch)); return done("with %r in it" % ch)
    if kind == "badnum":
        c = [(d, i) for d in decls for i, t in enumerate(d) if t[0] == "num"]
        if not c: return None
        d, i = rnd.choice(c); d[i] = ("kw", rnd.choice(["-", "--5", "0x", "09", "08", "0xZ", "1.5", "+3", "5-3", "0b", "1e3", "''"])); return done("with the number %r" % d[i][1])
    if kind == "truncate":
        if len(toks) < 2: return None
        i = rnd.randrange(1, len(toks)); ds[fi][di:] = [toks[:i]]; return done("cut off after %r" % (toks[i - 1][1],))
    if kind == "open":
        out = {n: lay.render(x) for n, x in zip(names, ds)}; t = out[names[fi]].rstrip(); how = rnd.choice(["comment", "comment2", "quote", "define", "import"])
        if how == "quote" and fi == len(names) - 1: t += "\nimport \"shared9\n"
        elif how == "import" and len(names) > 1 and fi == len(names) - 1: t += "\nimport \"" + names[0]
        elif how in ("define", "quote", "import"): t += "\ndefine vf_open_t from \"stdint.h"; how = "string"
        elif how == "comment2": t += "\n/*/ end"
        else: t += "\n/* end * /\n"
        out[names[fi]] = t; return out, "with an unterminated " + how
    raise ValueError(kind)
MUTS = ["service_id", "item_id", "dup_id", "unknown_type", "missing_import", "drop", "drop", "drop", "stray", "stray", "badchar", "badnum", "truncate", "truncate", "open"]
def new_c16(rnd, pid):
    s = sc.gen(rnd, rnd.choice([0.2, 0.6, 1.0, 1.5]))
    if rnd.random() < 0.35: return {"schema": s, "what": "accept", "mseed": rnd.getrandbits(40)}
    return {"schema": s, "what": "reject", "muts": [rnd.choice(MUTS) for _ in range(8)], "mseed": rnd.getrandbits(40)}
def wild(rnd): return sc.Layout(rnd, rnd.choice([0.1, 0.5, 1.0]), rnd.choice([0, 0.5, 1.0]), rnd.random() < 0.2, rnd.choice([0, 0.1, 0.4]))
def check_c16(c):
    s = c["schema"]
    if c["what"] == "accept":
        rnd = random.Random(c["mseed"])
        files = sc.render(s, wild(rnd)) if rnd.random() < 0.5 else sc.render(s)
        with Dir() as d:
            out = d + "/out"; rc, txt = generate(d, out, files)
            if rc is None: return "the generator does not end on a valid definition\n" + listing(files)
            if rc != 0: return "a valid definition is refused: %s\n%s" % (txt.strip()[-400:], listing(files))
            hs = sorted(x for x in os.listdir(out) if x.endswith(".h")); v = sc.View(s)
            want = {"%s_%s_service%s" % (ns, q["name"], e) for ns, q in v.services for e in (".h", "_client.h", "_server.h", "_client.c", "_server.c")}
            if not want <= set(os.listdir(out)): return "files generated: %s\nexpected: %s\n%s" % (sorted(os.listdir(out)), sorted(want), listing(files))
            with open(out + "/all.c", "w") as f: f.write("".join("#include \"%s\"\n" % h for h in hs) + "int all;\n")
            rc, txt = sh(["clang", "-fsyntax-only", "-w"] + INC + ["-I."] + sorted(x for x in os.listdir(out) if x.endswith(".c")), 300, cwd=out)
            if rc is None: raise Trouble("the compiler did not end")
            if rc != 0: return "the code generated for a valid definition does not compile:\n%s\n%s" % ("\n".join([l for l in txt.split("\n") if "error" in l][:5]), listing(files))
        if rnd.random() < 0.3: # a program that uses all of it
            s = copy.deepcopy(s); s["files"][-1]["decls"].append(copy.deepcopy(sc.SYNC))
            r = run_values({"schema": s, "seed": 1, "from": 0, "n": 0, "seqn": 0}, 0)
            if r and r[0] == "build": return r[1] + "\n" + listing(sc.render(s))
        return None
    for i, kind in enumerate(c["muts"]):
        m = mutate(s, kind, random.Random(c["mseed"] * 31 + i))
        if not m: continue
        with Dir() as d:
            rc, txt = generate(d, d + "/out", m[0])
            if rc is None: return "the generator does not end on a definition %s\n%s" % (m[1], listing(m[0]))
            if rc == 0: return "a definition %s is accepted (%s)\n%s" % (m[1], kind, listing(m[0]))
    return None
def stats_c16(c): return {"valid_definitions": 1} if c["what"] == "accept" else dict([("invalid_definitions", len(c["muts"]))] + [("broken_by_" + k, c["muts"].count(k)) for k in set(c["muts"])])

# ---- C18: only the meaning counts ----
def norm(t):
    """C source without comments and layout"""
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S); t = re.sub(r"//[^\n]*", " ", t)
    return re.sub(r"\s+", " ", t).strip()
def read(out): return {x: open(os.path.join(out, x)).read() for x in sorted(os.listdir(out))}
def gen_files(files, args=("--client", "--server"), hs="0"):
    with Dir() as d:
        out = d + "/out"; rc, txt = generate(d, out, files, args, hs)
        return read(out) if rc == 0 else "the generator %s: %s" % ("does not end" if rc is None else "fails", txt.strip()[-300:])
def diff(a, b, exact=False):
    if isinstance(a, str): return None # a definition that is refused belongs to C16
    if isinstance(b, str): return b
    if set(a) != set(b): return "files %s instead of %s" % (sorted(b), sorted(a))
    for k in a:
        x, y = (a[k], b[k]) if exact else (norm(a[k]), norm(b[k]))
        if x != y:
            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            return "%s differs: ...%r... becomes ...%r..." % (k, x[max(0, i - 60):i + 60], y[max(0, i - 60):i + 60])
    return None
def x_split(s, rnd):
    """moves a run of types of the main file into an imported file of the same namespace"""
    s = copy.deepcopy(s); m = s["files"][-1]; n = 0
    while n < len(m["decls"]) and m["decls"][n]["k"] == "import": n += 1
    e = n
    while e < len(m["decls"]) and m["decls"][e]["k"] in ("struct", "enum", "define"): e += 1
    if e == n: return None
    e = rnd.randint(n + 1, e); p = rnd.choice(["extra.gr", "types/extra.gr"])
    f = {"path": p, "ns": m["ns"], "decls": m["decls"][n:e]}; m["decls"][n:e] = [{"k": "import", "file": p, "spell": rnd.choice([p, p[:-3]])}]
    s["files"].insert(len(s["files"]) - 1, f); return s
def x_inline(s):
    """replaces extensions by the members of the extended structure"""
    s = copy.deepcopy(s); v = sc.View(s); hit = False
    for _, _, d in all_decls(s):
        if d["k"] == "struct" and any(m["k"] == "ext" for m in d["members"]): hit = True; d["members"] = copy.deepcopy(v.members(d["name"]))
    return s if hit else None
def x_long(s):
    """event e : T  is short for  event e : (T T)"""
    s = copy.deepcopy(s); v = sc.View(s); hit = False
    for q in services(s):
        for x in q["items"]:
            if x["k"] == "event" and x["short"] and v.kind(x["params"][0]["type"]) in ("struct", "enum"): x["short"] = False; hit = True
    return s if hit else None
XF = ["again", "layout", "layout", "layout", "split", "inline", "long", "include", "sides", "reimport"]
def new_c18(rnd, pid): return {"schema": sc.gen(rnd, rnd.choice([0.3, 1.0, 1.5])), "xfs": [rnd.choice(XF) for _ in range(6)], "mseed": rnd.getrandbits(40)}
def check_c18(c):
    s = c["schema"]; files = sc.render(s); base = gen_files(files)
    if isinstance(base, str): return "skip:" + base
    for i, xf in enumerate(c["xfs"]):
        rnd = random.Random(c["mseed"] * 31 + i); r = None; shown = None
        if xf == "again": r = diff(base, gen_files(files, hs=str(rnd.randint(1, 2**31))), True)
        elif xf == "layout": shown = sc.render(s, wild(rnd)); r = diff(base, gen_files(shown))
        elif xf in ("split", "inline", "long"):
            t = x_split(s, rnd) if xf == "split" else x_inline(s) if xf == "inline" else x_long(s)
            if t is None: continue
            shown = sc.render(t); r = diff(base, gen_files(shown))
        elif xf == "reimport": # the same file imported once more
            if len(s["files"]) < 2: continue
            t = copy.deepcopy(s); t["files"][-1]["decls"].insert(0, {"k": "import", "file": rnd.choice(s["files"][:-1])["path"]}); shown = sc.render(t)
            got = gen_files(shown)
            if isinstance(got, str): r = got
            elif set(got) != set(base): r = "files %s instead of %s" % (sorted(got), sorted(base))
            else: r = diff({k: v for k, v in base.items() if not k.endswith("_service.h")}, {k: v for k, v in got.items() if not k.endswith("_service.h")})
        elif xf == "include":
            qs = [q["name"] for q in services(s)]; pick = rnd.sample(qs, rnd.randint(1, len(qs)))
            got = gen_files(files, ["--client", "--server", "--include", ",".join(pick)])
            v = sc.View(s); want = {"%s_%s_service%s" % (ns, q["name"], e) for ns, q in v.services if q["name"] in pick for e in (".h", "_client.h", "_server.h", "_client.c", "_server.c")}
            r = diff({k: t for k, t in base.items() if k in want}, got, True); xf = "include of " + ",".join(pick)
        elif xf == "sides":
            a, b = gen_files(files, ["--client"]), gen_files(files, ["--server"])
            for g, side, other in ((a, "client", "server"), (b, "server", "client")):
                r = r or diff({k: t for k, t in base.items() if "_service_%s." % other not in k}, g, True)
        if r: return "%s: %s\n%s" % (xf, r, listing(files)) + ("\nrewritten as:\n" + listing(shown) if shown else "")
    return None
def stats_c18(c): return {"rewrite_" + k: c["xfs"].count(k) for k in set(c["xfs"])}

PROPS = {
 "C01": (new_values, check_c01, stats_values, trivial_values, "a definition with at least one structure and two functions, generated, compiled with the address sanitizer and driven with 300 calls, responses and events of random values through the library"),
 "C17": (new_values, check_c17, stats_values, trivial_values, "a definition with at least one structure and two functions; sequences of helper calls on every structure, and messages, with all allocations of generated code tracked"),
 "C27": (new_values, check_c27, stats_values, trivial_values, "a definition with at least one structure and two functions, generated and driven with 300 calls, responses, events and subscription requests of random values, each of whose bytes is compared with what an encoder written from the definition produces"),
 "C16": (new_c16, check_c16, stats_c16, lambda c: False, "a valid definition with everything generated from it compiled, or one broken in up to eight ways, each of which must be refused"),
 "C18": (new_c18, check_c18, stats_c18, lambda c: False, "a definition generated again after up to six meaning-preserving rewrites or with other options, and compared"),
}

def run(pid, a):
    new, check, stats, trivial, rule = PROPS[pid]; t0 = time.time(); secs = float(a["--secs"]); stop = [False]
    signal.signal(signal.SIGTERM, lambda *_: stop.__setitem__(0, True))
    rep = {"status": 0, "evaluations": 0, "nontrivial": 0, "hashes": [], "samples": [], "counters": {}, "cov": [], "guards": 0, "switches": 0, "steps": 0, "rule": rule, "message": ""}
    hashes = set(); i = 0
    try:
        while not stop[0] and time.time() - t0 < secs and i < int(a.get("--cases", 1 << 40)):
            rnd = random.Random("%s-%s-%s-%d" % (pid, a["--seed"], a["--shard"], i)); i += 1
            c = new(rnd, pid); r = check(c)
            if r and r.startswith("skip:"):
                rep["counters"]["skipped"] = rep["counters"].get("skipped", 0) + 1
                rep["last_skip"] = r[:400]; continue
            rep["evaluations"] += 1
            for k, v in stats(c).items(): rep["counters"][k] = rep["counters"].get(k, 0) + v
            if not trivial(c):
                rep["nontrivial"] += 1; hashes.add(hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()[:16])
                if len(rep["samples"]) < 2: rep["samples"].append(listing(sc.render(c["schema"]))[:1500] + "\n" + json.dumps({k: v for k, v in c.items() if k != "schema"}))
            if r:
                save(a["--fail"], pid, c, r); rep["status"] = 1; rep["message"] = r[:3000]; break
    except Trouble as e: rep["status"] = 3; rep["message"] = str(e)
    except Exception as e:
        import traceback; rep["status"] = 3; rep["message"] = traceback.format_exc()[-1500:]
    rep["hashes"] = sorted(hashes)
    with open(a["--report"], "w") as f: json.dump(rep, f)
    return rep["status"]

def save(path, pid, c, msg):
    with open(path, "w") as f: f.write("# %s replay\n" % pid + "".join("# %s\n" % l for l in msg.split("\n")[:120]) + json.dumps(c) + "\n")
def load(path): return json.loads("".join(l for l in open(path) if not l.startswith("#")))
def fails(pid, c):
    r = PROPS[pid][1](c); return r if r and not r.startswith("skip:") else None

def shrink(pid, src, dst, secs):
    c = load(src); msg = fails(pid, c); end = time.time() + secs
    if not msg: return 2
    save(dst, pid, c, msg)
    def cand(c):
        for key in ("muts", "xfs"):
            if len(c.get(key, [])) > 1:
                pass # positions seed the mutation: only neutral replacements keep the rest
        if "n" in c:
            for q in ({"n": 0}, {"seqn": 0}, {"n": c["n"] // 2}, {"from": c["from"] + c["n"] // 2, "n": c["n"] - c["n"] // 2}, {"seqn": c["seqn"] // 2}):
                d = dict(c, **q)
                if d != c: yield d
        for s in sc.reductions(c["schema"]): yield dict(c, schema=s)
    better = True
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        while better and time.time() < end:
            better = False; pend = []; it = cand(c)
            while time.time() < end:
                batch = []
                for x in it:
                    batch.append(x)
                    if len(batch) >= (os.cpu_count() or 4): break
                if not batch: break
                def ev(x):
                    try: return fails(pid, x)
                    except Exception: return None
                rs = list(ex.map(ev, batch)); k = next((k for k, r in enumerate(rs) if r), None)
                if k is not None: c, msg = batch[k], rs[k]; save(dst, pid, c, msg); better = True; break
    return 0

def main():
    pid, cmd = sys.argv[1], sys.argv[2]; rest = sys.argv[3:]
    opts = {rest[i]: rest[i + 1] for i in range(len(rest) - 1) if rest[i].startswith("--")}
    if cmd == "run": return run(pid, opts)
    if cmd == "replay":
        r = fails(pid, load(rest[0])); print(r or "holds"); return 1 if r else 0
    if cmd == "shrink": return shrink(pid, rest[0], rest[1], float(opts.get("--secs", 40)))
    return 2
if __name__ == "__main__": sys.exit(main())
