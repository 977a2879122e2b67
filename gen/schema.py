"""Random protocol definitions: generation, printing as tokens, layouts, reduction."""
import copy
SCALARS = {"uint8": "uint8_t", "int8": "int8_t", "uint16": "uint16_t", "int16": "int16_t", "uint32": "uint32_t", "int32": "int32_t", "uint64": "uint64_t",
           "int64": "int64_t", "long": "long", "ulong": "size_t", "uint": "unsigned int", "int": "int", "bool": "uint8_t", "float": "float", "double": "double"}
# types that come from C headers
EXTERN = {"uint32_t": ("stdint.h", 4), "int16_t": ("stdint.h", 2), "time_t": ("time.h", 8), "vfx_small_t": ("vfext_a.h", 2), "vfx_wide_t": ("vfext_a.h", 8),
          "vfx_pair_t": ("vfext_b.h", 8), "vfx_byte_t": ("vfext_sub/vfext_c.h", 1)}
SIZES = {"uint8": 1, "int8": 1, "uint16": 2, "int16": 2, "uint32": 4, "int32": 4, "uint64": 8, "int64": 8, "long": 8, "ulong": 8, "uint": 4, "int": 4, "bool": 1, "float": 4, "double": 8}
C_WORDS = set("""auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static
struct switch typedef union unsigned void volatile while bool true false null asm typeof linux unix import namespace service define func event from variant string
uint8 int8 uint16 int16 uint32 int32 uint64 int64 ulong uint main errno stdin stdout stderr assert malloc free realloc memcpy memset strdup strlen calloc
subscribe unsubscribe invalid""".split()) | {e.lower() for e in EXTERN}
TRICKY = ["buffer", "status", "count", "index", "i", "in", "out", "data", "value", "length", "name", "id", "type", "result", "service", "text", "message", "client", "server", "context", "size", "offset", "flags", "session"]
SYL = ["ka", "mo", "ri", "tu", "xe", "lo", "Vi", "Zed", "sol", "q", "B", "net", "dev", "io", "Rx", "tx", "pay", "acc"]

class Names:
    def __init__(self, rnd): self.rnd, self.used = rnd, set(C_WORDS)
    def fresh(self, tricky=False, local=None):
        rnd = self.rnd; used = self.used if local is None else local
        for _ in range(1000):
            if tricky and rnd.random() < 0.4: n = rnd.choice(TRICKY)
            else:
                n = "".join(rnd.choice(SYL) for _ in range(rnd.randint(1, 3)))
                if rnd.random() < 0.3: n += rnd.choice(["_", "_x", "2", "_9", "_Id"])
                if rnd.random() < 0.05: n = "_" + n
                if rnd.random() < 0.03: n += "_" + "long" * 12
            k = n.lower()
            if k in used or k in C_WORDS or k.endswith(("_count", "_type", "_out", "_max_length", "_result", "_response", "_id")) and not k.endswith("_id") or k.startswith(("event", "__", "vf")): continue
            used.add(k); return n
        raise RuntimeError("names")

def local_names():
    return set()

def gen(rnd, size=1.0, force=()):
    """A definition that is valid by construction. size scales the number of declarations."""
    names = Names(rnd)
    def cnt(lo, hi): return rnd.randint(lo, max(lo, int(round(lo + (hi - lo) * size))))
    types, structs = [], {}   # known type names so far; struct name -> decl
    floor = {}                # struct -> bytes it takes at least (all members present once)
    def tsize(t):
        if t in SIZES: return SIZES[t]
        if t in EXTERN: return EXTERN[t][1]
        return floor.get(t, 5)
    enums, externs = [], []
    def pick_type(allow_string=True, allow_struct=True, limit=400):
        for _ in range(20):
            r = rnd.random()
            if r < 0.45: return rnd.choice(list(SCALARS))
            if r < 0.58 and allow_string: return "string"
            if r < 0.66 and enums: return rnd.choice(enums)
            if r < 0.74 and externs: return rnd.choice(externs)
            if r < 1.0 and structs and allow_struct:
                t = rnd.choice(list(structs))
                if floor[t] <= limit: return t
        return "int32"
    def gen_extern():
        c = [e for e in EXTERN if e not in externs]
        if not c: return None
        e = rnd.choice(c); externs.append(e)
        return {"k": "define", "name": e, "header": EXTERN[e][0]}
    def gen_enum():
        n = names.fresh(); vals, used, nxt, nl = [], set(), 0, set()
        for _ in range(cnt(1, 6)):
            v = None
            if rnd.random() < 0.5: v = rnd.choice([rnd.randint(0, 20), rnd.randint(-5, 5), 0x7fffffff, -0x80000000, rnd.randint(-2**31, 2**31 - 1), rnd.randint(0, 0xffff)])
            real = nxt if v is None else v
            if real > 0x7fffffff: v = real = rnd.randint(0, 100)
            vals.append([names.fresh(True, nl), v]); nxt = real + 1
        enums.append(n)
        return {"k": "enum", "name": n, "values": vals}
    def flat(ms):
        out = []
        for m in ms:
            if m["k"] == "ext": out += flat(structs[m["type"]]["members"])
            else: out.append(m)
        return out
    def gen_struct():
        n = names.fresh(); loc, ms = local_names(), []
        total = 0
        exts = [s for s in structs if not flat(structs[s]["members"]) or True]
        for _ in range(rnd.choice([0, 1]) if rnd.random() < 0.08 else cnt(1, 7)):
            r = rnd.random()
            if r < 0.14 and structs:
                b = rnd.choice(list(structs)); bm = {x["name"].lower() for x in flat(structs[b]["members"])}
                if bm & loc or floor[b] > 300 or total + floor[b] > 600 or any(x["k"] == "m" and x["type"] == b for x in flat(structs[b]["members"])): continue
                loc |= bm; ms.append({"k": "ext", "type": b}); total += floor[b]; continue
            nm = names.fresh(True, loc)
            if r < 0.30:
                ents, ts = [], [pick_type(limit=200) for _ in range(cnt(1, 4))]
                el = {t.lower() for t in ts}  # accessors carry the name of the type or of the alternative
                for t in ts: ents.append([t, names.fresh(True, el)])
                ms.append({"k": "var", "name": nm, "entries": ents}); total += 1 + max(tsize(t) for t, _ in ents); continue
            arr = rnd.random() < 0.28
            t = pick_type(allow_string=not arr, limit=200)
            if arr and rnd.random() < 0.15: t = n  # a tree
            ms.append({"k": "m", "type": t, "name": nm, "arr": arr}); total += 4 if arr else tsize(t)
        d = {"k": "struct", "name": n, "members": ms}
        structs[n] = d; floor[n] = max(1, total)
        return d
    def gen_params(lo, hi):
        loc, ps, total = local_names(), [], 0
        for _ in range(cnt(lo, hi)):
            arr = rnd.random() < 0.3
            t = pick_type(allow_string=not arr, limit=500)
            if total + tsize(t) > 1500: break
            total += 4 if arr else tsize(t)
            ps.append({"type": t, "name": names.fresh(True, loc), "arr": arr})
        return ps
    ids = {}
    def gen_service():
        used = set()
        def nid(): 
            while True:
                i = rnd.choice([rnd.randint(1, 255), rnd.randint(1, 12), 255, 1])
                if i not in used: used.add(i); return i
        while True:
            sid = rnd.choice([rnd.randint(1, 253), rnd.randint(1, 12), 253, 1])
            if sid not in ids: ids[sid] = 1; break
        items = []
        for _ in range(cnt(1, 5)):
            items.append({"k": "func", "name": names.fresh(), "id": nid(), "req": gen_params(0, 5), "res": gen_params(0, 4) if rnd.random() < 0.8 else []})
        for _ in range(cnt(0, 4)):
            if rnd.random() < 0.4:
                t = pick_type(allow_string=True)
                items.append({"k": "event", "name": names.fresh(), "id": nid(), "short": True, "params": [{"type": t, "name": t, "arr": False}]})
            else: items.append({"k": "event", "name": names.fresh(), "id": nid(), "short": False, "params": gen_params(1, 4)})
        rnd.shuffle(items)
        return {"k": "service", "name": names.fresh(), "id": sid, "items": items}
    def gen_types(lo, hi):
        ds = []
        for _ in range(cnt(lo, hi)):
            r = rnd.random()
            if r < 0.15: d = gen_extern()
            elif r < 0.3: d = gen_enum()
            else: d = gen_struct()
            if d: ds.append(d)
        return ds
    files = []
    for i in range(rnd.choice([0, 0, 0, 1, 1, 2])):
        sub = rnd.choice(["", "", "inc/"])
        f = {"path": "%sshared%d.gr" % (sub, i), "ns": names.fresh() if rnd.random() < 0.7 else None, "decls": []}
        if files and rnd.random() < 0.6 and not sub: f["decls"].append({"k": "import", "file": files[-1]["path"]})
        f["decls"] += gen_types(1, 4); files.append(f)
    main = {"path": "main.gr", "ns": names.fresh(), "decls": []}
    for f in files: main["decls"].append({"k": "import", "file": f["path"]})
    main["decls"] += gen_types(1, 6); main["decls"].append(gen_service())
    if rnd.random() < 0.4: main["decls"] += gen_types(0, 2) + [gen_service()]
    if rnd.random() < 0.25:  # types used before they are declared
        pos = [i for i, d in enumerate(main["decls"]) if d["k"] in ("struct", "enum", "define")]
        first = [i for i in pos if i < next(j for j, d in enumerate(main["decls"]) if d["k"] == "service")]
        ds = [main["decls"][i] for i in first]; rnd.shuffle(ds)
        for i, d in zip(first, ds): main["decls"][i] = d
        based = {m["type"] for d in structs.values() for m in d["members"] if m["k"] == "ext"}
        mine = [d for d in ds if d["k"] == "struct" and d["name"] not in based]
        for j in range(rnd.randint(0, 2)):  # structures that hold each other
            if mine: rnd.choice(mine)["members"].append({"k": "m", "type": rnd.choice(mine)["name"], "name": "held%d" % j, "arr": True})
    files.append(main)
    return {"files": files}

SYNC = {"k": "service", "name": "vfsync", "id": 254, "items": [{"k": "func", "name": "ping", "id": 1, "req": [{"type": "uint32", "name": "n", "arr": False}], "res": [{"type": "uint32", "name": "n", "arr": False}]}]}

# ---- views ----
class View:
    """Everything the drivers need to know about a definition."""
    def __init__(self, s):
        self.s = s; self.types = {}; self.order = []; self.services = []
        seen = set()
        by = {f["path"]: f for f in s["files"]}
        def visit(f):
            ns = f["ns"] if f["ns"] is not None else "anon"
            for d in f["decls"]:
                if d["k"] == "import":
                    if d["file"] not in seen: seen.add(d["file"]); visit(by[d["file"]])
                elif d["k"] == "service": self.services.append((ns, d))
                else:
                    self.types[d["name"].lower()] = (ns, d); self.order.append(d["name"])
        visit(s["files"][-1])
    def kind(self, t):
        if t == "string": return "string"
        if t in SCALARS: return "scalar"
        d = self.types.get(t.lower())
        return {"enum": "enum", "struct": "struct", "define": "extern"}[d[1]["k"]]
    def scoped(self, t):
        ns, d = self.types[t.lower()]; return (ns + "_" + d["name"]).lower()
    def ctype(self, t):
        k = self.kind(t)
        return {"string": lambda: "char*", "scalar": lambda: SCALARS[t], "enum": lambda: "enum " + self.scoped(t), "struct": lambda: "struct " + self.scoped(t), "extern": lambda: t}[k]()
    def members(self, t):
        out = []
        for m in self.types[t.lower()][1]["members"]:
            if m["k"] == "ext": out += self.members(m["type"])
            else: out.append(m)
        return out
    def structs(self): return [n for n in self.order if self.kind(n) == "struct"]
    def enums(self): return [n for n in self.order if self.kind(n) == "enum"]
    def enum_values(self, t):
        out, nxt = [], 0
        for n, v in self.types[t.lower()][1]["values"]:
            if v is None: v = nxt
            out.append((n, v)); nxt = v + 1
        return out

# ---- tokens ----
def num(v, base=None):
    return ("num", v)
def toks_decl(d):
    w = lambda x: ("kw", x)
    i = lambda x: ("id", x)
    p = lambda x: ("p", x)
    def params(ps):
        out = []
        for n, x in enumerate(ps):
            if n: out.append(p(","))
            out.append(i(x["type"]))
            if x["arr"]: out += [p("["), p("]")]
            out.append(i(x["name"]))
        return out
    k = d["k"]
    if k == "import": return [w("import"), ("q", d.get("spell") or d["file"][:-3])]
    if k == "define": return [w("define"), i(d["name"]), w("from"), ("q", d["header"])]
    if k == "enum":
        out = [w("enum"), i(d["name"]), p("{")]
        for n, (a, v) in enumerate(d["values"]):
            if n: out.append(p(","))
            out.append(i(a))
            if v is not None: out += [p("="), ("num", v)]
        return out + [p("}")]
    if k == "struct":
        out = [w("struct"), i(d["name"]), p("{")]
        for m in d["members"]:
            if m["k"] == "ext": out += [i(m["type"]), p(";")]
            elif m["k"] == "var":
                out += [w("variant"), i(m["name"]), p("{")]
                for t, n in m["entries"]: out += [i(t), i(n), p(";")]
                out.append(p("}"))
            else: out += [i(m["type"])] + ([p("["), p("]")] if m["arr"] else []) + [i(m["name"]), p(";")]
        return out + [p("}")]
    if k == "service":
        out = [w("service"), i(d["name"]), p("("), ("num", d["id"]), p(")"), p("{")]
        for x in d["items"]:
            if x["k"] == "func": out += [w("func"), i(x["name"]), p("(")] + params(x["req"]) + [p(")"), p(":"), p("(")] + params(x["res"]) + [p(")"), p("="), ("num", x["id"]), p(";")]
            elif x["short"]: out += [w("event"), i(x["name"]), p(":"), i(x["params"][0]["type"]), p("="), ("num", x["id"]), p(";")]
            else: out += [w("event"), i(x["name"]), p(":"), p("(")] + params(x["params"]) + [p(")"), p("="), ("num", x["id"]), p(";")]
        return out + [p("}")]
    raise ValueError(k)

def toks_file(f):
    """List of declarations, each a list of tokens; the namespace goes after the imports."""
    ds = []
    imps = [d for d in f["decls"] if d["k"] == "import"]
    for d in imps: ds.append(toks_decl(d))
    if f["ns"] is not None: ds.append([("kw", "namespace"), ("id", f["ns"])])
    for d in f["decls"]:
        if d["k"] != "import": ds.append(toks_decl(d))
    return ds

COMMENTS = ["", "x", " a comment ", "*", "**", " struct foo { int a; } ", " \"quoted ", " ; } ) ", " func a() : () = 1; ", " 0x1F ", " // ", " it's ", " /", " -1 ", " @ # $ "]
class Layout:
    def __init__(self, rnd=None, wild=0.0, hexp=0.0, crlf=False, comments=0.0):
        self.rnd, self.wild, self.hexp, self.crlf, self.comments = rnd, wild, hexp, crlf, comments
    def comment(self):
        r = self.rnd; c = r.choice(COMMENTS)
        if r.random() < 0.5: return "//" + c + "\n"
        return "/*" + c.replace("*/", "") + ("\n" if r.random() < 0.3 else "") + "*/"
    def text(self, t):
        if t[0] == "num":
            v = t[1]
            if self.rnd and v >= 0 and self.rnd.random() < self.hexp:
                x = "%X" % v if self.rnd.random() < 0.6 else "%x" % v
                return "0x" + "0" * self.rnd.choice([0, 0, 1, 3]) + x
            return str(v)
        if t[0] == "q": return '"' + t[1] + '"'
        return t[1]
    def render(self, decls):
        out, prev = [], None
        def word(s): return s[-1:].isalnum() or s[-1:] == "_"
        for di, toks in enumerate(decls):
            for ti, t in enumerate(toks):
                s = self.text(t); need = prev is not None and word(prev) and (s[0].isalnum() or s[0] in "_")
                if self.rnd and self.rnd.random() < self.wild:
                    sep = "".join(self.rnd.choice([" ", "\t", "\n", "  ", "\n\n", "\r\n", "\f"]) for _ in range(self.rnd.choice([0, 0, 1, 1, 2])))
                    if self.rnd.random() < self.comments: sep = sep + self.comment() + self.rnd.choice(["", " ", "\n"])
                    if need and not sep: sep = " "
                elif self.rnd and self.rnd.random() < self.comments: sep = " " + self.comment() + " "
                elif ti == 0: sep = "\n" if prev else ""
                elif prev in ("{", ";", ","): sep = "\n    " if prev != "," else " "
                elif need: sep = " "
                else: sep = " " if s in ("{", "=", ":") else ""
                out.append(sep); out.append(s); prev = s
        end = "\n"
        if self.rnd and self.wild: end = self.rnd.choice(["", "\n", " ", "\n\n", "// end", "/* end */", "\t"])
        txt = "".join(out) + end
        return txt.replace("\r\n", "\n").replace("\n", "\r\n") if self.crlf else txt

def render(s, layout=None):
    layout = layout or Layout()
    return {f["path"]: layout.render(toks_file(f)) for f in s["files"]}

# ---- reduction ----
def uses(s):
    out = set()
    for f in s["files"]:
        for d in f["decls"]:
            if d["k"] == "struct":
                for m in d["members"]:
                    if m["k"] == "var": out |= {t.lower() for t, _ in m["entries"]}
                    else:
                        if m["type"] != d["name"]: out.add(m["type"].lower())
            elif d["k"] == "service":
                for x in d["items"]:
                    for q in (x.get("req", []) + x.get("res", []) + x.get("params", [])): out.add(q["type"].lower())
    return out

def reductions(s):
    """Smaller valid definitions, big steps first."""
    u = uses(s)
    def edit(fn):
        c = copy.deepcopy(s); fn(c); return c
    for fi, f in enumerate(s["files"]):
        if fi < len(s["files"]) - 1 and all(d["k"] == "import" for d in f["decls"]):
            def drop(c, fi=fi, p=f["path"]):
                del c["files"][fi]
                for g in c["files"]: g["decls"] = [d for d in g["decls"] if not (d["k"] == "import" and d["file"] == p)]
            yield edit(drop)
        for di, d in enumerate(f["decls"]):
            if d["k"] == "service" and d["name"] != "vfsync": yield edit(lambda c: c["files"][fi]["decls"].pop(di))
            elif d["k"] in ("struct", "enum", "define") and d["name"].lower() not in u: yield edit(lambda c: c["files"][fi]["decls"].pop(di))
    if len(s["files"]) > 1:
        def merge(c):
            ds = []
            for f in c["files"]: ds += [d for d in f["decls"] if d["k"] != "import"]
            c["files"] = [{"path": "main.gr", "ns": c["files"][-1]["ns"], "decls": ds}]
        yield edit(merge)
    for fi, f in enumerate(s["files"]):
        for di, d in enumerate(f["decls"]):
            if d["k"] == "service" and d["name"] != "vfsync":
                for xi, x in enumerate(d["items"]):
                    yield edit(lambda c: c["files"][fi]["decls"][di]["items"].pop(xi))
                for xi, x in enumerate(d["items"]):
                    for key in ("req", "res", "params"):
                        for pi, q in enumerate(x.get(key, [])):
                            if not (key == "params" and len(x[key]) == 1): yield edit(lambda c: c["files"][fi]["decls"][di]["items"][xi][key].pop(pi))
                            if x.get("short"): continue
                            if q["arr"]: yield edit(lambda c: c["files"][fi]["decls"][di]["items"][xi][key][pi].update(arr=False))
                            if q["type"] != "int": yield edit(lambda c: c["files"][fi]["decls"][di]["items"][xi][key][pi].update(type="int"))
            elif d["k"] == "struct":
                for mi, m in enumerate(d["members"]):
                    yield edit(lambda c: c["files"][fi]["decls"][di]["members"].pop(mi))
                for mi, m in enumerate(d["members"]):
                    if m["k"] == "var":
                        for ei, e in enumerate(m["entries"]):
                            if len(m["entries"]) > 1: yield edit(lambda c: c["files"][fi]["decls"][di]["members"][mi]["entries"].pop(ei))
                            if e[0] != "int": yield edit(lambda c: c["files"][fi]["decls"][di]["members"][mi]["entries"][ei].__setitem__(0, "int"))
                    elif m["k"] == "m":
                        if m["arr"]: yield edit(lambda c: c["files"][fi]["decls"][di]["members"][mi].update(arr=False)) if m["type"] != d["name"] else edit(lambda c: c["files"][fi]["decls"][di]["members"][mi].update(type="int"))
                        if m["type"] != "int": yield edit(lambda c: c["files"][fi]["decls"][di]["members"][mi].update(type="int"))
            elif d["k"] == "enum" and len(d["values"]) > 1:
                for vi in range(len(d["values"])): yield edit(lambda c: c["files"][fi]["decls"][di]["values"].pop(vi))
