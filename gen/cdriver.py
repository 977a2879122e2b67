"""Writes the C program that exercises the generated code of a definition."""
from schema import View, SCALARS
BITS = {"uint8": 8, "int8": 8, "uint16": 16, "int16": 16, "uint32": 32, "int32": 32, "uint64": 64, "int64": 64, "long": 64, "ulong": 64, "uint": 32, "int": 32}

def alt_const(v, st, var, alt): return ("%s_%s_%s" % (v.scoped(st), var, alt)).upper()
def invalid_const(v, st, var): return ("%s_%s_INVALID" % (v.scoped(st), var)).upper()
def accessor(entries, t, n):
    """accessors of variants carry the type's name, or the entry's name when the type occurs more than once"""
    return t if sum(1 for a, _ in entries if a == t) == 1 else n

class Driver:
    def __init__(self, s):
        self.v = View(s); self.o = []
    def w(self, x): self.o.append(x)
    # --- values ---
    def gen_scalar(self, lhs, t):
        v = self.v; k = v.kind(t)
        if k == "enum": self.w("%s = vals_%s[r_n(sizeof(vals_%s)/sizeof(vals_%s[0]))];" % (lhs, *[v.scoped(t)] * 3)); return
        if k == "extern":
            if t == "vfx_pair_t": self.w("{ vfx_pair_t z__; memset(&z__, 0, sizeof z__); z__.a = (int)r_bits(32); z__.b = (short)r_bits(16); z__.c = (unsigned char)r_bits(8); %s = z__; }" % lhs); return
            self.w("%s = (%s)r_bits(8 * sizeof(%s));" % (lhs, t, t)); return
        if t == "bool": self.w("%s = (uint8_t)r_n(2);" % lhs)
        elif t == "float": self.w("{ uint32_t b__ = (uint32_t)r_bits(32); memcpy(&%s, &b__, 4); }" % lhs)
        elif t == "double": self.w("{ uint64_t b__ = r_bits(64); memcpy(&%s, &b__, 8); }" % lhs)
        else: self.w("%s = (%s)r_bits(%d);" % (lhs, SCALARS[t], BITS[t]))
    def gen_value(self, lhs, t, depth):
        k = self.v.kind(t)
        if k == "string": self.w("%s = r_str();" % lhs)
        elif k == "struct": self.w("ref_%s(&%s, %s);" % (self.v.scoped(t), lhs, depth))
        else: self.gen_scalar(lhs, t)
    def gen_array(self, lhs, cnt, t, depth):
        ct = self.v.ctype(t); st = self.v.kind(t) == "struct"
        self.w("{ uint32_t n__ = r_count(sizeof(%s), %s); %s = n__; %s = n__ ? ar(n__ * sizeof(%s)) : NULL; for (uint32_t i__ = 0; i__ < n__; i__++) {" % (ct, depth if st else "0", cnt, lhs, ct))
        self.gen_value("%s[i__]" % lhs, t, "%s + 1" % depth)
        self.w("} }")
    def ne(self, a, b, t):
        """expression that is non-zero when two values of type t differ"""
        v = self.v; k = v.kind(t)
        if k == "string": return "!eq_str(%s, %s)" % (a, b)
        if k == "struct": return "eq_%s(&%s, &%s)" % (v.scoped(t), a, b)
        if t in ("float", "double"): return "memcmp(&%s, &%s, sizeof(%s))" % (a, b, t)
        if t == "vfx_pair_t": return "(%s.a != %s.a || %s.b != %s.b || %s.c != %s.c)" % (a, b, a, b, a, b)
        return "%s != %s" % (a, b)
    def types(self):
        v, w = self.v, self.w
        for e in v.enums():
            n = v.scoped(e); names = ["%s_%s" % (n.upper(), x) for x, _ in v.enum_values(e)]
            w("#define HAVE_%s\nstatic const enum %s vals_%s[] = { %s };" % (n, n, n, ", ".join(names)))
        for s in v.structs():
            n = v.scoped(s)
            w("static void ref_%s(struct %s* o, int d); static const char* eq_%s(const struct %s* a, const struct %s* b); static void build_%s(const struct %s* r, struct %s* o); static void scribble_%s(struct %s* o);" % ((n,) * 10))
        for s in v.structs():
            n = v.scoped(s)
            w("static void ref_%s(struct %s* o, int d) { memset(o, 0, sizeof *o);" % (n, n))
            for m in v.members(s):
                f = "o->" + m["name"]
                if m["k"] == "var":
                    w("switch (r_n(%d)) { default: break;" % (len(m["entries"]) + 1))
                    for i, (t, a) in enumerate(m["entries"]):
                        w("case %d: %s_type = %s;" % (i + 1, f, alt_const(v, s, m["name"], a))); self.gen_value("%s.%s" % (f, a), t, "d + 1"); w("break;")
                    w("}")
                elif m["arr"]: self.gen_array(f, f + "_count", m["type"], "d")
                else: self.gen_value(f, m["type"], "d + 1")
            w("}")
            w("static const char* eq_%s(const struct %s* a, const struct %s* b) {" % (n, n, n))
            for m in v.members(s):
                x, y = "a->" + m["name"], "b->" + m["name"]
                if m["k"] == "var":
                    w("if (%s_type != %s_type) return \"%s.%s_type\"; switch (%s_type) { default: break;" % (x, y, s, m["name"], x))
                    for t, a in m["entries"]: w("case %s: if (%s) return \"%s.%s.%s\"; break;" % (alt_const(v, s, m["name"], a), self.ne("%s.%s" % (x, a), "%s.%s" % (y, a), t), s, m["name"], a))
                    w("}")
                elif m["arr"]:
                    w("if (%s_count != %s_count) return \"%s.%s_count\"; for (uint32_t i__ = 0; i__ < %s_count; i__++) if (%s) return \"%s.%s[]\";" % (x, y, s, m["name"], x, self.ne(x + "[i__]", y + "[i__]", m["type"]), s, m["name"]))
                else: w("if (%s) return \"%s.%s\";" % (self.ne(x, y, m["type"]), s, m["name"]))
            w("return 0; }")
    # --- the bytes of a value on the wire ---
    def wire_value(self, x, t):
        v = self.v; k = v.kind(t)
        if k == "string": return "wput_str(%s);" % x
        if k == "struct": return "wire_%s(&%s);" % (v.scoped(t), x)
        if k == "enum": return "wput_u32((uint32_t)%s);" % x
        if t == "vfx_pair_t": return "wput(&%s.a, 4); wput(&%s.b, 2); wput(&%s.c, 1); wmask(sizeof(vfx_pair_t) - 7);" % (x, x, x)
        if k == "scalar" and t not in ("float", "double"): return "{ uint64_t b__ = (uint64_t)(%s); for (int s__ = 0; s__ < %d; s__ += 8) wput_u8((unsigned)(b__ >> s__ & 255)); }" % (x, BITS.get(t, 8))
        return "{ %s b__ = %s; wput(&b__, sizeof b__); }" % (v.ctype(t), x)
    def wire_array(self, x, cnt, t): return "wput_u32(%s); for (uint32_t w__ = 0; w__ < %s; w__++) { %s }" % (cnt, cnt, self.wire_value("%s[w__]" % x, t))
    def wire_types(self):
        v, w = self.v, self.w
        for s in v.structs(): w("static void wire_%s(const struct %s* o);" % (v.scoped(s), v.scoped(s)))
        for s in v.structs():
            w("static void wire_%s(const struct %s* o) {" % (v.scoped(s), v.scoped(s)))
            for m in v.members(s):
                f = "o->" + m["name"]
                if m["k"] == "var":
                    w("switch (%s_type) { default: wput_u8(0); break;" % f) # alternatives are numbered in the order of their declaration
                    for i, (t, a) in enumerate(m["entries"]): w("case %s: wput_u8(%d); %s break;" % (alt_const(v, s, m["name"], a), i + 1, self.wire_value("%s.%s" % (f, a), t)))
                    w("}")
                elif m["arr"]: w(self.wire_array(f, f + "_count", m["type"]))
                else: w(self.wire_value(f, m["type"]))
            w("}")
    def expect(self, sid, aid, flags, ps, pre):
        self.w("if (vf_wire) { vf_expect(%d, %d, %d);" % (sid, aid, flags))
        for p in ps:
            x = pre + p["name"]; self.w(self.wire_array(x, x + "_count", p["type"]) if p["arr"] else self.wire_value(x, p["type"]))
        self.w("}")
    def sent(self, what): self.w("if (vf_wire) vf_expected(\"%s\");" % what)
    def helpers(self):
        v, w = self.v, self.w
        for s in v.structs():
            n = v.scoped(s); S = "struct " + n
            w("static void build_%s(const %s* r, %s* o) { %s_init(o); { %s z__; memset(&z__, 0, sizeof z__); if (eq_%s(o, &z__)) fail17(\"%s_init leaves %%s set\", eq_%s(o, &z__)); }" % (n, S, S, n, S, n, n, n))
            for m in v.members(s):
                f, r = "o->" + m["name"], "r->" + m["name"]
                if m["k"] == "var":
                    w("for (int again__ = r_n(4) == 0; again__ >= 0; again__--) { switch (%s_type) { default: break;" % r)
                    for t, a in m["entries"]:
                        acc = "%s_%s_set_%s" % (n, m["name"], accessor(m["entries"], t, a))
                        w("case %s: {" % alt_const(v, s, m["name"], a))
                        if v.kind(t) == "struct": w("%s tmp__; build_%s(&%s.%s, &tmp__); %s(o, &tmp__); scribble_%s(&tmp__); %s_destroy(&tmp__);" % (v.ctype(t), v.scoped(t), r, a, acc, v.scoped(t), v.scoped(t)))
                        elif t == "string": w("char* tmp__ = strdup(%s.%s); %s(o, tmp__); memset(tmp__, '#', strlen(tmp__)); free(tmp__);" % (r, a, acc))
                        else: w("%s(o, %s.%s);" % (acc, r, a))
                        w("break; }")
                    w("}")
                    ents = m["entries"]
                    for t, a in ents:
                        is_ = "%s_%s_is_%s" % (n, m["name"], accessor(ents, t, a))
                        w("if (!!%s(o) != (%s_type == %s)) fail17(\"%s reports %%d after setting alternative %%d\", !!%s(o), (int)%s_type);" % (is_, r, alt_const(v, s, m["name"], a), is_, is_, r))
                    w("if (again__) { %s_%s_clear(o); if (%s_type != %s) fail17(\"%s_%s_clear leaves an alternative set\"); } }" % (n, m["name"], f, invalid_const(v, s, m["name"]), n, m["name"]))
                elif m["arr"] and v.kind(m["type"]) == "struct":
                    e = v.scoped(m["type"])
                    w("{ uint32_t n__ = %s_count, at__ = 0; while (at__ < n__) { uint32_t k__ = 1 + r_n(n__ - at__); if (r_n(2)) %s_%s_add(o, k__); else { struct %s* p__ = %s_%s_get(o, at__ + k__ - 1); if (p__ != &%s[at__ + k__ - 1]) fail17(\"%s_%s_get returns another element\"); }" % (r, n, m["name"], e, n, m["name"], f, n, m["name"]))
                    w("if (%s_count != at__ + k__) fail17(\"%s.%s has %%u elements instead of %%u\", %s_count, at__ + k__);" % (f, s, m["name"], f))
                    w("for (uint32_t j__ = 0; j__ < k__; j__++) { struct %s z__; memset(&z__, 0, sizeof z__); if (eq_%s(&%s[at__ + j__], &z__)) fail17(\"a new element of %s.%s is not empty\"); build_%s(&%s[at__ + j__], %s_%s_get(o, at__ + j__)); }" % (e, e, f, s, m["name"], e, r, n, m["name"]))
                    w("if (%s_count != at__ + k__) fail17(\"%s_%s_get of an existing element changed the count\"); at__ += k__; } }" % (f, n, m["name"]))
                elif m["arr"]:
                    w("%s_count = %s_count; if (%s_count) { %s = malloc(%s_count * sizeof(%s[0])); memcpy(%s, %s, %s_count * sizeof(%s[0])); }" % (f, r, r, f, r, f, f, r, r, f))
                elif v.kind(m["type"]) == "string": w("if (!*%s && r_n(2)) %s = NULL; else %s = strdup(%s);" % (r, f, f, r))
                elif v.kind(m["type"]) == "struct": w("build_%s(&%s, &%s);" % (v.scoped(m["type"]), r, f))
                else: w("%s = %s;" % (f, r))
            w("}")
            w("static void scribble_%s(%s* o) {" % (n, S))
            for m in v.members(s):
                f = "o->" + m["name"]
                def scr(x, t):
                    k = v.kind(t)
                    if k == "string": return "if (%s) memset(%s, '#', strlen(%s));" % (x, x, x)
                    if k == "struct": return "scribble_%s(&%s);" % (v.scoped(t), x)
                    return "memset(&%s, 0x5a, sizeof %s);" % (x, x)
                if m["k"] == "var":
                    w("switch (%s_type) { default: break;" % f)
                    for t, a in m["entries"]: w("case %s: %s break;" % (alt_const(v, s, m["name"], a), scr("%s.%s" % (f, a), t)))
                    w("}")
                elif m["arr"]: w("for (uint32_t i__ = 0; i__ < %s_count; i__++) { %s }" % (f, scr(f + "[i__]", m["type"])))
                else: w(scr(f, m["type"]))
            w("}")
            # sequences of helper calls over a few slots
            w("static void seq_%s(uint64_t seed, int nops) { enum { N = 4 }; %s v[N]; int live[N] = {0}; uint64_t sd[N] = {0}; long base = vf_live(); const char* e;" % (n, S))
            w("memset(v, 0x33, sizeof v); for (int k = 0; k < nops; k++) { uint64_t h = vf_hash(seed, k); int a = h %% N, b = h / N %% N; int bud = (int)(h >> 20 & 2047); vf_seed(h, bud); (void)b;" % ())
            w("switch (h >> 8 & 7) {")
            w("case 0: case 1: if (!live[a]) { %s r; sd[a] = h; vf_seed(h, bud); ref_%s(&r, 0); vf_seed(h ^ 77, 0); build_%s(&r, &v[a]); live[a] = 1; if ((e = eq_%s(&v[a], &r))) fail17(\"%%s is not the value that was stored\", e); } break;" % (S, n, n, n))
            w("case 2: case 3: if (live[a] && !live[b]) { %s_copy(&v[a], &v[b]); live[b] = 1; sd[b] = sd[a]; if ((e = eq_%s(&v[a], &v[b]))) fail17(\"copy of %s differs in %%s\", e); } break;" % (n, n, n))
            w("case 4: if (live[a]) { %s_destroy(&v[a]); memset(&v[a], 0x33, sizeof v[a]); live[a] = 0; } break;" % n)
            w("case 5: if (live[a]) { scribble_%s(&v[a]); sd[a] = 0; } break;" % n)
            w("case 6: if (live[a]) {")
            for m in v.members(s):
                if m["k"] == "m" and m["arr"] and v.kind(m["type"]) == "struct":
                    w("if (v[a].%s_count < 200) { uint32_t c__ = v[a].%s_count; struct %s* p__ = %s_%s_get(&v[a], c__ + r_n(5)); struct %s z__; memset(&z__, 0, sizeof z__); if (eq_%s(p__, &z__)) fail17(\"an element added by %s_%s_get is not empty\"); sd[a] = 0; }" % (m["name"], m["name"], v.scoped(m["type"]), n, m["name"], v.scoped(m["type"]), v.scoped(m["type"]), n, m["name"]))
                elif m["k"] == "var": w("if (r_n(2)) { %s_%s_clear(&v[a]); sd[a] = 0; }" % (n, m["name"]))
            w("} break;")
            w("default: break; } for (int i = 0; i < N; i++) if (live[i] && sd[i]) { %s r; vf_seed(sd[i], (int)(sd[i] >> 20 & 2047)); ref_%s(&r, 0); if ((e = eq_%s(&v[i], &r))) fail17(\"%%s changed although only another value was touched\", e); } ar_reset(); }" % (S, n, n))
            w("for (int i = 0; i < N; i++) if (live[i]) %s_destroy(&v[i]); if (vf_live() != base) fail17(\"destroying every %s once leaves memory behind: %%s\", vf_live_what()); }" % (n, s))
    # --- messages ---
    def decl_params(self, ps, pre):
        for p in ps:
            ct = self.v.ctype(p["type"])
            if p["arr"]: self.w("%s* %s%s; uint32_t %s%s_count;" % (ct, pre, p["name"], pre, p["name"]))
            else: self.w("%s %s%s;" % (ct, pre, p["name"]))
    def gen_params(self, ps, pre):
        for p in ps:
            if p["arr"]: self.gen_array(pre + p["name"], pre + p["name"] + "_count", p["type"], "0")
            else: self.gen_value(pre + p["name"], p["type"], "0")
    def args(self, ps, pre):
        out = []
        for p in ps:
            if p["arr"]: out += [pre + p["name"], pre + p["name"] + "_count"]
            elif self.v.kind(p["type"]) == "struct": out.append("&" + pre + p["name"])
            else: out.append(pre + p["name"])
        return "".join(", " + a for a in out)
    def formal(self, ps, pre):
        out = []
        for p in ps:
            ct = self.v.ctype(p["type"])
            if p["arr"]: out += ["const %s* %s%s" % (ct, pre, p["name"]), "const uint32_t %s%s_count" % (pre, p["name"])]
            elif self.v.kind(p["type"]) == "struct": out.append("const %s* %s%s" % (ct, pre, p["name"]))
            else: out.append("const %s %s%s" % (ct, pre, p["name"]))
        return "".join(", " + a for a in out)
    def compare(self, ps, got, exp, what):
        for p in ps:
            g, x = got + p["name"], exp + p["name"]
            if p["arr"]:
                self.w("if (%s_count != %s_count) fail01(\"%s: %s has %%u elements instead of %%u\", %s_count, %s_count);" % (g, x, what, p["name"], g, x))
                self.w("for (uint32_t i__ = 0; i__ < %s_count; i__++) if (%s) fail01(\"%s: %s[%%u of %%u] differs\", i__, %s_count);" % (x, self.ne(g + "[i__]", x + "[i__]", p["type"]), what, p["name"], x))
            elif self.v.kind(p["type"]) == "struct": self.w("{ const char* e__ = eq_%s(%s, &%s); if (e__) fail01(\"%s: %s differs in %%s\", e__); }" % (self.v.scoped(p["type"]), g, x, what, p["name"]))
            else: self.w("if (%s) fail01(\"%s: %s differs\");" % (self.ne(g, x, p["type"]), what, p["name"]))
    def keep(self, ps, got, exp):
        """what was received is owned by the reader: copies outlive it"""
        for p in ps:
            if self.v.kind(p["type"]) != "struct": continue
            n = self.v.scoped(p["type"])
            g = got + p["name"]; x = exp + p["name"]
            if p["arr"]: self.w("if (vf_mode17 && %s_count) { struct %s c__; %s_copy(&%s[0], &c__); const char* e__ = eq_%s(&c__, &%s[0]); if (e__) fail17(\"copy of a received %s differs in %%s\", e__); %s_destroy(&c__); }" % (g, n, n, g, n, x, n, n))
            else: self.w("if (vf_mode17) { struct %s c__; %s_copy(%s, &c__); const char* e__ = eq_%s(&c__, &%s); if (e__) fail17(\"copy of a received %s differs in %%s\", e__); %s_destroy(&c__); }" % (n, n, g, n, x, n, n))
    def messages(self):
        v, w = self.v, self.w
        fns, evs = [], []
        for ns, svc in v.services:
            for x in svc["items"]: (fns if x["k"] == "func" else evs).append((ns, svc, x))
        fns = [f for f in fns if f[1]["name"] != "vfsync"]
        self.nf, self.ne_ = len(fns), len(evs)
        w("void vfsync_x(void);")
        for i, (ns, svc, x) in enumerate(fns):
            base = "%s_%s_%s" % (ns, svc["name"], x["name"]); lbase = "%s_%s_%s" % (ns.lower(), svc["name"].lower(), x["name"])
            if x["res"]:
                w("static void answer_%d(struct gracht_message* m__, struct op* op__) {" % i); self.decl_params(x["res"], "y_"); w("vf_seed(op__->rseed, op__->rbudget);"); self.gen_params(x["res"], "y_"); self.expect(svc["id"], x["id"], 3, x["res"], "y_")
                w("if (%s_response(m__%s)) fail01(\"response %s cannot be sent\");" % (base, self.args(x["res"], "y_"), x["name"])); self.sent("response " + x["name"]); w("ar_reset(); }")
            w("void %s_invocation(struct gracht_message* m__%s) { struct op* op__ = vf_next(%d, \"%s\"); vf_seed(op__->seed, op__->budget);" % (base, self.formal(x["req"], "g_"), i, base))
            self.decl_params(x["req"], "x_"); self.gen_params(x["req"], "x_"); self.compare(x["req"], "g_", "x_", "request " + x["name"]); self.keep(x["req"], "g_", "x_")
            if x["res"]:
                w("if (op__->defer) { ar_reset(); vf_later(m__, op__, answer_%d); return; } answer_%d(m__, op__);" % (i, i))
            w("ar_reset(); }")
            w("static void call_%d(struct op* op__, struct gracht_message_context* ctx__) { vf_seed(op__->seed, op__->budget);" % i)
            self.decl_params(x["req"], "x_"); self.gen_params(x["req"], "x_"); self.expect(svc["id"], x["id"], 0 if x["res"] else 1, x["req"], "x_")
            w("if (%s(vf_client, ctx__%s)) fail01(\"call %s cannot be sent\");" % (lbase, self.args(x["req"], "x_"), x["name"])); self.sent("call " + x["name"]); w("ar_reset(); }")
            w("static void result_%d(struct op* op__, struct gracht_message_context* ctx__) {" % i)
            if x["res"]:
                w("vf_seed(op__->rseed, op__->rbudget);"); self.decl_params(x["res"], "y_"); self.gen_params(x["res"], "y_")
                call = []
                for p in x["res"]:
                    nm, ct = p["name"], v.ctype(p["type"])
                    if p["arr"]:
                        w("uint32_t c_%s = y_%s_count; if (op__->tight && c_%s) c_%s = r_n(c_%s + 1); %s* o_%s = ar(c_%s * sizeof(%s)); memset(o_%s, 0x5c, c_%s * sizeof(%s));" % (nm, nm, nm, nm, nm, ct, nm, nm, ct, nm, nm, ct)); call += ["o_" + nm, "c_" + nm]
                    elif p["type"] == "string": w("uint32_t c_%s = (uint32_t)strlen(y_%s) + 1; if (op__->tight) c_%s = 1 + r_n(c_%s + 3); char* o_%s = ar(c_%s); memset(o_%s, 0x5c, c_%s);" % (nm, nm, nm, nm, nm, nm, nm, nm)); call += ["o_" + nm, "c_" + nm]
                    else: w("%s o_%s; memset(&o_%s, 0x5c, sizeof o_%s);" % (ct, nm, nm, nm)); call.append("&o_" + nm)
                w("%s_result(vf_client, ctx__, %s);" % (lbase, ", ".join(call)))
                for p in x["res"]:
                    nm = p["name"]; k = v.kind(p["type"])
                    if p["arr"]:
                        w("for (uint32_t i__ = 0; i__ < c_%s; i__++) if (%s) fail01(\"result %s: %s[%%u of %%u] differs\", i__, y_%s_count);" % (nm, self.ne("o_%s[i__]" % nm, "y_%s[i__]" % nm, p["type"]), x["name"], nm, nm))
                        if k == "struct": w("for (uint32_t i__ = 0; i__ < c_%s; i__++) %s_destroy(&o_%s[i__]);" % (nm, v.scoped(p["type"]), nm))
                    elif k == "string":
                        w("{ uint32_t l__ = (uint32_t)strlen(y_%s); if (l__ > c_%s - 1) l__ = c_%s - 1; if (memcmp(o_%s, y_%s, l__) || o_%s[l__]) fail01(\"result %s: string %s differs (%%u of %%u bytes asked for)\", c_%s, (uint32_t)strlen(y_%s)); }" % (nm, nm, nm, nm, nm, nm, x["name"], nm, nm, nm))
                    elif k == "struct": w("{ const char* e__ = eq_%s(&o_%s, &y_%s); if (e__) fail01(\"result %s: %s differs in %%s\", e__); } %s_destroy(&o_%s);" % (v.scoped(p["type"]), nm, nm, x["name"], nm, v.scoped(p["type"]), nm))
                    else: w("if (%s) fail01(\"result %s: %s differs\");" % (self.ne("o_" + nm, "y_" + nm, p["type"]), x["name"], nm))
                w("ar_reset();")
            w("}")
        for i, (ns, svc, x) in enumerate(evs):
            base = "%s_%s_event_%s" % (ns, svc["name"], x["name"])
            w("void %s_invocation(gracht_client_t* c__%s) { struct op* op__ = vf_enext(%d, \"%s\"); vf_seed(op__->seed, op__->budget); if (c__ != vf_client) fail01(\"event %s came with another client\");" % (base, self.formal(x["params"], "g_"), -1 - i, base, x["name"]))
            self.decl_params(x["params"], "x_"); self.gen_params(x["params"], "x_"); self.compare(x["params"], "g_", "x_", "event " + x["name"]); self.keep(x["params"], "g_", "x_")
            w("ar_reset(); }")
            w("static void emit_%d(struct op* op__) { vf_seed(op__->seed, op__->budget);" % i)
            self.decl_params(x["params"], "x_"); self.gen_params(x["params"], "x_"); self.expect(svc["id"], x["id"], 2, x["params"], "x_")
            w("int r__ = op__->how & 1 ? %s_all(vf_server%s) : %s_single(vf_server, vf_conn%s); if (r__) fail01(\"event %s cannot be sent\"); if (vf_wire) vf_expected(op__->how & 1 ? 0 : \"an event\"); ar_reset(); }" % (base, self.args(x["params"], "x_"), base, self.args(x["params"], "x_"), x["name"]))
        sync_ns = v.services[-1][0] if v.services[-1][1]["name"] == "vfsync" else None
        for ns, svc in v.services:
            if svc["name"] == "vfsync": sync_ns = ns
        w("void %s_vfsync_ping_invocation(struct gracht_message* m, const uint32_t n) { vf_answer_later(); if (%s_vfsync_ping_response(m, n + 1)) fail01(\"ping\"); }" % (sync_ns, sync_ns))
        w("static void ping(void) { static uint32_t n = 41; uint32_t r = 0; struct gracht_message_context c; struct gracht_message_context* cs[1] = { &c }; n += 7; if (%s_vfsync_ping(vf_client, &c, n)) fail01(\"call ping cannot be sent\"); vf_await(cs, 1, 0); %s_vfsync_ping_result(vf_client, &c, &r); if (r != n + 1) fail01(\"ping returned %%u instead of %%u\", r, n + 1); }" % (sync_ns.lower(), sync_ns.lower()))
        has_res = [1 if f[2]["res"] else 0 for f in fns]
        w("typedef void (*call_fn)(struct op*, struct gracht_message_context*); typedef void (*emit_fn)(struct op*);")
        w("static const call_fn calls[] = { %s }; static const call_fn results[] = { %s }; static const emit_fn emits[] = { %s }; static const int has_res[] = { %s };" % (
            ", ".join(["call_%d" % i for i in range(self.nf)] + ["0"]), ", ".join(["result_%d" % i for i in range(self.nf)] + ["0"]), ", ".join(["emit_%d" % i for i in range(self.ne_)] + ["0"]), ", ".join([str(x) for x in has_res] + ["0"])))
        w("static const int nf = %d, ne = %d;" % (self.nf, self.ne_))
        names, sids = [], []
        for ns, svc, x in evs:
            b = "%s_%s" % (ns.lower(), svc["name"].lower())
            if b not in names: names.append(b); sids.append(svc["id"])
        for q, (b, sid) in enumerate(zip(names, sids)): w("static void sub_%d(int on) { struct gracht_message_context c; if (vf_wire) { vf_expect(0, on ? 0 : 1, 1); wput_u8(%d); } if (on ? %s_subscribe(vf_client, &c) : %s_unsubscribe(vf_client, &c)) fail01(\"a subscription request cannot be sent\"); if (vf_wire) vf_expected(\"a subscription request\"); }" % (q, sid, b, b))
        w("typedef void (*sub_fn)(int); static const sub_fn subs[] = { %s }; static const int ev_svc[] = { %s };" % (", ".join(["sub_%d" % q for q in range(len(names))] + ["0"]), ", ".join([str(names.index("%s_%s" % (ns.lower(), svc["name"].lower()))) for ns, svc, x in evs] + ["0"])))
    def main(self):
        v, w = self.v, self.w
        w("int main(int argc, char** argv) { uint64_t seed = strtoull(argv[1], 0, 10); int from = atoi(argv[2]), n = atoi(argv[3]); vf_mode17 = atoi(argv[4]) == 1; vf_wire = atoi(argv[4]) == 2; int seqn = atoi(argv[5]);")
        for e in v.enums():
            for x, val in v.enum_values(e): w("if ((long long)%s_%s != %dLL) fail01(\"enum value %s.%s is %%lld instead of %d\", (long long)%s_%s);" % (v.scoped(e).upper(), x, val, e, x, val, v.scoped(e).upper(), x))
        w("if (vf_mode17) {")
        for s in v.structs(): w("seq_%s(vf_hash(seed, %d), seqn);" % (v.scoped(s), v.structs().index(s)))
        w("}")
        for ns, svc in v.services:
            b = "%s_%s" % (ns, svc["name"]); fs = [x for x in svc["items"] if x["k"] == "func"]; es = [x for x in svc["items"] if x["k"] == "event"]
            if fs: w("vf_register_server(&%s_server_protocol);" % b)
            if es: w("vf_register_client(&%s_client_protocol);" % b)
        w("vf_packet = vf_hash(seed, 77) % 4 == 0; vf_start(); { struct gracht_message_context c;")
        for ns, svc in v.services:
            if any(x["k"] == "event" for x in svc["items"]): w("if (%s_%s_subscribe(vf_client, &c)) fail01(\"subscribe cannot be sent\");" % (ns.lower(), svc["name"].lower()))
        w("} ping();")
        w("""int skip = 0;
for (int i = from; i < from + n && nf + ne; i++) {
    struct op* o = &vf_ops[0]; uint64_t h = vf_hash(seed, 1000 + i); int batch = (h >> 40 & 3) == 0 ? 2 + (h >> 42 & 3) : 1; memset(vf_ops, 0, sizeof(struct op) * 8);
    int pick = (int)(h % (uint64_t)(nf + ne)); if (pick >= nf) batch = 1; vf_nops = batch; vf_head = 0; vf_ehead = 0;
    for (int k = 0; k < batch; k++) { uint64_t g = vf_hash(h, k); o[k].fn = pick >= nf ? -1 - (pick - nf) : k ? (int)(g % (uint64_t)nf) : pick; o[k].seed = vf_hash(g, 1); o[k].rseed = vf_hash(g, 2);
        int big = (g >> 50 & 7) == 0; o[k].budget = big ? 12000 / batch : (int)(g >> 20 & 1023); o[k].rbudget = (g >> 53 & 7) == 0 ? 12000 / batch : (int)(g >> 30 & 1023); o[k].tight = (g >> 56 & 3) == 0; o[k].how = (int)(g >> 58 & 1); }
    if (vf_packet); else if (batch == 1 && (h >> 46 & 31) == 0) { o[0].budget = pick >= nf ? 68000 : 140000; if (!(h >> 51 & 3)) o[0].rbudget = 140000; } else if (batch == 1 && (h >> 46 & 31) == 1) o[0].rbudget = 140000;
    if (pick >= nf && (h >> 47 & 3) == 0) { // not subscribed: a broadcast of this service does not arrive, one of another does
        int how = o[0].how; o[0].how = 1; subs[ev_svc[pick - nf]](0); ping(); emits[pick - nf](o); ping(); if (o[0].handled) fail01("an event arrived although its service was unsubscribed");
        for (int q = 0; q < ne; q++) { int e = (int)((h + q) % (uint64_t)ne); if (ev_svc[e] == ev_svc[pick - nf]) continue; o[1] = o[0]; o[1].budget = 100; o[1].fn = -1 - e; vf_ehead = 1; emits[e](&o[1]); vf_pump_event(); vf_ehead = 0; break; }
        subs[ev_svc[pick - nf]](1); ping(); o[0].how = how; }
    if (pick >= nf) { emits[pick - nf](o); vf_pump_event(); continue; }
    struct gracht_message_context c[8]; struct gracht_message_context* cs[8]; int idx[8], m = 0;
    int later = 0; for (int k = 0; k < batch; k++) if (has_res[o[k].fn] && !(vf_hash(h, 20 + k) & 7)) later = o[k].defer = 1;
    for (int k = 0; k < batch; k++) calls[o[k].fn](&o[k], &c[k]);
    if (later) ping();
    for (int k = 0; k < batch; k++) if (has_res[o[k].fn]) { cs[m] = &c[k]; idx[m++] = k; }
    if (m) vf_await(cs, m, 0);
    for (int k = 0; k < m; k++) { int q = h >> 45 & 1 ? m - 1 - k : k; results[o[idx[q]].fn](&o[idx[q]], cs[q]); }
    ping();
    for (int k = 0; k < batch; k++) if (o[k].handled != 1) fail01("call %d of a batch was handled %d times", k, o[k].handled);
}
(void)skip; if (vf_mode17) { int t = 0; while (vf_live() && t++ < 2000) usleep(2000); if (vf_live()) fail17("values of messages leave memory behind: %s", vf_live_what()); }
printf("OK\\n"); fflush(stdout); _exit(0); }""")
    def text(self):
        v = self.v
        self.w("#define _GNU_SOURCE\n#include <stdio.h>\n#include <unistd.h>\n#include \"support.h\"")
        for ns, svc in v.services: self.w("#include \"%s_%s_service_client.h\"\n#include \"%s_%s_service_server.h\"" % (ns, svc["name"], ns, svc["name"]))
        self.types(); self.wire_types(); self.helpers(); self.messages(); self.main()
        return "\n".join(self.o) + "\n"
