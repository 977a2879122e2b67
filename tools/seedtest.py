#!/usr/bin/env python3
"""Tries planted bugs: seedtest.py [--nocheck] ID...   For each: demo passes on the clean tree; with the patch it builds, the
stable tests pass, the demo fails, and (unless --nocheck) the property's quick check reports a violation. /repo is restored."""
import json, os, subprocess, sys, time
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
def run(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build():
    r = run(["bash", "/opt/vp/build.sh"]); return r.returncode == 0, r.stdout
def demo(d):
    t = time.time()
    try: r = run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", timeout=300)
    except subprocess.TimeoutExpired: return 124, "timeout", 300
    return r.returncode, r.stdout, time.time() - t
def restore(): run(["git", "-C", "/repo", "checkout", "--", "."])
args = sys.argv[1:]; check = "--nocheck" not in args; ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
stable = json.load(open("/opt/vp/BASELINE.json")); stable = stable.get("stable_passed") or stable.get("passed") or stable.get("stable") or list(stable)
assert not run(["git", "-C", "/repo", "status", "--porcelain"]).stdout.strip(), "/repo is not clean"
build(); clean = {i: demo(os.path.join(V, "seeded", i)) for i in ids}
for i in ids:
    d = os.path.join(V, "seeded", i); pid = json.load(open(os.path.join(d, "meta.json")))["property"]; out = [i, pid]
    if clean[i][0]: print(i, "DEMO FAILS ON CLEAN TREE:", clean[i][1][-800:]); continue
    try:
        r = run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
        if r.returncode: print(i, "DOES NOT APPLY", r.stdout); continue
        ok, log = build()
        if not ok: print(i, "DOES NOT BUILD", log[-1500:]); continue
        run(["bash", "/opt/vp/test.sh", "/tmp/seedtest.json"]); p = json.load(open("/tmp/seedtest.json"))["passed"]; miss = [x for x in stable if x not in p]
        if miss: print(i, "TESTS FAIL", miss); continue
        rc, log, t = demo(d)
        if not rc: print(i, "DEMO DOES NOT FAIL", log[-800:]); continue
        out.append("demo ok (%.1fs clean, %.1fs patched)" % (clean[i][2], t))
        if check:
            t = time.time(); r = run([sys.executable, os.path.join(V, "vf.py"), "check", pid], env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            hit = r.returncode == 1 and ("VIOLATION property=" + pid) in r.stdout
            out.append(("CAUGHT" if hit else "*** MISSED (exit %d)" % r.returncode) + " %.0fs" % (time.time() - t)); out.append(" | ".join(l.strip() for l in r.stdout.split("\n") if l.startswith("  "))[:200] if hit else r.stdout[-300:])
        print(" ".join(out)); sys.stdout.flush()
    finally: restore()
build()
