#!/usr/bin/env python3
"""plant.py make FILE   : create seeded/<id> from a python file with bug(id, prop, file, old, new, needs, breaks, demo) calls
   plant.py test ID...   : in /repo: apply, build, stable tests, demo (must fail), check (report); undo; at the end demos must pass unpatched
Development tool; not used by any check."""
import sys, os, subprocess, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = os.path.join(V, "seeded")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
# exit 0: behaviour as required; nonzero: violated. Run with cwd /repo after the build.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=gnu++20 -O0 -w -frounding-math -ffunction-sections -fdata-sections -I"$PWD/source" "$d/demo.cpp" -o "$t/demo" -Wl,--gc-sections -Wl,--allow-multiple-definition -Wl,--unresolved-symbols=ignore-all -Wl,-rpath,"$PWD/_build" %s -ldl -lgmp -lmpfr || exit 2
timeout 120 "$t/demo"
'''
def bug(id, prop, edits, needs, breaks, demo, libs="_build/libariadne-core.so"):
    if isinstance(edits, tuple): edits = [edits]
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    try:
        for f, old, new in edits:
            p = "/repo/" + f; s = open(p, newline="").read()
            if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (id, f, s.count(old)); open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True).stdout
    finally: sh("git -C /repo checkout -- .")
    d = os.path.join(S, id); os.makedirs(d, exist_ok=True); open(d + "/patch.diff", "wb").write(diff); open(d + "/demo.cpp", "w").write(demo); open(d + "/demo.sh", "w").write(DEMO % libs); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1); print("made", id)
def demo(id): r = sh("bash %s/%s/demo.sh" % (S, id), cwd="/repo"); return r.returncode, (r.stdout + r.stderr)[-400:]
def test(ids, check=True):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for id in ids:
        d = os.path.join(S, id); meta = json.load(open(d + "/meta.json")); r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode: print(id, "APPLY FAILED", r.stderr); continue
        try:
            t = time.time(); b = sh("bash /opt/vp/test.sh /tmp/pl.json"); res = json.load(open("/tmp/pl.json")); lost = stable - set(res["passed"]); print(id, "tests lost:", len(lost), sorted(lost)[:4], "%.0fs" % (time.time() - t), flush=True)
            if len(lost) == len(stable): print(b.stdout[-1500:])
            c, o = demo(id); print(id, "demo with patch rc", c, "OK" if c else "BAD (passes)", o.strip()[-200:] if c == 2 else "", flush=True)
            if check: t = time.time(); r = sh("./check %s quick" % meta["property"], cwd=V); print(id, "check rc", r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l][:3], "%.0fs" % (time.time() - t), flush=True)
        finally: sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    for id in ids: c, o = demo(id); print(id, "demo without patch rc", c, "OK" if c == 0 else "BAD " + o, flush=True)
if sys.argv[1] == "make": exec(open(sys.argv[2]).read())
else: test([a for a in sys.argv[2:] if a != "--nocheck"], "--nocheck" not in sys.argv)
