"""Driver: compiles /repo's current sources and the specifications to LLVM IR, runs the verifier
(engine/vpverify), replays counterexamples natively, writes the evidence file."""
import os, sys, re, json, time, hashlib, subprocess, shutil, concurrent.futures as cf, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
ENGINE = os.path.join(BUILD, "engine", "vpverify")
LLVM = "/usr/lib/llvm-18/bin"
CXX = ["clang++", "-std=c++20", "-frounding-math", "-ffp-contract=off", "-O0", "-Xclang", "-disable-O0-optnone", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DMPFR_USE_NO_MACRO", "-DVP_SPEC",
       "-I", os.path.join(VERIF, "shim"), "-I", os.path.join(REPO, "source"), "-I", REPO, "-I", os.path.join(VERIF, "lib"), "-w", "-emit-llvm", "-c"]
JOBS = os.cpu_count() or 8
_hc = {}
def fhash(p):
    try:
        st = os.stat(p); k = (p, st.st_mtime_ns, st.st_size)
        if k not in _hc: _hc[k] = hashlib.sha1(open(p, "rb").read()).hexdigest()
        return _hc[k]
    except OSError: return None
def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, **kw)
def build_engine():
    src = os.path.join(VERIF, "engine"); out = os.path.join(BUILD, "engine"); os.makedirs(out, exist_ok=True)
    r = run(["make", "-s", "-j", str(JOBS), "-C", src, "OUT=" + out, os.path.join(out, "vpverify")])
    if r.returncode: raise RuntimeError("engine build failed:\n" + r.stderr[-3000:])
def compile_bc(src, extra=()):
    """Compile one source to bitcode; reuses a previous result only if every file it depended on is byte-identical."""
    cmd = CXX + list(extra)
    key = hashlib.sha1((src + "\0" + "\0".join(cmd)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "bc"); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, os.path.basename(src) + "." + key + ".bc"); dep = out + ".deps.json"
    if os.path.exists(out) and os.path.exists(dep):
        try:
            deps = json.load(open(dep))
            if deps.get("out") == fhash(out) and all(fhash(p) == h for p, h in deps["files"].items()): return out, True
        except Exception: pass
    mf = out + ".%d.%d.d" % (os.getpid(), threading.get_ident()); tmp = mf + ".bc"
    r = run(cmd + ["-MD", "-MF", mf, "-o", tmp, src], timeout=600)
    if r.returncode:
        for f in (mf, tmp):
            if os.path.exists(f): os.remove(f)
        raise RuntimeError("compilation of %s failed:\n%s" % (src, r.stderr[:3000]))
    txt = open(mf).read().replace("\\\n", " "); files = txt.split(":", 1)[1].split(); os.remove(mf)
    os.replace(tmp, out)
    json.dump({"out": fhash(out), "files": {p: fhash(p) for p in files}}, open(dep, "w"))
    return out, False
class Unit: pass
def load_unit(path):
    u = Unit(); u.path = path; u.name = os.path.splitext(os.path.basename(path))[0]; txt = open(path).read(); u.text = txt
    def tag(t): return [x for m in re.finditer(r"^//\s*" + t + r":\s*(.*)$", txt, re.M) for x in m.group(1).split()]
    u.properties = tag("VP-PROPERTY"); u.sources = [os.path.join(REPO, s) if s.startswith("source/") else os.path.join(VERIF, s) for s in tag("VP-SOURCES")]
    u.timeout = float((tag("VP-TIMEOUT") or ["150"])[0]); u.bounded = tag("VP-BOUNDED"); u.qms = int((tag("VP-QUERY-MS") or ["15000"])[0])
    u.notes = [m.group(1) for m in re.finditer(r"^//\s*VP-ASSUME:\s*(.*)$", txt, re.M)]
    u.boundnotes = [m.group(1) for m in re.finditer(r"^//\s*VP-BOUND:\s*(.*)$", txt, re.M)]
    u.notdeduct = [m.group(1) for m in re.finditer(r"^//\s*VP-NATIVE-ONLY:\s*(.*)$", txt, re.M)]
    return u
def units_for(prop):
    d = os.path.join(VERIF, "specs"); us = [load_unit(os.path.join(d, f)) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
    return [u for u in us if prop in u.properties]
def build_units(us, tier, log):
    jobs = {}; extra = ["-DVP_THOROUGH"] if tier == "thorough" else []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for u in us:
            jobs[("spec", u.path)] = ex.submit(compile_bc, u.path, tuple(extra))
            for s in u.sources: jobs.setdefault(("src", s), None)
        for k in list(jobs):
            if jobs[k] is None: jobs[k] = ex.submit(compile_bc, k[1])
        res = {}; errs = {}
        for k, f in jobs.items():
            try: res[k] = f.result()[0]
            except Exception as e: errs[k] = str(e)
    for u in us:
        u.error = None; u.bc = None
        bad = [errs[k] for k in [("spec", u.path)] + [("src", s) for s in u.sources] if k in errs]
        if bad: u.error = bad[0]; continue
        d = os.path.join(BUILD, "link"); os.makedirs(d, exist_ok=True); base = os.path.join(d, u.name + "." + tier)
        r = run([LLVM + "/llvm-link", "-o", base + ".raw.bc", res[("spec", u.path)]] + [res[("src", s)] for s in u.sources])
        if r.returncode: u.error = "llvm-link: " + r.stderr[:2000]; continue
        r = run([LLVM + "/opt", "-passes=function(sroa,early-cse,simplifycfg),globaldce", base + ".raw.bc", "-o", base + ".bc"])
        if r.returncode: u.error = "opt: " + r.stderr[:2000]; continue
        u.bc = base + ".bc"; u.raw = base + ".raw.bc"
_nat = {}
def native(u):
    """Executable of the same bitcode, linked with the real GMP/MPFR, for replaying counterexamples."""
    if u.name in _nat: return _nat[u.name]
    exe = os.path.join(BUILD, "link", u.name + ".native"); obj = exe + ".o"; rt = os.path.join(BUILD, "vp_native.o")
    r = run(["clang++", "-O1", "-w", "-fPIC", "-c", u.raw, "-o", obj], timeout=300)
    if r.returncode == 0 : r = run(["clang++", "-std=c++17", "-O1", "-w", "-frounding-math", "-c", os.path.join(VERIF, "lib", "vp_native.cpp"), "-o", rt], timeout=200)
    if r.returncode == 0:
        und = sorted({l.split()[-1] for l in run(["nm", "-u", obj, rt]).stdout.split("\n") if "7Ariadne" in l})
        st = exe + ".stub.s"; open(st, "w").write(".text\n" + "".join(".globl %s\n%s:\n" % (x, x) for x in und if "@" not in x) + " ud2\n ud2\n ud2\n ud2\n.section .note.GNU-stack,\"\",@progbits\n")
        r = run(["clang++", "-rdynamic", "-o", exe, obj, rt, st, "-lmpfr", "-lgmp", "-lgmpxx", "-ldl", "-lpthread"], timeout=200)
    if r.returncode: sys.stderr.write("native build of %s failed: %s\n" % (u.name, r.stderr[:1500])); exe = None
    _nat[u.name] = exe; return exe
def native_run(exe, spec, args, timeout):
    try: r = run([exe, spec] + args, timeout=timeout)
    except subprocess.TimeoutExpired: return None, "timeout"
    return r.returncode, r.stdout
