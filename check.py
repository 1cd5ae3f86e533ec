#!/usr/bin/env python3
"""Decides one property of libqasm by symbolic execution of the code in /repo.

usage: check.py ID [--tier quick|thorough] [--keep] [-v]
exit 0: property held on everything within the stated bounds; 1: VIOLATION printed; 2: no answer.
"""
import sys, os, json, time, threading, subprocess, hashlib, shutil, tempfile, argparse, re
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VP_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"
BUILD = os.path.join(HERE, "build")
NCPU = os.cpu_count() or 4

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)

class NoAnswer(Exception):
    pass

def fhash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        with open(p, "rb") as f:
            h.update(p.encode()); h.update(f.read())
    return h.hexdigest()[:20]

def cached(cmd):
    """Runs a compilation; with VP_CACHE=1 (development only) reuses the result for an identical preprocessed text."""
    if os.environ.get("VP_CACHE") != "1" or "-c" not in cmd: return sh(cmd)
    o = cmd[cmd.index("-o") + 1]; rest = cmd[:cmd.index("-o")] + cmd[cmd.index("-o") + 2:]
    pre = subprocess.run([x for x in rest if x not in ("-c", "-emit-llvm")] + ["-E", "-P"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    if pre.returncode: return sh(cmd)
    work = re.compile(r"/verif/build/w_\w+/")
    h = hashlib.sha256(work.sub("", " ".join(rest)).encode() + pre.stdout).hexdigest()[:24]
    c = os.path.join(BUILD, "cache", h); os.makedirs(os.path.dirname(c), exist_ok=True)
    if os.path.exists(c): shutil.copy(c, o); return subprocess.CompletedProcess(cmd, 0, "", "")
    r = sh(cmd)
    if r.returncode == 0: shutil.copy(o, c + ".%d" % os.getpid()); os.replace(c + ".%d" % os.getpid(), c)
    return r

def atomic_build(out, cmds_for):
    """cmds_for(tmp) -> list of commands producing tmp; result renamed to out."""
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    for c in cmds_for(tmp):
        r = sh(c)
        if r.returncode:
            raise NoAnswer("build of %s failed:\n%s" % (os.path.basename(out), (r.stderr or r.stdout)[-3000:]))
    os.replace(tmp, out)
    return out

ENG = os.path.join(HERE, "engine")
def build_engine():
    src = [os.path.join(ENG, f) for f in ("symex.cpp", "interp.h", "solver.h", "expr.h")]
    out = os.path.join(BUILD, "symex-" + fhash(src))
    return atomic_build(out, lambda t: [["clang++", "-std=c++17", "-O2", "-w", "-I" + LLVM + "/include", src[0], "-o", t, "-L" + LLVM + "/lib", "-lLLVM-18", "-lz3"]])

IRFLAGS = ["-std=c++20", "-fno-vectorize", "-fno-slp-vectorize", "-fno-discard-value-names", "-gline-tables-only", "-emit-llvm", "-c", "-w"]
def build_rt():
    src = [os.path.join(ENG, f) for f in ("rt_c.c", "rt.cpp", "rt_stream.cpp", "rt_inst.cpp", "rt_locale.cpp")]
    key = fhash(src)
    out = os.path.join(BUILD, "rt-%s.bc" % key)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    d = tempfile.mkdtemp(prefix="rt", dir=BUILD)
    try:
        cx = ["clang++", "-O1", "-fno-builtin"] + IRFLAGS
        jobs = [["clang", "-x", "c", "-std=gnu11", "-O1", "-fno-builtin", "-w", "-emit-llvm", "-c", src[0], "-o", d + "/c.bc"],
                cx + [src[1], "-o", d + "/a.bc"], cx + [src[2], "-o", d + "/s.bc"], cx + ["-D_GLIBCXX_EXTERN_TEMPLATE=0", src[4], "-o", d + "/l.bc"],
                cx + ["-D_GLIBCXX_EXTERN_TEMPLATE=0", src[3], "-o", d + "/i1.bc"],
                cx + ["-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DSTREAMS", "-fno-inline", src[3], "-o", d + "/i2.bc"]]
        with ThreadPoolExecutor(6) as ex:
            for r in ex.map(sh, jobs):
                if r.returncode:
                    raise NoAnswer("runtime model build failed:\n" + r.stderr[-3000:])
        link = LLVM + "/bin/llvm-link"
        r = sh([link, d + "/c.bc", d + "/a.bc", d + "/s.bc", d + "/l.bc", d + "/i1.bc", d + "/i2.bc", "-o", d + "/all.bc"])
        if r.returncode:
            raise NoAnswer("runtime model link failed:\n" + r.stderr[-3000:])
        os.replace(d + "/all.bc", out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out

class Program:
    """A harness plus the libqasm sources it exercises."""
    def __init__(self, harness, sources, flags=(), opt="-O1", irflags=(), gen=None, extra=()):
        self.harness, self.sources, self.flags, self.opt, self.irflags, self.gen, self.extra = harness, list(sources), list(flags), opt, list(irflags), gen, list(extra)
    def key(self):
        return re.sub(r"\W+", "_", self.harness + "_" + "_".join(self.flags + self.irflags))

class Job:
    def __init__(self, prog, params=None, reach=(), max_time=120, fallback=None, max_steps=None):
        self.prog, self.params, self.reach, self.max_time, self.fallback, self.max_steps = prog, dict(params or {}), list(reach), max_time, fallback, max_steps

def inc_flags(prog, work):
    fl = ["-DFMT_HEADER_ONLY", "-I" + os.path.join(HERE, "harness")]
    if prog.gen:
        fl += ["-I" + os.path.join(HERE, "shim"), "-I" + os.path.join(work, "gen")]
    if os.path.exists(os.path.join(work, "incl")): fl += ["-I" + os.path.join(work, "incl")]
    fl += ["-I" + os.path.join(REPO, "include")]
    return fl + prog.flags

def sources_of(prog, work):
    out = [os.path.join(HERE, "harness", prog.harness)] + [os.path.join(HERE, e) for e in prog.extra]
    for s in prog.sources:
        if s.startswith("gen:"):
            out.append(os.path.join(work, "gen", s[4:]))
        else:
            out.append(os.path.join(REPO, s))
    return out

def run_gen(work):
    g = os.path.join(work, "gen")
    if not os.path.exists(g):
        os.makedirs(g)
        for gen in ("treegen.py", "antlrgen.py"):
            r = sh([sys.executable, os.path.join(HERE, "shim", gen), REPO, g])
            if r.returncode:
                raise NoAnswer(gen + " failed:\n" + r.stderr[-3000:])

FMT_MODEL = [  # fmt library model: the decimal digits of an integer come from the engine primitive vp_udec
    ('#include "core.h"', 'extern "C" unsigned vp_udec(unsigned long, char*);\ninline int vp_count_digits(unsigned long n) { char t[24]; return (int)vp_udec(n, t); }', 1),
    ("FMT_CONSTEXPR20 inline auto count_digits(uint64_t n) -> int {", "  if (!is_constant_evaluated()) return vp_count_digits(n);", 1),
    ("FMT_CONSTEXPR20 inline auto count_digits(uint32_t n) -> int {", "  if (!is_constant_evaluated()) return vp_count_digits(n);", 1),
    ("FMT_CONSTEXPR20 auto format_decimal(Char* out, UInt value, int size)\n    -> format_decimal_result<Char*> {", "  if constexpr (sizeof(Char) == 1 && sizeof(UInt) <= 8) if (!is_constant_evaluated()) { char t[24]; int n = (int)vp_udec((unsigned long)value, t); Char* e = out + size; for (int i = 0; i < n; i++) e[i - n] = t[i]; return {e - n, e}; }", 1)]
CHARCONV_MODEL = [  # std::to_string, std::to_chars, std::format
    ("namespace std _GLIBCXX_VISIBILITY(default)\n{", 'extern "C" unsigned vp_udec(unsigned long, char*);\ninline unsigned vp_to_chars_len(unsigned long n) { char t[24]; return vp_udec(n, t); }\n'),
    ("__to_chars_len(_Tp __value, int __base = 10) noexcept\n    {", "      if constexpr (sizeof(_Tp) <= 8) if (__base == 10 && !std::__is_constant_evaluated()) return vp_to_chars_len((unsigned long)__value);"),
    ("__to_chars_10_impl(char* __first, unsigned __len, _Tp __val) noexcept\n    {", "      if constexpr (sizeof(_Tp) <= 8) if (!std::__is_constant_evaluated()) { vp_udec((unsigned long)__val, __first); return; }")]
FROM_CHARS_MODEL = [  # std::from_chars
    ("namespace std _GLIBCXX_VISIBILITY(default)\n{", 'extern "C" int vp_from_chars(const char**, const char*, unsigned long long*, unsigned long long, unsigned long long);\n'),
    ("from_chars(const char* __first, const char* __last, _Tp& __value,\n\t       int __base = 10)\n    {", "      if constexpr (sizeof(_Tp) <= 8) if (__base == 10 && !std::__is_constant_evaluated()) { unsigned long long v = 0; const char* p = __first; using L = __gnu_cxx::__int_traits<_Tp>; int k = vp_from_chars(&p, __last, &v, (unsigned long long)L::__max, std::is_signed<_Tp>::value ? (unsigned long long)L::__max + 1 : 0ull); if (k == 0) __value = (_Tp)v; return {p, k == 0 ? errc{} : k == 1 ? errc::invalid_argument : errc::result_out_of_range}; }")]
def fmt_overlay(work):
    d = os.path.join(work, "fmtm")
    if os.path.exists(d): return d
    import glob
    for name, model in (("bits/charconv.h", CHARCONV_MODEL), ("charconv", FROM_CHARS_MODEL)):
        cc = sorted(glob.glob("/usr/include/c++/*/" + name)); t = open(cc[-1]).read() if cc else ""
        if all(t.count(sig) == 1 for sig, _ in model):
            for sig, add in model: t = t.replace(sig, add + sig if sig.startswith("namespace") else sig + "\n" + add)
            q = os.path.join(d + ".t", name); os.makedirs(os.path.dirname(q), exist_ok=True); open(q, "w").write(t)
    shutil.copytree("/usr/include/fmt", os.path.join(d + ".t", "fmt"))
    p = os.path.join(d + ".t", "fmt", "format.h"); t = open(p).read()
    for sig, add, n in FMT_MODEL:
        if t.count(sig) < 1: raise NoAnswer("fmt model does not fit the installed fmt")
        t = t.replace(sig, add if sig in add else sig + "\n" + add, n)
    open(p, "w").write(t)
    os.rename(d + ".t", d)
    return d

def accommodate_clang(work):
    """g++ (which builds libqasm) deduces the type of a comparison written out in a nested class before a defaulted one that needs it, clang++ does not: name the type."""
    d = os.path.join(work, "incl")
    if os.path.exists(d): return False
    shutil.copytree(os.path.join(REPO, "include"), d + ".t"); any_ = False
    for r, _, fs in os.walk(d + ".t"):
        for f in fs:
            p = os.path.join(r, f); t = open(p, errors="surrogateescape").read(); n = re.sub(r"\bauto(\s+operator\s*<=>)", r"std::strong_ordering\1", t)
            if n == t: os.unlink(p)
            else: any_ = True; open(p, "w", errors="surrogateescape").write("#include <compare>\n#line 1\n" + n)
    os.rename(d + ".t", d)
    return any_
ACC = __import__("threading").Lock()
def compile_ir(prog, work, pool):
    try: return compile_ir1(prog, work, pool)
    except NoAnswer as e:
        if "three-way comparison" not in str(e) and "operator<=>" not in str(e): raise
        with ACC: again = accommodate_clang(work) or os.path.exists(os.path.join(work, "incl"))
        if not again: raise
        return compile_ir1(prog, work, pool)
def compile_ir1(prog, work, pool):
    d = os.path.join(work, "ir_" + prog.key()); os.makedirs(d, exist_ok=True)
    cmds, outs = [], []
    for i, s in enumerate(sources_of(prog, work)):
        o = os.path.join(d, "%d_%s.bc" % (i, os.path.basename(s))); outs.append(o)
        cmds.append(["clang++", prog.opt, "-I" + fmt_overlay(work)] + IRFLAGS + inc_flags(prog, work) + prog.irflags + [s, "-o", o])
    for c, r in zip(cmds, pool.map(cached, cmds)):
        if r.returncode:
            raise NoAnswer("compilation to IR failed: %s\n%s" % (c[-3], r.stderr[-3000:]))
    return outs

def link_ir(prog, work, outs, rt):
    o = os.path.join(work, prog.key() + ".bc")
    r = sh([LLVM + "/bin/llvm-link"] + outs + ["--only-needed" if False else "-o", o, rt] if False else [LLVM + "/bin/llvm-link"] + outs + [rt, "-o", o])
    if r.returncode:
        raise NoAnswer("linking IR failed:\n" + r.stderr[-3000:])
    o2 = o.replace(".bc", ".o.bc")
    # internalise and drop what vp_main cannot reach; split vector operations
    r = sh([LLVM + "/bin/opt", "-passes=internalize,globaldce,scalarizer", "-internalize-public-api-list=vp_main,vp_errno,__gxx_personality_v0", o, "-o", o2])
    if r.returncode:
        raise NoAnswer("opt failed:\n" + r.stderr[-3000:])
    os.unlink(o)
    return o2

def compile_native(prog, work, pool, san, irs=None):
    """san: from source with gcc and sanitizers; otherwise code generation from the bitcode that is analysed (before the library models are linked)."""
    d = os.path.join(work, "nat_" + prog.key() + ("_san" if san else "")); os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "exe")
    cmds, objs = [], []
    if san:
        base = ["g++", "-std=c++20", "-O0", "-w", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] + inc_flags(prog, work)
        srcs = sources_of(prog, work)
    else:
        base, srcs = ["clang++", "-O0", "-w", "-Wno-everything"], irs
    for i, s in enumerate(srcs + [os.path.join(HERE, "native", "native.cpp")]):
        o = os.path.join(d, "%d.o" % i); objs.append(o)
        cmds.append((base if not s.endswith("native.cpp") else base + ["-std=c++20", "-I" + os.path.join(HERE, "harness")]) + ["-c", s, "-o", o])
    for c, r in zip(cmds, pool.map(sh, cmds)):
        if r.returncode:
            raise NoAnswer("native compilation failed: %s\n%s" % (c[-3], r.stderr[-3000:]))
    r = sh(["g++"] + (["-fsanitize=address,undefined"] if san else []) + objs + ["-o", exe])
    if r.returncode:
        raise NoAnswer("native link failed:\n" + r.stderr[-3000:])
    return exe

RUNNING = set()
def kill_running():
    for p in list(RUNNING):
        try: p.kill()
        except OSError: pass

def run_symex(engine, bc, job, params, max_time, maxviol=3):
    cmd = [engine, bc, "--max-time", str(max_time), "--max-viol", str(maxviol)]
    if job.max_steps: cmd += ["--max-steps", str(job.max_steps)]
    for k, v in params.items(): cmd += ["-p", "%s=%d" % (k, v)]
    t = time.time()
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace"); RUNNING.add(p)
        out, err = p.communicate(timeout=max_time + 90)
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate()
        return {"error": "symex did not stop within its time bound"}
    finally:
        RUNNING.discard(p)
    try:
        d = json.loads(out)
    except Exception:
        return {"error": "symex failed (rc %d): %s" % (p.returncode, (err or out)[-1500:])}
    d["cpu_wall"] = time.time() - t
    return d

def run_native(exe, inputs, params, work, timeout=30):
    fd, p = tempfile.mkstemp(dir=work, suffix=".in")
    with os.fdopen(fd, "w") as f:
        for n, w, v in inputs: f.write("%s %s\n" % (n, v))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2048", UBSAN_OPTIONS="print_stacktrace=0")
    try:
        r = sh(["bash", "-c", ("" if "_san/" in exe else "ulimit -v 4000000; ") + "ulimit -t %d; exec \"$@\"" % timeout, "x", exe, p] + ["%s=%d" % kv for kv in params.items()], timeout=timeout + 10, env=env)
    except subprocess.TimeoutExpired:
        return -999, "", "timeout"
    finally:
        os.unlink(p)
    return r.returncode, r.stdout, r.stderr

def load_known():
    known = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m: known.append((m.group(1), m.group(2), m.group(3).strip()))
    return known

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--keep", action="store_true"); ap.add_argument("-v", action="store_true"); ap.add_argument("--only", type=int)
    a = ap.parse_args()
    t0 = time.time()
    if a.id == "--setup": return 0
    import registry
    if a.id == "setup":
        build_engine(); build_rt(); return 0
    if a.id not in registry.CHECKS:
        print("unknown property", a.id); return 2
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="w_%s_" % a.id, dir=BUILD)
    try:
        return run(a, registry, work, t0)
    except NoAnswer as e:
        print("NO ANSWER for %s: %s" % (a.id, e)); return 2
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
        else: print("kept", work)

def run(a, registry, work, t0):
    pid = a.id
    chk = registry.CHECKS[pid](a.tier)
    if "python" in chk:
        import pyrun
        return pyrun.run(sys.modules[__name__], a, chk, work, t0)
    jobs = chk["jobs"]
    if a.only is not None: jobs = [jobs[a.only]]
    progs = []
    for j in jobs:
        if j.prog not in progs: progs.append(j.prog)
    pool = ThreadPoolExecutor(NCPU); pool2 = ThreadPoolExecutor(NCPU)
    if any(p.gen for p in progs): run_gen(work)
    fmt_overlay(work)
    fe, fr = pool2.submit(build_engine), pool2.submit(build_rt)
    firs = {p: pool2.submit(compile_ir, p, work, pool) for p in progs}
    engine, rt = fe.result(), fr.result()
    bcs = {p: link_ir(p, work, firs[p].result(), rt) for p in progs}
    if a.v: print("[%.1fs] encoded" % (time.time() - t0))
    natf = {p: pool2.submit(compile_native, p, work, pool, False, firs[p].result()) for p in progs}
    runner = ThreadPoolExecutor(NCPU)
    budget = float(os.environ.get("VP_BUDGET", "780" if a.tier == "quick" else "1e9")); stop = [t0 + budget]   # no job runs past this point
    def one(j, params, maxt):
        left = stop[0] - time.time()
        if left < 1: return {"skipped": True}
        d = run_symex(engine, bcs[j.prog], j, params, max(1, min(maxt, left)))
        return {"skipped": True} if "error" in d and confirmed else d
    futs = {runner.submit(one, j, j.params, j.max_time): j for j in jobs}
    results, incomplete, skipped = [], [], []
    nat, sanexe, found = {}, {}, []
    confirmed, unconfirmed, seen_known = [], [], []
    known = [k for k in load_known() if k[0] == pid]
    def known_of(v): return next((k for k in known if k[1] and k[1] in (v["kind"] + "|" + v["msg"] + "|" + v["where"]).replace(" ", "_")), None)
    def confirm(j, v):   # replay the counterexample against the real code
        if j.prog not in nat: nat[j.prog] = natf[j.prog].result()
        rc, out, err = run_native(nat[j.prog], v["inputs"], j.params, work)
        how = "native"
        if rc in (0, 77) and v["kind"] in ("memory", "ub", "div0", "alloc", "trap", "unreachable", "recursion"):
            if j.prog not in sanexe: sanexe[j.prog] = compile_native(j.prog, work, pool, True)
            rc, out, err = run_native(sanexe[j.prog], v["inputs"], j.params, work); how = "native with sanitizers"
        v["replay_rc"], v["replay_how"] = rc, how
        v["replay_out"] = (out[-600:] + err[-600:]).strip()
        return rc not in (0, 77)
    for f in as_completed(futs):
        j = futs[f]; d = f.result()
        if "error" not in d and "skipped" not in d and not d["violations"] and (d["inconclusive"] or not d["exhausted"]) and j.fallback is not None:
            if a.v: print("fallback for", j.params, d["inconclusive"])
            d2 = one(j, j.fallback, j.max_time)
            if "skipped" not in d2: d2["reduced_bounds"] = {"from": j.params, "why": d.get("inconclusive")}; d = d2; j.params = j.fallback
        if "skipped" in d: skipped.append(j); continue
        if "error" in d: raise NoAnswer(d["error"])
        results.append((j, d))
        if a.v: print("[%.1fs] %s %s paths=%d q=%d(unsat %d) solver=%.1fs wall=%.1fs checks=%d/%d exhausted=%s viol=%d inc=%s" % (time.time() - t0, j.prog.harness, j.params, d["paths"], d["queries"], d["unsat"], d["solver_s"], d["wall_s"], d["checks"], d["checks_symbolic"], d["exhausted"], len(d["violations"]), d["inconclusive"]), flush=True)
        for v in d["violations"] + (d.get("suspects", []) if not confirmed else []):
            if time.time() > stop[0] + 60 and confirmed: break
            if confirm(j, v):
                confirmed.append((j, v))
                if not known_of(v) and not found:   # found: give what is running a little more time
                    found.append(v); stop[0] = min(stop[0], time.time() + 5); tm = threading.Timer(20, kill_running); tm.daemon = True; tm.start()
            elif v["kind"] != "hang": unconfirmed.append((j, v))   # the real code ends: what is left is a bound of this check, reported as incomplete
    order = {id(j): n for n, j in enumerate(jobs)}
    results.sort(key=lambda x: order[id(x[0])])
    for p in progs:
        if p not in nat: nat[p] = natf[p].result()
    for j, d in results:
        for i in d["inconclusive"]:
            incomplete.append("%s %s: %s" % (j.prog.harness, j.params, i))
        if not d["exhausted"] and not d["violations"] and not d["inconclusive"]: incomplete.append("%s %s: not exhausted" % (j.prog.harness, j.params))
    for j in skipped: incomplete.append("%s %s: not run, %s" % (j.prog.harness, j.params, "a violation was found" if confirmed else "time budget used up"))
    # --- vacuity ---
    vac = []
    reached = {}
    for j, d in results:
        for r in d["reached"]: reached[r] = reached.get(r, 0) + d["reached"][r]
    for r in chk.get("reach", []):
        if r not in reached: vac.append(r)
    for j, d in results:
        if not d["checks"] and not d["violations"] and d["exhausted"]: vac.append("any assertion in %s %s" % (j.prog.harness, j.params))
    nsymchecks = sum(d["checks_symbolic"] for _, d in results)
    # --- conformance: sampled paths replayed natively ---
    validated, mism, samples = 0, [], []
    for j, d in results:
        for s in d["samples"] if not confirmed else []:
            rc, out, err = run_native(nat[j.prog], s["inputs"], j.params, work)
            obs = [l.split()[1:] for l in out.splitlines() if l.startswith("OBS ")]
            if rc != 0 or obs != [list(x) for x in s["obs"]]:
                mism.append({"params": j.params, "inputs": s["inputs"], "rc": rc, "native": out[-400:], "engine": s["obs"]})
            else: validated += 1
            if len(samples) < 12 and (not samples or len(s["inputs"])): samples.append({"harness": j.prog.harness, "bounds": j.params, "inputs": {n: int(v) for n, w, v in s["inputs"]}, "observed": s["obs"]})
    ev = {"property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {
              "states": sum(d["paths"] for _, d in results), "transitions": sum(d["instructions"] for _, d in results),
              "traces_validated_against_impl": validated, "samples": samples or [{"note": "no completed path sampled"}],
              "exhaustive": not incomplete and not confirmed,
              "state_unit": "symbolic execution paths, each standing for all inputs satisfying its path condition", "transition_unit": "LLVM IR instructions interpreted",
              "functions_encoded": sorted(set(f for _, d in results for f in d["functions"])),
              "bounds": chk.get("bounds", ""), "jobs": [{"harness": j.prog.harness, "params": j.params, "paths": d["paths"], "queries": d["queries"], "cached_queries": d["cache_hits"], "sat": d["sat"], "unsat": d["unsat"], "unknown": d["unknown"], "solver_s": round(d["solver_s"], 3), "wall_s": round(d["wall_s"], 3), "assertions_evaluated": d["checks"], "assertions_decided_by_solver_or_simplifier": d["checks_symbolic"], "exhausted": d["exhausted"], **({"reduced_bounds": d["reduced_bounds"]} if "reduced_bounds" in d else {})} for j, d in results],
              "queries": sum(d["queries"] for _, d in results), "unsat": sum(d["unsat"] for _, d in results), "solver_s": round(sum(d["solver_s"] for _, d in results), 3),
              "reachability_witnesses": reached, "incomplete": incomplete, "conformance_mismatches": mism[:5]},
          "assumptions": chk.get("assumptions", []) + ["the C/C++ library models in engine/rt*.c* and the LLVM 18 front end agree with the real library and compiler (sampled paths are replayed natively and compared)"],
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rc = 0
    unknown_viol = []
    for n, (j, v) in enumerate(confirmed):
        k = known_of(v)
        if k:
            if k not in seen_known: seen_known.append(k); print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
            continue
        if any(u[1]["msg"] == v["msg"] and u[1]["where"] == v["where"] for u in unknown_viol): continue
        unknown_viol.append((j, v))
        rp = os.path.join(HERE, "evidence", "replay"); os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s-%d.json" % (pid, n))
        json.dump({"property": pid, "harness": j.prog.harness, "params": j.params, "inputs": v["inputs"], "kind": v["kind"], "message": v["msg"], "where": v["where"], "native_exit": v["replay_rc"], "native_output": v["replay_out"], "rerun": "python3 /verif/replay.py " + path}, open(path, "w"), indent=1)
        print("%s: %s [%s] at %s" % (pid, v["msg"], v["kind"], v["where"][:300]))
        print("  inputs: " + " ".join("%s=%s" % (x[0], x[2]) for x in v["inputs"])[:600])
        print("  replay on the real code: exit %d %s" % (v["replay_rc"], v["replay_out"][:300].replace("\n", " | ")))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if rc == 1: return 1
    for j, v in unconfirmed:
        print("UNCONFIRMED (encoding and real code disagree): %s %s [%s] at %s inputs %s: %s" % (j.prog.harness, v["msg"], v["kind"], v["where"][:200], v["inputs"][:20], v["replay_out"][:300])); rc = 2
    for i in incomplete: print("INCOMPLETE:", i); rc = 2
    for r in vac: print("VACUOUS: witness '%s' not reached" % r); rc = 2
    for m in mism[:5]: print("MISMATCH between encoding and real code:", json.dumps(m)[:600]); rc = 2
    if nsymchecks == 0 and not chk.get("concrete_ok"): print("VACUOUS: no assertion depended on symbolic input"); rc = 2
    print("%s %s: %s; %d paths, %d assertions, %d solver queries (%.1f s), %d traces replayed natively, %.1f s" % (pid, a.tier, "held within the stated bounds" if rc == 0 else "NO ANSWER", ev["coverage"]["states"], sum(d["checks"] for _, d in results), ev["coverage"]["queries"], ev["coverage"]["solver_s"], validated, time.time() - t0))
    return rc

if __name__ == "__main__":
    sys.exit(main())
