#!/usr/bin/env python3
"""Regenerates seeded/<id>/ from the specifications in tools/bugs.py and confirms each planted change:
the patch applies, the pinned build and tests pass with it, the demo passes without it and fails with it.
usage: mkbug.py [--noverify] [ID...]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from bugs import BUGS
T = ["gen:types.cpp", "gen:values.cpp", "gen:semantic.cpp", "gen:syntactic.cpp"]
CORE = ["src/annotations.cpp", "src/error.cpp", "src/utils.cpp", "src/version.cpp"]
V3 = ["src/v3x/%s.cpp" % x for x in "primitives types values core_function instruction instruction_set register_instructions register_consteval_core_functions resolver analyzer analysis_result semantic_analyzer parse_result cqasm parse_helper cqasm_python".split()]
ANT = ["src/v3x/%s.cpp" % x for x in "syntactic_analyzer antlr_scanner antlr_custom_error_listener".split()] + ["gen:antlr_gen.cpp"]
SETS = {"A": None, "E": CORE, "S": CORE + ["src/string_builder.cpp"], "F": CORE + V3 + T + ANT}
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(b):
    d = os.path.join(V, "seeded", b["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix="mkbug", dir="/tmp")
    try:
        sh(["bash", "-c", "git -C /repo archive HEAD | tar x -C " + w]); sh(["git", "init", "-q"], cwd=w); sh(["git", "add", "-A"], cwd=w)
        sh(["git", "-c", "user.name=x", "-c", "user.email=x@x", "commit", "-qm", "x"], cwd=w)
        for f, old, new in b["edits"]:
            p = os.path.join(w, f); t = open(p).read()
            if t.count(old) != 1: return "edit matches %d times in %s: %r" % (t.count(old), f, old[:60])
            open(p, "w").write(t.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh(["git", "diff"], cwd=w).stdout)
    finally: shutil.rmtree(w)
    if b.get("src") == "P":
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n")); shutil.copytree(os.path.join(V, "harness/c35/stub"), d + "/stub", ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# %s\nD=$(cd "$(dirname "$0")" && pwd)\nW=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX"); trap \'rm -rf "$W"\' EXIT\ncp -r python/module/cqasm "$W/" && cp -r "$D/stub/." "$W/" && cd "$W" && ulimit -t 60 && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$W" python3 "$D/demo.py"\n' % b["what"]); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1); return None
    open(os.path.join(d, "demo.cpp"), "w").write(b["demo"].lstrip("\n"))
    srcs = SETS[b.get("src", "A")]
    body = '#!/bin/bash\n# %s\nD=$(cd "$(dirname "$0")" && pwd)\nW=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX"); trap \'rm -rf "$W"\' EXIT\n' % b["what"]
    if srcs is None:
        body += 'g++ -std=c++20 -O0 -w -DFMT_HEADER_ONLY -Iinclude "$D/demo.cpp" src/annotations.cpp src/utils.cpp -o "$W/demo" || exit 3\n'
    else:
        body += 'bash "$D/kit/kit_build.sh" "$D/kit" "$W/demo" "$D/demo.cpp" %s || exit 3\n' % " ".join(srcs)
        k = os.path.join(d, "kit"); shutil.copytree(os.path.join(V, "shim"), k, ignore=shutil.ignore_patterns("__pycache__")); shutil.copy(os.path.join(HERE, "kit_build.sh"), k)
    body += 'cd "$W" && ulimit -t 60 && ./demo\n'
    open(os.path.join(d, "demo.sh"), "w").write(body); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
def verify(b, builds=True):
    d = os.path.join(V, "seeded", b["id"])
    w = tempfile.mkdtemp(prefix="mkbug", dir="/tmp")
    try:
        sh(["bash", "-c", "git -C /repo archive HEAD | tar x -C " + w]); sh(["git", "init", "-q"], cwd=w)
        r0 = sh(["bash", d + "/demo.sh"], cwd=w)
        r = sh(["git", "apply", d + "/patch.diff"], cwd=w)
        if r.returncode: return "patch: " + r.stdout
        r1 = sh(["bash", d + "/demo.sh"], cwd=w)
        return "%s clean=%d patched=%d %s" % ("ok" if r0.returncode == 0 and r1.returncode not in (0, 3) else "BAD", r0.returncode, r1.returncode, (r0.stdout[-200:] if r0.returncode else "") + ("" if r1.returncode == 1 else r1.stdout[-200:]))
    finally: shutil.rmtree(w)
def suite(b):  # the pinned build and tests, in /repo, undone afterwards
    d = os.path.join(V, "seeded", b["id"])
    try:
        if sh(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode: return "does not apply"
        r = sh(["bash", "/opt/vp/build.sh"])
        if r.returncode: return "does not build: " + r.stdout[-500:]
        sh(["bash", "/opt/vp/test.sh", "/tmp/mkbug.json"]); j = json.load(open("/tmp/mkbug.json")); f = j.get("failed", [])
        return "tests ok (%d)" % len(j.get("passed", [])) if not f else "TESTS FAIL %s" % f
    finally: sh(["git", "-C", "/repo", "checkout", "--", "."])
if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    for b in BUGS:
        if ids and b["id"] not in ids: continue
        e = make(b)
        print(b["id"], b["prop"], e or ("made" if "--noverify" in sys.argv else verify(b) + ("" if "--nosuite" in sys.argv else " " + suite(b))), flush=True)
    if "--noverify" not in sys.argv and "--nosuite" not in sys.argv: sh(["bash", "/opt/vp/build.sh"])
