#!/usr/bin/env python3
"""Re-runs a recorded counterexample against the code in /repo.  usage: replay.py FILE.json [--san]
exit 1: the violation shows again; 0: it does not; 77: the inputs no longer satisfy the harness assumptions."""
import sys, os, json, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import check, registry
from concurrent.futures import ThreadPoolExecutor
d = json.load(open(sys.argv[1])); prog = None
if d.get("python"):
    import pyrun
    work = tempfile.mkdtemp(prefix="replay_")
    try: r = pyrun.call(check, pyrun.tree(check, work, d["harness"]), ["replay", d["condition"], d["arguments"]], 60)
    finally: shutil.rmtree(work, ignore_errors=True)
    print(r.stdout + r.stderr); sys.exit(r.returncode)
for tier in ("quick", "thorough"):
    for j in registry.CHECKS[d["property"]](tier)["jobs"]:
        if j.prog.harness == d["harness"] and (prog is None or j.params == d["params"]): prog = j.prog
os.makedirs(check.BUILD, exist_ok=True); work = tempfile.mkdtemp(prefix="replay_", dir=check.BUILD); rc = 2
try:
    if prog.gen: check.run_gen(work)
    for san in ((True,) if "--san" in sys.argv else (False, True)):
        exe = check.compile_native(prog, work, ThreadPoolExecutor(8), san)
        rc, out, err = check.run_native(exe, d["inputs"], d["params"], work)
        print("%s build: exit %d\n%s%s" % ("sanitizer" if san else "plain", rc, out, err[-2000:]))
        if rc not in (0, 77): break
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(rc if rc in (0, 77) else 1)
