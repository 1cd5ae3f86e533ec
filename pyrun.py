"""Runs the checks on the Python package (registry entries with python=True): each condition of harness/*/conditions.py
is decided by CrossHair over the Python code in /repo; counterexamples are called again in plain Python."""
import os, re, sys, json, time, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
PY = "/opt/veriftools/pyvenv/bin/python3"

def tree(check, work, name):
    d = os.path.join(work, "py")
    shutil.copytree(os.path.join(check.HERE, "harness", name, "stub"), d)
    shutil.copytree(os.path.join(check.REPO, "python/module/cqasm"), os.path.join(d, "cqasm"), dirs_exist_ok=True)
    shutil.copy(os.path.join(check.HERE, "harness", name, "conditions.py"), d)
    return d

def call(check, d, args, timeout):
    env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try: return check.sh([PY, os.path.join(check.HERE, "pycheck.py")] + args, env=env, timeout=timeout, cwd=d)
    except check.subprocess.TimeoutExpired: return None

def arguments(text):
    m = re.search(r"when calling \w+\((.*)\)(?: \(which returns.*\))?$", text, re.S)
    return None if not m else "dict_or_tuple(%s)" % m.group(1)

def run(check, a, chk, work, t0):
    pid = a.id; d = tree(check, work, chk["python"])
    names = [n for n in chk["conditions"]]
    secs = chk["seconds"]; rc = 0; confirmed, bad, done = [], [], []
    def one(n):
        r = call(check, d, ["decide", n, str(secs)], secs + 60)
        if r is None: return n, None, "no end within the time bound"
        try: return n, json.loads(r.stdout.strip().splitlines()[-1]), r.stderr[-1500:]
        except Exception: return n, None, (r.stderr or r.stdout)[-1500:]
    with ThreadPoolExecutor(check.NCPU) as ex: results = list(ex.map(one, names))
    for n, r, err in results:
        tried = []   # calls to make in plain Python
        if r is None: tried = [("sample", n)]
        else:
            if not r["messages"]: bad.append("%s: nothing decided" % n)
            for m in r["messages"]:
                if m["state"] == "CONFIRMED": continue
                ar = arguments(m["text"])
                if m["state"] in ("POST_FAIL", "EXEC_ERR") and ar: tried.append((ar, m["text"]))
                else: bad.append("%s: %s %s" % (n, m["state"], m["text"][:300])); tried.append(("sample", n))
            if not all(ok for _, ok in r["samples"]): tried.append(("sample", n))
            done.append((n, r))
        hit = None
        for ar, text in tried:
            q = call(check, d, ["replay", n, ar], 60)
            if q is not None and q.returncode == 1: hit = dict(property=pid, harness=chk["python"], python=True, condition=n, arguments=ar, message=text[:600], native_output=(q.stdout + q.stderr)[-800:]); break
        if hit: confirmed.append(hit)
        elif r is None: bad.append("%s: %s" % (n, err))
        elif any(x[0] != "sample" for x in tried): bad.append("%s: counterexample not confirmed in plain Python: %s" % (n, tried[0][1][:300]))
        if a.v: print(n, "violated" if hit else "", r and (r["messages"], r["paths"], r["queries"], round(r["solver_s"], 2)), "" if r else err)
    q = sum(r["queries"] for _, r in done)
    ev = {"property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": sum(r["paths"] for _, r in done), "transitions": q, "queries": q, "solver_s": round(sum(r["solver_s"] for _, r in done), 2),
                       "traces_validated_against_impl": sum(1 for _, r in done for s in r["samples"] if s[1]),
                       "samples": [{"condition": n, "arguments": r["samples"][0][0], "held": r["samples"][0][1], "paths": r["paths"], "queries": r["queries"]} for n, r in done if r["samples"]],
                       "functions_encoded": chk["functions"], "bounds": chk["bounds"], "conditions_confirmed": [n for n, r in done if r["messages"] and all(m["state"] == "CONFIRMED" for m in r["messages"])],
                       "exhaustive": not bad and not confirmed},
          "assumptions": chk["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(check.HERE, "evidence", "replay"), exist_ok=True)
    known = [k for k in check.load_known() if k[0] == pid]; seen = set()
    for n, v in enumerate(confirmed):
        k = next((k for k in known if k[1] == v["condition"]), None)
        if k:
            if k not in seen: seen.add(k); print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
            continue
        path = os.path.join(check.HERE, "evidence", "replay", "%s-%d.json" % (pid, n)); v["rerun"] = "python3 /verif/replay.py " + path
        json.dump(v, open(path, "w"), indent=1)
        print("%s: condition %s fails: %s\n  plain Python: %s" % (pid, v["condition"], v["message"], v["native_output"].replace("\n", " | ")[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, path)); rc = 1
    json.dump(ev, open(os.path.join(check.HERE, "evidence", pid + ".json"), "w"), indent=1)
    if rc: return rc
    sure = ev["coverage"]["conditions_confirmed"]
    for n, by in chk.get("optional", {}).items():   # decided within the smaller bounds of another condition
        if by in sure: reduced = [b for b in bad if b.startswith(n + ":")]; bad = [b for b in bad if b not in reduced]; [print("REDUCED BOUNDS:", b) for b in reduced]
    for b in bad: print("INCOMPLETE:", b); rc = 2
    print("%s %s: %s; %d conditions, %d paths, %d solver queries (%.1f s), %.1f s" % (pid, a.tier, "held within the stated bounds" if rc == 0 else "NO ANSWER", len(done), ev["coverage"]["states"], q, ev["coverage"]["solver_s"], time.time() - t0))
    return rc
