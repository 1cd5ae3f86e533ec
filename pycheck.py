#!/opt/veriftools/pyvenv/bin/python3
"""Worker of check.py for the Python package: decides one condition with CrossHair (symbolic execution of the real
Python code, z3), or replays a call.  usage: pycheck.py decide NAME SECONDS | replay NAME ARGS"""
import sys, json, time, collections
def main():
    mode = sys.argv[1]
    try: import conditions
    except Exception as e:
        if mode != "replay": raise
        print("the package cannot be imported: %s: %s" % (type(e).__name__, e)); sys.exit(1)
    fn = getattr(conditions, sys.argv[2])
    if mode == "replay":
        if sys.argv[3] == "sample": calls = [(s, {}) for s in fn.sample]
        else: calls = [eval(sys.argv[3], {"nan": float("nan"), "inf": float("inf"), "float": float, "dict_or_tuple": lambda *a, **k: (a, k)})]
        try:
            ok = True
            for a, k in calls:
                now = (a, k); ok = bool(fn(*a, **k))
                if not ok: print("arguments", now); break
        except Exception as e: print("raised %s: %s" % (type(e).__name__, e)); sys.exit(1)
        print("returned", ok); sys.exit(0 if ok else 1)
    import z3, crosshair.core_and_libs, crosshair.tracers, resource
    def clock(): return resource.getrusage(resource.RUSAGE_SELF).ru_utime
    from crosshair.core import analyze_function, run_checkables
    from crosshair.options import AnalysisOptionSet, AnalysisKind, DEFAULT_OPTIONS
    from crosshair.statespace import MessageType
    n = [0, 0.0]; old = z3.Solver.check
    def counted(self, *a):
        n[0] += 1
        with crosshair.tracers.NoTracing(): t = clock()
        try: return old(self, *a)
        finally:
            with crosshair.tracers.NoTracing(): n[1] += clock() - t
    z3.Solver.check = counted
    stats = collections.Counter(); secs = float(sys.argv[3])
    opts = AnalysisOptionSet(analysis_kind=[AnalysisKind.PEP316], report_all=True, per_condition_timeout=secs, per_path_timeout=secs, max_uninteresting_iterations=sys.maxsize, stats=stats)
    conditions.SYMBOLIC = True
    msgs = run_checkables(analyze_function(fn, opts))
    conditions.SYMBOLIC = False
    samples = []
    for s in fn.sample:
        try: ok = bool(fn(*s))
        except Exception as e: ok = False
        samples.append([repr(s), ok])
    print(json.dumps(dict(messages=[dict(state=m.state.name, text=m.message) for m in msgs], paths=stats.get("num_paths", 0), stats={str(k): v for k, v in stats.items() if isinstance(v, (int, float))}, queries=n[0], solver_s=n[1], samples=samples)))
main()
