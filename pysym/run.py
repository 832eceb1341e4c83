"""run.py JOB.json OUT.json: explores one job. Run with an interpreter that has z3."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)
import sx, h_prep


def replay(root, entry, param, values):
    """(True, message) if the unmodified code violates the property on these values."""
    c = sx.Concrete(root, values)
    try:
        h_prep.HARNESSES[entry](c, param)
    except sx.Violation as v:
        return True, v.msg
    except sx.Skip:
        return False, "outside the property"
    except Exception as x:
        return True, "raises %s: %s" % (type(x).__name__, x)
    return False, ""


def main():
    job = json.load(open(sys.argv[1]))
    if job.get("replay") is not None:
        bad, msg = replay(job["root"], job["entry"], job["param"], job["replay"])
        print(msg); return 1 if bad else 0
    t0 = time.time()
    e = sx.Engine(job["root"], t0 + job["time"])
    h = h_prep.HARNESSES[job["entry"]]

    def body(eng):
        try:
            h(eng, job["param"])
        except (sx.Skip, sx.Stop, sx.Violation):
            raise
        except NotImplementedError as x:
            eng.note("not modelled: %s" % x); raise sx.Stop()
        except Exception as x:               # an exception of the code under test is a violation if it replays
            tb = traceback.extract_tb(x.__traceback__)[-1]
            raise sx.Violation("raises %s: %s (%s:%d)" % (type(x).__name__, x, os.path.basename(tb.filename), tb.lineno), eng.complete(None, ()))
    pre = os.path.join(job["root"], "preprocessor")

    def prof(frame, ev, arg):
        if ev == "call" and frame.f_code.co_filename.startswith(pre):
            e.functions.add(os.path.basename(frame.f_code.co_filename) + ":" + frame.f_code.co_name)
    n = [0]

    def body2(eng):
        n[0] += 1
        if n[0] <= 40:
            sys.setprofile(prof)
        try:
            body(eng)
        finally:
            sys.setprofile(None)
    e.explore(body2, job.get("part", 0), job.get("parts", 1))
    out = dict(e.stats, reached=e.reached, incomplete=e.incomplete, functions=sorted(e.functions), violations=[], unconfirmed=[], samples=[], validated=0, disagreements=[])
    seen = set()
    for v in e.violations:
        if v["msg"] in seen:
            continue
        ok, msg = replay(job["root"], job["entry"], job["param"], v["values"]) if v["values"] is not None else (False, "no values")
        if ok:
            seen.add(v["msg"])
            out["violations"].append(dict(v, native=msg))
        else:
            out["unconfirmed"].append(dict(v, native=msg))
    for s in e.samples:
        bad, msg = replay(job["root"], job["entry"], job["param"], s)
        if bad:
            if not out["violations"]:
                out["violations"].append(dict(msg=msg, values=s, names=[], native=msg))
        else:
            out["validated"] += 1; out["samples"].append(s)
    out["wall_s"] = time.time() - t0
    json.dump(out, open(sys.argv[2], "w"))
    return 0


sys.exit(main())
