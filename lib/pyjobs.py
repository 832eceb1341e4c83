"""Runs the jobs of pysym (symbolic execution of the Python preprocessor) and writes the evidence."""
import glob, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from core import VERIF, REPO, NPROC, load_known

RUN = os.path.join(VERIF, "pysym", "run.py")
PY = "/opt/veriftools/pyvenv/bin/python"
if not os.path.exists(PY):
    PY = shutil.which("python3-vt") or sys.executable


class PyJob:
    def __init__(self, entry, param, bound, parts=1, reach=(), time=120):
        self.entry, self.param, self.bound, self.parts, self.reach, self.time = entry, param, bound, parts, list(reach), time

    @property
    def name(self):
        return "%s(%s)" % (self.entry, json.dumps(self.param).replace("\\u0000", "?"))


def decide_py(ctx, jobs, meta, budget):
    deadline = ctx.t0 + budget
    known = load_known()
    tasks = [(i, k) for i, j in enumerate(jobs) for k in range(j.parts)]
    res = {}

    def work(t):
        i, k = t
        j = jobs[i]
        left = deadline - time.time()
        if left < 3:
            res[t] = {"late": True}; return
        base = os.path.join(ctx.dir, "p%d_%d" % t)
        json.dump(dict(root=REPO, entry=j.entry, param=j.param, time=min(left, j.time), part=k, parts=j.parts), open(base + ".in", "w"))
        try:
            r = subprocess.run([PY, "-W", "ignore", RUN, base + ".in", base + ".out"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left + 60, cwd=ctx.dir)
            res[t] = json.load(open(base + ".out")) if os.path.exists(base + ".out") else {"crash": r.stdout[-600:]}
        except subprocess.TimeoutExpired:
            res[t] = {"crash": "time limit"}
    # the longest first
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(work, sorted(tasks, key=lambda t: -jobs[t[0]].parts)))

    tot, funcs, inc, harn, vacuous, crashed, skipped, viol, unconf, samples = {}, set(), {}, [], [], [], [], [], [], []
    for i, j in enumerate(jobs):
        hs = dict(harness=j.name, bound=j.bound); reached = {}; jv = 0; jinc = {}
        for k in range(j.parts):
            r = res[(i, k)]
            if r.get("late"): skipped.append(j.name); continue
            if "crash" in r: crashed.append(j.name + ": " + r["crash"][:300]); continue
            for a in ("paths", "checks", "checks_symbolic", "queries", "sat", "unsat", "unknown", "cache_hits", "solver_s", "forks", "branches", "skipped", "wall_s", "validated"):
                tot[a] = tot.get(a, 0) + r[a]; hs[a] = round(hs.get(a, 0) + r[a], 3)
            funcs |= {"preprocessor/" + f for f in r["functions"]}
            for w, n in r["reached"].items(): reached[w] = reached.get(w, 0) + n
            for w, n in r["incomplete"].items(): inc[w] = inc.get(w, 0) + n; jinc[w] = n
            viol += [(j, v) for v in r["violations"]]; jv += len(r["violations"])
            unconf += [(j, v) for v in r["unconfirmed"]]
            if len(samples) < 6 and r["samples"]: samples.append({"harness": j.name, "input": "".join(map(chr, r["samples"][0]))})
        hs["complete"] = not jinc; hs["reached"] = reached
        harn.append(hs)
        miss = [l for l in j.reach if l not in reached]
        if miss and not jv and "paths" in hs: vacuous.append("%s never reaches %s" % (j.name, miss))
    os.makedirs(ctx.replays, exist_ok=True)
    for f in glob.glob(os.path.join(ctx.replays, "*.replay")): os.unlink(f)
    seen, nviol, shown = set(), 0, set()
    for j, v in viol:
        key = (j.entry, v["msg"])
        if key in seen: continue
        text = "".join(map(chr, v["values"]))
        k = next((k for k in known if k.get("status") == "known" and k["property"] == ctx.prop and k.get("entry") == j.entry and k.get("msg") == v["msg"] and k.get("input") in (None, text)), None)
        if k:
            if k["id"] not in shown: shown.add(k["id"]); print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k["what"]), flush=True)
            continue
        seen.add(key); nviol += 1
        dst = os.path.join(ctx.replays, "v%d_%s.replay" % (nviol, j.entry))
        json.dump(dict(property=ctx.prop, root=REPO, entry=j.entry, param=j.param, replay=v["values"], input=text, message=v["msg"], how="%s %s THIS-FILE" % (PY, RUN)), open(dst, "w"), indent=1)
        ctx.log("violation in %s: %s; with %r in the open places; the unmodified code: %s" % (j.name, v["msg"], text, v["native"]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, dst), flush=True)
    for j, v in unconf[:4]:
        ctx.log("unconfirmed (not reported): %s: %s" % (j.name, v["msg"]))
    for what, l in (("vacuous", vacuous), ("engine", crashed)):
        for x in l[:4]: ctx.log(what + ":", x)
    if inc: ctx.log("not fully explored:", inc)
    if skipped: ctx.log("skipped for lack of time: %d" % len(skipped))
    n = lambda a: int(tot.get(a, 0))
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=meta["level"], coverage=dict(
        states=n("paths") + n("forks"), transitions=n("branches"), traces_validated_against_impl=n("validated"), samples=samples or [{"harness": jobs[0].name}],
        exhaustive=not (inc or skipped or crashed or unconf), functions_encoded=sorted(funcs), bounds=meta["bounds"], outside_the_bounds=meta["outside"], harness_runs=harn,
        paths=n("paths"), assertions_evaluated=n("checks"), assertions_decided_by_solver=n("checks_symbolic"), queries_discharged=n("queries"), query_cache_hits=n("cache_hits"),
        queries_sat=n("sat"), queries_unsat=n("unsat"), queries_unknown=n("unknown"), solver_s=round(tot.get("solver_s", 0), 2), inputs_outside_the_property=n("skipped"),
        not_explored=inc, skipped=skipped, engine_failures=crashed, unconfirmed=[dict(harness=j.name, msg=v["msg"]) for j, v in unconf], vacuous=vacuous),
        assumptions=meta.get("assumptions", []), wall_s=round(time.time() - ctx.t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w"), indent=1)
    ctx.log("%s: %d harnesses, %d paths, %d assertions (%d by solver), %d queries (%d cached), %.1f s solver, %d paths replayed, %d violation(s)" % (
        ctx.prop, len(harn), n("paths"), n("checks"), n("checks_symbolic"), n("queries"), n("cache_hits"), tot.get("solver_s", 0), n("validated"), nviol))
    if nviol == 0 and (not n("paths") or vacuous and len(vacuous) == len(harn)):
        return 2
    return 1 if nviol else 0
