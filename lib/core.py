"""Build, run and report: turns /repo's current source into bitcode, runs the symbolic executor
on the harnesses, replays what it reports against a native build, and writes the evidence."""
import os, sys, re, json, shutil, subprocess, tempfile, time, glob, threading
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
SYMX = os.path.join(VERIF, "engine", "symx")
LLVM_LINK = "/usr/lib/llvm-18/bin/llvm-link"
NPROC = min(8, os.cpu_count() or 4)

CLANG = ["clang++", "-std=c++17", "-O1", "-g", "-fconstexpr-steps=200000000", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
         "-fno-discard-value-names", "-include", os.path.join(HARN, "symcfg.h"), "-include", "array", "-DEXPOSE_PRIVATES",
         "-DSYMBOLIC_BUILD", "-w", "-emit-llvm", "-c"]
NATIVE = ["g++", "-std=c++17", "-O1", "-g", "-include", "array", "-DEXPOSE_PRIVATES", "-w", "-fsanitize=address",
          "-fno-omit-frame-pointer", "-c"]


TSAN = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1", "-mllvm", "-tsan-instrument-func-entry-exit=0"]


class CheckError(Exception):
    pass


class Unit:
    """One linked program: harness sources plus the repository sources it drives."""
    def __init__(self, name, harness, repo=(), flags=(), config=None, models=("model_libc.cc",), stdio=False,
                 native_extra=(), native=True, fake_regex=False, gen=None, edits=None, threads=False, plain=()):
        self.name, self.harness, self.repo, self.flags = name, list(harness), list(repo), list(flags)
        self.config = dict(config or {})
        self.models = list(models) + (["model_stdio.cc"] if stdio else [])
        self.plain = set(plain)   # harness files without instrumented accesses
        self.threads = threads    # switch points at instrumented accesses; native replays follow the schedule
        if threads:
            self.models.append("tsan_rt.cc")
        self.native_srcs = ["sym_native.cc"] + (["native_stdio.cc"] if stdio else []) + (["native_sched.cc", "tsan_rt.cc"] if threads else []) + list(native_extra)
        self.native = native
        self.fake_regex = fake_regex
        self.gen = gen            # callable(scratch dir, ctx) -> list of generated sources
        self.edits = edits        # callable(file name, text) -> text, applied to the scratch copy


class Job:
    def __init__(self, unit, entry, params=(), reach=(), time=60, opts=(), bound="", samples=2, preempt=None, part=None):
        self.unit, self.entry, self.params, self.reach = unit, entry, list(params), list(reach)
        self.time, self.opts, self.bound, self.samples = time, list(opts), bound, samples
        if preempt is not None:
            self.opts += ["--preempt", str(preempt)]
        self.part = part

    @property
    def name(self):
        return self.entry + ("(" + ",".join(map(str, self.params)) + ")" if self.params else "")


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                          errors="replace", **kw)


class Context:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vchk-%s-" % prop, dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
        self.replays = os.path.join(VERIF, "replays", prop)
        self.log_lock = threading.Lock()
        self.compile_log = []

    def log(self, *a):
        with self.log_lock:
            print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ------------------------------------------------------------------ building
    def source_dir(self, unit):
        """A scratch copy of /repo/runtime, with the unit's scaled-down configuration constants."""
        d = os.path.join(self.dir, unit.name, "runtime")
        if os.path.isdir(d):
            return d
        os.makedirs(d)
        src = os.path.join(REPO, "runtime")
        for f in os.listdir(src):
            p = os.path.join(src, f)
            if not os.path.isfile(p) or not f.endswith((".h", ".cc")) or f.endswith("Test.cc"):
                continue
            text = open(p, errors="surrogateescape").read()
            if f == "Config.h":
                for k, v in unit.config.items():
                    text = re.sub(r"(\b%s\s*=)[^;]*;" % re.escape(k), lambda m: m.group(1) + " " + str(v) + ";", text)
            if unit.edits:
                text = unit.edits(f, text)
            open(os.path.join(d, f), "w", errors="surrogateescape").write(text)
        return d

    def build(self, units):
        """Compile all units, symbolic and native, in parallel."""
        tasks, tasks2 = [], []
        for u in units:
            d = self.source_dir(u)
            out = os.path.dirname(d)
            gen = u.gen(out, self) if u.gen else []
            inc = ["-I" + out, "-I" + d, "-I" + HARN]
            pm = ["-fdebug-prefix-map=%s=%s" % (d, os.path.join(REPO, "runtime"))]
            srcs = [os.path.join(HARN, h) for h in u.harness] + [os.path.join(d, r) for r in u.repo] + gen
            fk = ["-I" + os.path.join(HARN, "fakeinc")] if u.fake_regex else []
            u.bcs, u.objs = [], []
            for s in srcs:
                s, sn = s if isinstance(s, tuple) else (s, s)     # a generated source may differ between the two builds
                o = os.path.join(out, os.path.basename(s))
                tasks.append((CLANG + (TSAN if u.threads and os.path.basename(s) not in u.plain else []) + fk + inc + pm + u.flags + [s, "-o", o + ".bc"], u)); u.bcs.append(o + ".bc")
                if u.threads:      # the native build of a thread unit is made from the same bitcode
                    tasks2.append((["clang++", "-O1", "-c", "-w", "-fPIC", o + ".bc", "-o", o + ".o"], u)); u.objs.append(o + ".o")
                elif u.native:
                    tasks.append((NATIVE + inc + u.flags + [sn, "-o", o + ".o"], u)); u.objs.append(o + ".o")
            for m in u.models:
                o = os.path.join(out, m)
                tasks.append((CLANG + ["-fno-builtin"] + inc + [os.path.join(HARN, m), "-o", o + ".bc"], u)); u.bcs.append(o + ".bc")
            if u.native:
                for m in u.native_srcs:
                    o = os.path.join(out, m)
                    tasks.append((NATIVE + inc + u.flags + [os.path.join(HARN, m), "-o", o + ".o"], u)); u.objs.append(o + ".o")
        bad = []

        def comp(t):
            r = run(t[0])
            if r.returncode != 0:
                bad.append((t[0][-3], r.stdout[-3000:]))
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(comp, tasks))
            if not bad:
                list(ex.map(comp, tasks2))
        if bad:
            raise CheckError("could not compile %s:\n%s" % bad[0])
        for u in units:
            out = os.path.dirname(self.source_dir(u))
            u.bc = os.path.join(out, "all.bc")
            r = run([LLVM_LINK] + u.bcs + ["-o", u.bc])
            if r.returncode != 0:
                raise CheckError("llvm-link failed for %s:\n%s" % (u.name, r.stdout[-2000:]))
            if u.native:
                u.exe = os.path.join(out, "native")
                r = run(["g++", "-fsanitize=address", "-rdynamic"] + u.objs + ["-o", u.exe, "-ldl", "-lpthread", "-lrt"])
                if r.returncode != 0:
                    raise CheckError("native link failed for %s:\n%s" % (u.name, r.stdout[-3000:]))
        self.log("built %d unit(s) from %s" % (len(units), REPO))

    # ------------------------------------------------------------------ running
    def run_job(self, job, deadline):
        i = job.idx
        jd = os.path.join(self.dir, "job%d" % i)
        os.makedirs(jd, exist_ok=True)
        out = os.path.join(jd, "out.json")
        t = max(5, min(job.time, deadline - time.time()))
        cmd = [SYMX, "--entry", job.entry, "--time", str(int(t)), "--out", out, "--replay-dir", jd, "--property", self.prop,
               "--rss", "3000"]
        for p in job.params:
            cmd += ["--param", str(p)]
        cmd += job.opts + [job.unit.bc]
        try:
            r = run(cmd, timeout=t + 60)
        except subprocess.TimeoutExpired:
            return {"entry": job.entry, "crash": "engine exceeded its time budget"}
        if not os.path.exists(out):
            return {"entry": job.entry, "crash": (r.stdout or "")[-800:] + " rc=%s" % r.returncode}
        try:
            d = json.load(open(out))
        except Exception as e:
            return {"entry": job.entry, "crash": "bad engine output: %s" % e}
        return d

    def replay(self, unit, f, timeout=90):
        if not unit.native:
            return None, "no native build"
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=78:allow_user_segv_handler=0:handle_abort=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1",
                   SYM_ENGINE="0")
        d = tempfile.mkdtemp(prefix="replay-", dir=self.dir)
        try:
            r = run([unit.exe, f], timeout=timeout, env=env, cwd=d)
        except subprocess.TimeoutExpired:
            return 124, "native run did not terminate"
        finally:
            shutil.rmtree(d, ignore_errors=True)
        m = re.findall(r"REPLAY-RESULT (\d+) (.*)", r.stdout)
        what = m[-1][1] if m else ""
        if "AddressSanitizer" in r.stdout and r.returncode not in (0,):
            mm = re.search(r"ERROR: AddressSanitizer: (.*)", r.stdout)
            what = "AddressSanitizer: " + (mm.group(1) if mm else "")
            frames = re.findall(r"#\d+ \S+ in (.*)", r.stdout)[:4]
            what += " in " + " < ".join(x[:80] for x in frames)
            return 78, what
        return r.returncode, what or r.stdout[-300:]


REPRODUCED = {77, 78, 79, 124}


def match_known(known, prop, job, v, why):
    for k in known:
        if k.get("status") != "known" or k.get("property") != prop:
            continue
        if k.get("entry") and k["entry"] != job.entry:
            continue
        if "params" in k and list(k["params"]) != list(job.params):
            continue
        if k.get("msg") and k["msg"] not in (v.get("msg", "") + " " + (why or "")):
            continue
        return k
    return None


def tidy(inc):
    d = {}
    for k, n in inc.items():
        k = re.sub(r"/tmp/\S*?/runtime/", "", re.split(r" @ | at ", k)[0])[:160]
        d[k] = d.get(k, 0) + n
    return d


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)).get("findings", []) if os.path.exists(p) else []


def decide(ctx, units, jobs, meta, budget):
    """Run all jobs of a property and report. meta: dict(level, assumptions, bounds, outside, rule)."""
    known = load_known()
    rc, nviol = 0, 0
    ctx.build(units)
    for i, j in enumerate(jobs):
        j.idx = i
    deadline = ctx.t0 + budget
    results = {}
    viol, unconfirmed, known_hit, problems = [], [], [], []
    val_ok = val_bad = 0
    lock = threading.Lock()

    def work(j):
        nonlocal val_ok, val_bad
        if time.time() > deadline - 3:
            with lock:
                results[j.idx] = {"entry": j.entry, "skipped": True}
            return
        r = ctx.run_job(j, deadline)
        with lock:
            results[j.idx] = r
        if "crash" in r:
            ctx.log("job %s: %s" % (j.name, r["crash"][:300]))
            return
        for v in r.get("violations", []):
            code, why = ctx.replay(j.unit, v["file"])
            confirmed = code in REPRODUCED
            with lock:
                k = match_known(known, ctx.prop, j, v, why) if confirmed else None
                if k:
                    known_hit.append((k, j, v))
                elif confirmed:
                    viol.append((j, v, code, why))
                else:
                    unconfirmed.append((j, v, code, why))
        for sf in r.get("samples", [])[:j.samples]:
            code, why = ctx.replay(j.unit, sf)
            with lock:
                if code == 0:
                    val_ok += 1
                elif code in REPRODUCED and not r.get("violations"):
                    k = match_known(known, ctx.prop, j, {"msg": why or ""}, why)
                    if k:
                        known_hit.append((k, j, {"msg": why, "file": sf}))
                    else:
                        viol.append((j, {"kind": "native", "msg": why, "where": "replay of a symbolic path", "file": sf}, code, why))
                elif code not in REPRODUCED:
                    val_bad += 1
                    problems.append("path replay of %s disagrees with the engine: %s %s" % (j.name, code, why))
    with ThreadPoolExecutor(NPROC) as ex:
        fs = [ex.submit(work, j) for j in jobs]
        for f in fs:
            f.result()

    tot = lambda k: sum(r.get(k, 0) for r in results.values() if isinstance(r.get(k, 0), (int, float)))
    funcs, inc, vacuous, crashed, skipped, harn = set(), {}, [], [], [], []
    for j in jobs:
        r = results[j.idx]
        if r.get("skipped"):
            skipped.append(j.name); continue
        if "crash" in r:
            crashed.append(j.name + ": " + r["crash"][:200]); continue
        for f in r.get("functions", []):
            funcs.add(f.replace(REPO + "/", ""))
        r["incomplete"] = tidy(r.get("incomplete", {}))
        for k, n in r["incomplete"].items():
            inc.setdefault(k, 0); inc[k] += n
        miss = [l for l in j.reach if l not in r.get("reached", {})]
        if miss and not r.get("violations"):
            vacuous.append("%s never reaches %s" % (j.name, miss))
        harn.append({"harness": j.name, "bound": j.bound, "paths": r["paths"], "checks": r["checks"], "checks_by_solver": r["checks_symbolic"],
                     "queries": r["queries"], "solver_s": round(r["solver_s"], 3), "wall_s": round(r["wall_s"], 2),
                     "complete": not r.get("incomplete"), "incomplete": r.get("incomplete", {})})
    # ---- report
    os.makedirs(ctx.replays, exist_ok=True)
    for f in glob.glob(os.path.join(ctx.replays, "*.replay")):
        os.unlink(f)
    seen = set()
    for n, (j, v, code, why) in enumerate(viol):
        key = (j.entry, v.get("msg"), v.get("where"))
        if key in seen:
            continue
        seen.add(key)
        dst = os.path.join(ctx.replays, "v%d_%s.replay" % (len(seen), j.entry))
        shutil.copy(v["file"], dst)
        with open(dst, "a") as f:
            f.write("# property %s\n# harness %s\n# engine: %s %s at %s\n# native replay: exit %s %s\n" % (ctx.prop, j.name, v.get("kind"), v.get("msg"), v.get("where"), code, why))
        ctx.log("violation in %s: %s [%s] at %s; native replay: %s %s" % (j.name, v.get("msg"), v.get("kind"), v.get("where"), code, why))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, dst), flush=True)
        nviol += 1
        rc = 1
    shown = set()
    for k, j, v in known_hit:
        if k["id"] not in shown:
            shown.add(k["id"])
            print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k["what"]), flush=True)
    for k in known:
        if k.get("status") == "known" and k.get("property") == ctx.prop and k["id"] not in shown:
            ctx.log("note: listed finding %s did not show up in this run" % k["id"])
    for j, v, code, why in unconfirmed[:5]:
        ctx.log("unconfirmed (not reported): %s: %s at %s; native replay gave %s %s" % (j.name, v.get("msg"), v.get("where"), code, why))
    for p in problems[:5]:
        ctx.log("note:", p)
    for x in vacuous[:5]:
        ctx.log("vacuous:", x)
    for x in crashed[:5]:
        ctx.log("engine:", x)
    if inc:
        ctx.log("not fully explored:", dict(sorted(inc.items(), key=lambda x: -x[1])[:6]))
    if skipped:
        ctx.log("skipped for lack of time: %d harness runs" % len(skipped))
    samples = []
    for j in jobs:
        for sf in (results[j.idx].get("samples") or [])[:1]:
            try:
                samples.append({"harness": j.name, "path": open(sf).read()[:1500].splitlines()[:40]})
            except OSError:
                pass
        if len(samples) >= 4:
            break
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": meta["level"],
        "coverage": {
            "states": int(tot("paths") + tot("forks")), "transitions": int(tot("insts")),
            "traces_validated_against_impl": val_ok,
            "samples": samples or [{"harness": h["harness"]} for h in harn[:3]],
            "exhaustive": not inc and not skipped and not crashed and not unconfirmed,
            "functions_encoded": sorted(funcs), "bounds": meta.get("bounds", ""), "outside_the_bounds": meta.get("outside", ""),
            "harness_runs": harn, "paths": int(tot("paths")), "assertions_evaluated": int(tot("checks")),
            "assertions_decided_by_solver": int(tot("checks_symbolic")),
            "queries_discharged": int(tot("queries")), "query_cache_hits": int(tot("cache_hits")), "queries_unsat": int(tot("unsat")), "queries_sat": int(tot("sat")),
            "queries_unknown": int(tot("unknown")), "solver_s": round(tot("solver_s"), 2), "not_explored": inc, "skipped": skipped, "engine_failures": crashed,
            "unconfirmed": [{"harness": j.name, "msg": v.get("msg"), "where": v.get("where"), "native": str(code)} for j, v, code, why in unconfirmed],
            "replay_disagreements": problems, "vacuous": vacuous,
        },
        "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - ctx.t0, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w"), indent=1)
    ctx.log("%s: %d harness runs, %d paths, %d assertions (%d by solver), %d queries, %.1f s solver, %d paths replayed natively, %d violation(s)" % (
        ctx.prop, len(harn), tot("paths"), tot("checks"), tot("checks_symbolic"), tot("queries"), tot("solver_s"), val_ok, nviol))
    if rc == 0 and (not harn or vacuous and len(vacuous) == len(harn)):
        ctx.log("no harness of this property could be decided")
        return 2
    return rc
