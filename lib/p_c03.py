from core import *
import fmtcases

STUB = ["--stub", "_ZN9PerfUtils6Cycles9toSecondsEld=0"]


def gen_cases(cases, chunks):
    def gen(out, ctx):
        files = []
        for c in range(chunks):
            fn = os.path.join(out, "cases%d.cc" % c)
            with open(fn, "w") as f:
                f.write('#include "c03.h"\n#undef __FILE__\n#define __FILE__ "c03case.cc"\n')
                for i, (fmt, args) in enumerate(cases):
                    if i % chunks != c:
                        continue
                    ds = [fmtcases.decl(k, n) for n, k in enumerate(args)]
                    a = "".join(", " + d[1] for d in ds)
                    f.write('extern "C" void c03_%d() {\n' % i)
                    f.write("  FILE* exp = sink_open();\n")
                    for d in ds:
                        f.write("  " + d[0] + "\n")
                    f.write("  fprintf(exp, %s%s);\n" % (fmtcases.cstr(fmt), fmtcases.expected(args)))
                    f.write("  NANO_LOG(NOTICE, %s%s); const uint32_t line = __LINE__;\n" % (fmtcases.cstr(fmt), a))
                    for d in ds:
                        if d[2]:
                            f.write("  " + d[2] + "\n")
                    f.write('  c03_decode_and_compare(exp, 1, line, "NOTICE");\n}\n')
            files.append(fn)
        return files
    return gen


def confirm_broken(cases):
    """The harness could not be compiled. Is a plain program that logs one of these formats refused, too?"""
    from p_c07 import user_args
    d = tempfile.mkdtemp(prefix="vchk-C03p-", dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
    cc = ["g++", "-std=c++17", "-w", "-include", "array", "-fsyntax-only", "-I" + os.path.join(REPO, "runtime")]

    def attempt(t):
        i, (fmt, args) = t
        f = os.path.join(d, "stmt%d.cc" % i)
        src = '#include "NanoLogCpp17.h"\nusing namespace NanoLog::LogLevels;\n%svoid f(%s) { NANO_LOG(NOTICE, %s%s); }\n'
        a = user_args(args)
        open(f, "w").write(src % ("#undef NANO_LOG\n#define NANO_LOG(...)\n", a[0], fmtcases.cstr(fmt), a[1]))
        if run(cc + [f]).returncode:
            return None
        open(f, "w").write(src % ("", a[0], fmtcases.cstr(fmt), a[1]))
        r = run(cc + [f])
        return (open(f).read(), r.stdout[-2500:]) if r.returncode else None
    try:
        with ThreadPoolExecutor(NPROC) as ex:
            return next((b for b in ex.map(attempt, enumerate(cases)) if b), None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(ctx):
    cases = fmtcases.cases(ctx.tier)
    if ctx.tier == "quick":
        cases = [d for c in cases for d in fmtcases.SPLIT.get(c[0], [c])]
    cap = 3 if ctx.tier == "quick" else 4
    u = Unit("c03", ["c03_common.cc", "nothread.cc"], ["Log.cc", "Cycles.cc", "RuntimeLogger.cc", "NanoLog.cc", "Util.cc"],
             flags=["-DSTRCAP=%d" % cap, "-DWSTRCAP=2"], stdio=True, fake_regex=True, models=("model_libc.cc", "model_rt.cc"),
             config={"STAGING_BUFFER_SIZE": 4096, "OUTPUT_BUFFER_SIZE": 8192}, gen=gen_cases(cases, 8))
    jobs = [Job(u, "c03_%d" % i, reach=["decoded"], time=40 if ctx.tier == "quick" else 120, opts=STUB, samples=1,
                bound="format %s, every value of its arguments (%s)" % (fmtcases.cstr(f), ",".join(a))) for i, (f, a) in enumerate(cases)]
    meta = dict(
        level="model_checking",
        bounds="%d format strings; every value of integer, character, pointer and floating-point arguments; strings up to %d characters, wide strings up to 2 (code points below U+D800); run-time widths and precisions in [-300,300]" % (len(cases), cap),
        outside="other format strings; longer strings; wide characters from U+D800 up, locales other than C.UTF-8; %n; messages larger than the (scaled) staging buffer",
        assumptions=["printf itself is trusted: symbolic runs compare the sequence of conversions (flags, width, precision, value) and literal text handed to it; native replays compare text",
                     "std::regex is replaced by a backtracking matcher in symbolic runs (differentially tested); native replays use the real one",
                     "STAGING_BUFFER_SIZE scaled to 4096 and the background thread not started: its loop is driven by the harness",
                     "statements that should compile but do not are reported without a solver"])
    try:
        return decide(ctx, [u], jobs, meta, budget=400 if ctx.tier == "quick" else 850)
    except CheckError:
        b = confirm_broken(cases)
        if not b:
            raise
        dst = os.path.join(VERIF, "replays", "C03")
        os.makedirs(dst, exist_ok=True)
        dst = os.path.join(dst, "does_not_compile.cc")
        open(dst, "w").write(b[0] + "/*\n" + b[1].replace("*/", "* /") + "\n*/\n")
        ctx.log("a valid log statement does not compile: " + b[1][:600])
        json.dump({"property": "C03", "tier": ctx.tier, "seed": ctx.seed, "level": "other",
                   "coverage": {"explanation": "compiling programs with the log statements of the check; nothing could be executed", "statements": len(cases)}, "assumptions": [], "wall_s": round(time.time() - ctx.t0, 2), "violations": 1},
                  open(os.path.join(VERIF, "evidence", "C03.json"), "w"), indent=1)
        print("VIOLATION property=C03 replay=%s" % dst, flush=True)
        return 1
