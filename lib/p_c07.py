from logunit import *
import fmtcases

PY = sys.executable or "python3"
HEADER = '#pragma once\n#line 3 "c07hdr.h"\ninline void c07_inline(int v) { NANO_LOG(NanoLog::LogLevels::NOTICE, "shared %d", v); }\n'
REJECTED = {"", "%.f!", "%.s|"}      # refused by the preprocessor with an error (checked in C05)


def preprocess(out, tag, compiler, name, u, ctx):
    """compiler -E and the real preprocessor, as NanoLogMakeFrag's run-cxx does; returns (processed source, map file)"""
    d = os.path.join(out, tag)
    os.makedirs(d, exist_ok=True)
    flags = [x for x in compiler if x not in ("-emit-llvm", "-c")]
    inc = ["-I" + out, "-I" + os.path.join(out, "runtime"), "-I" + HARN] + (["-I" + os.path.join(HARN, "fakeinc")] if tag == "sym" else [])
    i, m = os.path.join(d, name + ".i"), os.path.join(d, name + ".map")
    r = run(flags + inc + u.flags + ["-E", name, "-o", i], cwd=out)
    if r.returncode:
        raise CheckError("preprocessing failed: " + r.stdout[-2000:])
    r = run([PY, "-B", os.path.join(out, "preprocessor", "parser.py"), "--mapOutput=" + m, i], cwd=out)
    if r.returncode:
        raise CheckError("parser.py failed: " + r.stdout[-2000:])
    return i + "i", m


def user_args(args):
    """parameters of a plain function with these arguments, and their names"""
    T = {"str": "char*", "cstr": "const char*", "strn0": "const char*", "strn3": "const char*", "wstr": "const wchar_t*", "wlong": "const wchar_t*", "width": "int", "prec": "int", "prec3": "int", "chptr": "char*", "cchptr": "const char*"}
    return ", ".join("%s a%d" % (T.get(k, k), n) for n, k in enumerate(args)), "".join(", a%d" % n for n in range(len(args)))


def confirm_broken(ctx, cases):
    """The harness could not be preprocessed or compiled. Is a plain program that logs these formats refused, too?
    Returns (source file, message) for the first such statement, or None."""
    out = os.path.join(ctx.dir, "plain")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(os.path.join(out, "runtime"))
    copy_preprocessor(out)
    for f in glob.glob(os.path.join(REPO, "runtime", "*.h")):
        shutil.copy(f, os.path.join(out, "runtime"))
    cc = ["g++", "-std=c++17", "-w", "-DPREPROCESSOR_NANOLOG", "-I" + os.path.join(out, "runtime")]

    def attempt(stmts, tag):
        src = os.path.join(out, tag + ".cc")
        with open(src, "w") as f:
            f.write('#include "NanoLog.h"\nusing namespace NanoLog::LogLevels;\n' + "".join(stmts))
        if run(cc + ["-DNANO_LOG(...)", "-fsyntax-only", src], cwd=out).returncode:
            return None                               # not a valid program, or the runtime's headers do not compile
        i, m, g = src + ".i", src + ".map", os.path.join(out, tag + "_gen.cc")
        steps = [cc + ["-E", src, "-o", i], [PY, "-B", os.path.join(out, "preprocessor", "parser.py"), "--mapOutput=" + m, i],
                 cc + ["-x", "c++", "-fsyntax-only", i + "i"], [PY, "-B", os.path.join(out, "preprocessor", "parser.py"), "--combinedOutput=" + g, m],
                 cc + ["-fsyntax-only", g]]
        for c in steps:
            r = run(c, cwd=out)
            if r.returncode:
                return src, " ".join(c) + "\n" + r.stdout[-2500:]
        return None
    stm = lambda n, f, a: "void f%d(%s) { NANO_LOG(NOTICE, %s%s); }\n" % (n, user_args(a)[0], fmtcases.cstr(f), user_args(a)[1])
    stmts = [stm(n, f, a) for n, (f, a) in enumerate(cases)]
    with ThreadPoolExecutor(NPROC) as ex:
        for b in ex.map(lambda t: attempt([t[1]], "stmt%d" % t[0]), list(enumerate(stmts))):
            if b:
                return b
    with open(os.path.join(out, "c07hdr.h"), "w") as f:
        f.write(HEADER)
    return attempt(stmts, "together") or attempt(['#include "c07hdr.h"\nvoid g(int v) { c07_inline(v); NANO_LOG(WARNING, "unit %d", v + 1); }\n'], "header")


def generated(out, header, maps):
    r = run([PY, "-B", os.path.join(out, "preprocessor", "parser.py"), "--combinedOutput=" + header] + maps, cwd=out)
    if r.returncode:
        raise CheckError("parser.py --combinedOutput failed: " + r.stdout[-2000:])


def copy_preprocessor(out):
    d = os.path.join(out, "preprocessor")
    os.makedirs(d, exist_ok=True)
    for f in glob.glob(os.path.join(REPO, "preprocessor", "*.py")):
        shutil.copy(f, d)


def case_text(i, fmt, args):
    ds = [fmtcases.decl(k, n) for n, k in enumerate(args)]
    a = "".join(", " + d[1] for d in ds)
    t = 'extern "C" void c07_%d() {\n  FILE* exp = sink_open();\n' % i
    t += "".join("  " + d[0] + "\n" for d in ds)
    t += "  fprintf(exp, %s%s);\n" % (fmtcases.cstr(fmt), fmtcases.expected(args))
    t += "  NANO_LOG(NOTICE, %s%s); const uint32_t line = __LINE__;\n" % (fmtcases.cstr(fmt), a)
    t += "".join("  " + d[2] + "\n" for d in ds if d[2])
    t += '  Expect e = {exp, line, "NOTICE"};\n  c07_decode_and_compare(FILENAME, &e, 1);\n}\n'
    return t


LEVELS = '''
// every current level: a statement records exactly when its level is not above it
extern "C" void c07_levels() {
  int cur = (int)sym_choose(NUM_LOG_LEVELS, "current level");
  NanoLog::setLogLevel((NanoLog::LogLevels::LogLevel)cur);
  int v = sym<int>("v"), n = 0, evals = 0; Expect e[4];
  struct { LogLevel l; const char* name; } L[4] = {{ERROR, "ERROR"}, {WARNING, "WARNING"}, {NOTICE, "NOTICE"}, {DEBUG, "DEBUG"}};
  uint32_t lines[4];
  NANO_LOG(ERROR, "e %d", v + 0 * ++evals); lines[0] = __LINE__;
  NANO_LOG(WARNING, "w %d", v); lines[1] = __LINE__;
  NANO_LOG(NOTICE, "n %d", v); lines[2] = __LINE__;
  NANO_LOG(DEBUG, "d %d", v); lines[3] = __LINE__;
  for (int i = 0; i < 4; i++) if (L[i].l <= cur) {
    e[n].text = sink_open(); e[n].line = lines[i]; e[n].level = L[i].name;
    fprintf(e[n].text, i == 0 ? "e %d" : i == 1 ? "w %d" : i == 2 ? "n %d" : "d %d", v); n++;
  }
  sym_check(evals == 1, "an argument of a log statement was not evaluated exactly once");
  c07_decode_and_compare(FILENAME, e, n);
}
// several statements, one of them repeated with other values, on one line and over several lines
extern "C" void c07_multi() {
  char* b = (char*)malloc(STRCAP + 1); sym_bytes(b, STRCAP, "s"); b[STRCAP] = 0;
  int v = sym<int>("v"); double d = sym<double>("d"); int p = sym<int>("p"); sym_assume(p >= -3 && p <= 300);
  Expect e[4]; uint32_t line[3];
  for (int i = 0; i < 4; i++) { e[i].text = sink_open(); e[i].level = "NOTICE"; }
  fprintf(e[0].text, "%d %s|%f", v, b, d); fprintf(e[1].text, "%.*s;%d", p, b, v); fprintf(e[2].text, "bare \\"text\\""); 
  line[0] = __LINE__ + 1;
  NANO_LOG(NOTICE, "%d "
           "%s|%f", v,
           b, d); NANO_LOG(NOTICE, "%.*s;%d", p, b, v); line[1] = __LINE__; if (v == v) NANO_LOG(NOTICE, "bare \\"text\\""); else sym_fail("the statement after a log statement ran");
  b[0] = 'Q'; v++;
  fprintf(e[3].text, "again %s %d", b, v);
  NANO_LOG(NOTICE, "again %s %d", b, v); line[2] = __LINE__;
  memset(b, '#', STRCAP);
  e[0].line = line[0]; e[1].line = e[2].line = line[1]; e[3].line = line[2];
  c07_decode_and_compare(FILENAME, e, 4);
}
// the same text at two levels on one line; texts whose encoded names coincide
extern "C" void c07_sameline() {
  int v = sym<int>("v"); NanoLog::setLogLevel(DEBUG); Expect e[3];
  for (int i = 0; i < 3; i++) { e[i].text = sink_open(); e[i].level = "NOTICE"; e[i].line = __LINE__ + 1; }
  if (v > 5) NANO_LOG(ERROR, "same %d", v); else NANO_LOG(DEBUG, "same %d", v); NANO_LOG(NOTICE, "a "); NANO_LOG(NOTICE, "a32");
  e[0].level = v > 5 ? "ERROR" : "DEBUG"; fprintf(e[0].text, "same %d", v); fprintf(e[1].text, "a "); fprintf(e[2].text, "a32");
  c07_decode_and_compare(FILENAME, e, 3);
}
// whatever the space, the dictionary is written whole or refused
extern "C" void c07_dictcap() {
  static char big[OUTCAP];
  long full = GeneratedFunctions::writeDictionary(big, big + sizeof big);
  sym_check(full > 0 && GeneratedFunctions::numLogIds >= 4, "the dictionary is empty");
  size_t cap = sym_param(0) ? (size_t)full + 2 - sym_choose(400, "cap") : sym_choose(400, "cap");
  char* b = (char*)malloc(cap); memset(b, 0, cap);
  long n = GeneratedFunctions::writeDictionary(b, b + cap);
  sym_check(n == -1 || n == full, "part of a dictionary was reported as the whole");
  if (n == full) { sym_check(cap > (size_t)full - 1 && !memcmp(b, big, full), "the dictionary depends on the space"); sym_reach("fits"); }
  else { sym_check(cap <= (size_t)full, "a dictionary that fits was refused"); sym_reach("refused"); }
  free(b);
}
// executions of two differently built programs appended to one log: each is decoded with its own dictionary
namespace GeneratedFunctions2 { extern size_t numLogIds; long int writeDictionary(char*, char*); }
static void two(int v, const char* s) { NANO_LOG(NOTICE, "one %d", v); NANO_LOG(NOTICE, "one %s and more", s); }
static const uint32_t twoLine = __LINE__ - 1;
extern "C" void c07_append() {
  static char buf[3 * OUTCAP]; char* w = buf; int v[3]; char s[3][2]; FILE* exp[3][2]; int prog[3];
  uint32_t tid = 0;
  for (int k = 0; k < 3; k++) {
    prog[k] = (int)sym_choose(2, "program"); v[k] = sym<int8_t>("v"); sym_bytes(s[k], 1, "s"); s[k][1] = 0;
    static char out[OUTCAP];
    Log::Encoder enc(out, sizeof out);
    if (prog[k]) {      // what an encoder of the other program starts its output with
      Log::Checkpoint* ck = (Log::Checkpoint*)out;
      long n = GeneratedFunctions2::writeDictionary(out + sizeof *ck, out + sizeof out);
      ck->newMetadataBytes = n; ck->totalMetadataEntries = GeneratedFunctions2::numLogIds;
      enc.writePos = out + sizeof *ck + n;
    }
    two(v[k], s[k]);
    for (int i = 0; i < 2; i++) exp[k][i] = sink_open();
    fprintf(exp[k][0], prog[k] ? "a longer first text of the other program %d" : "one %d", v[k]);
    fprintf(exp[k][1], prog[k] ? "z %s" : "one %s and more", s[k]);
    uint64_t avail, cnt = 0; char* p = RuntimeLogger::stagingBuffer->peek(&avail);
    // the other program knows its two messages under its own ids
    auto* u = (Log::UncompressedEntry*)p; auto* u2 = (Log::UncompressedEntry*)(p + u->entrySize);
    ssize_t (*saved[2])(Log::UncompressedEntry*, char*) = {GeneratedFunctions::compressFnArray[0], GeneratedFunctions::compressFnArray[1]};
    auto* f1 = GeneratedFunctions::compressFnArray[u->fmtId]; auto* f2 = GeneratedFunctions::compressFnArray[u2->fmtId];
    if (prog[k]) { GeneratedFunctions::compressFnArray[0] = f1; GeneratedFunctions::compressFnArray[1] = f2; u->fmtId = 0; u2->fmtId = 1; }
    long rd = enc.encodeLogMsgs(p, avail, tid = RuntimeLogger::stagingBuffer->getId(), true, &cnt);
    sym_check(rd == (long)avail && cnt == 2, "not everything recorded was compressed");
    RuntimeLogger::stagingBuffer->consume(rd);
    size_t n = enc.getEncodedBytes();
    GeneratedFunctions::compressFnArray[0] = saved[0]; GeneratedFunctions::compressFnArray[1] = saved[1];
    memcpy(w, out, n); w += n;
  }
  mfile_set("c07log", buf, w - buf);
  for (int mode = 0; mode < 2; mode++) {
    Log::Decoder* d = new Log::Decoder(); sym_check(d->open("c07log"), "the log cannot be opened");
    FILE* out = sink_open();
    int64_t r = mode ? d->decompressTo(out) : d->decompressUnordered(out);
#ifndef SYMBOLIC_BUILD
    if (getenv("C07DBG")) fprintf(stderr, "mode %d r %ld\\n%s\\n", mode, (long)r, (const char*)sink_data(out));
#endif
    sym_check(r == 6, "number of decoded messages differs");
    size_t b = 0;
    for (int k = 0; k < 3; k++) for (int i = 0; i < 2; i++) {
      FILE* pre = sink_open();
      fprintf(pre, "%s:%u NOTICE[%u]: ", prog[k] ? "c07other.cc" : FILENAME, prog[k] ? i + 2 : twoLine, tid);
      long t = sink_find(out, b, prog[k] ? "c07other.cc" : FILENAME);
      sym_check(t >= 0 && sink_size(out) >= t + sink_size(pre) && sink_eq_range(out, t, sink_size(pre), pre, 0, sink_size(pre)), "a message of an appended execution was decoded with the wrong dictionary");
      b = t + sink_size(pre); size_t l = sink_size(exp[k][i]);
      sym_check(sink_size(out) >= b + l && sink_eq_range(out, b, l, exp[k][i], 0, l), "text of a message of an appended execution differs");
      b += l;
    }
  }
  sym_reach("decoded");
}
// the same statement in a header of several units, and at the same line of units with similar names
extern void c07_unit_a(int), c07_unit_b(int);
extern "C" void c07_units() {
  int v = sym<int>("v"); Expect e[5]; const char* f[5] = {"c07hdr.h", "c07hdr.h", "c07u_b.cc", "c07hdr.h", "c07u-b.cc"};
  for (int i = 0; i < 5; i++) { e[i].text = sink_open(); e[i].level = i == 2 || i == 4 ? "WARNING" : "NOTICE"; e[i].line = i == 2 || i == 4 ? 2 : 3; e[i].file = f[i]; fprintf(e[i].text, i == 2 || i == 4 ? "unit %d" : "shared %d", v + i); }
  c07_inline(v); c07_unit_a(v + 1); c07_unit_b(v + 3);
  c07_decode_and_compare(FILENAME, e, 5);
}
static void repeat(const char* s, int v) { NANO_LOG(NOTICE, "r %s %d", s, v); }
static uint32_t repeatLine = __LINE__ - 1;
extern "C" void c07_repeat() {
  int v[NREP]; char s[NREP][STRCAP + 1]; Expect e[NREP];
  for (int i = 0; i < NREP; i++) { v[i] = sym<int>("v"); sym_bytes(s[i], STRCAP, "s"); s[i][STRCAP] = 0; e[i].text = sink_open(); e[i].line = repeatLine; e[i].level = "NOTICE"; fprintf(e[i].text, "r %s %d", s[i], v[i]); }
  for (int i = 0; i < NREP; i++) { repeat(s[i], v[i]); memset(s[i], '!', STRCAP); }
  c07_decode_and_compare(FILENAME, e, NREP);
}
'''


def gen_cases(cases):
    def gen(out, ctx):
        u = gen.unit
        copy_preprocessor(out)
        srcs, maps = [], []
        name = u.name + ".cc"
        with open(os.path.join(out, "c07hdr.h"), "w") as f:
            f.write(HEADER)
        for uf, fn in (("c07u_b.cc", "c07_unit_a"), ("c07u-b.cc", "c07_unit_b")):
            with open(os.path.join(out, uf), "w") as f:
                f.write('#include "NanoLog.h"\nvoid c07_inline(int); void %s(int v) { c07_inline(v); NANO_LOG(NanoLog::LogLevels::WARNING, "unit %%d", v + 1); }\n#include "c07hdr.h"\n' % fn)
        with open(os.path.join(out, name), "w") as f:
            f.write('#include "c07.h"\nusing namespace NanoLog::LogLevels;\n#include "c07hdr.h"\n#define FILENAME "%s"\n' % name)
            for i, (fmt, args) in cases:
                f.write(case_text(i, fmt, args))
            f.write(LEVELS)
        s, m = preprocess(out, "sym", CLANG, name, u, ctx)
        n, _ = preprocess(out, "nat", NATIVE, name, u, ctx)
        us = [(preprocess(out, "sym", CLANG, uf, u, ctx), preprocess(out, "nat", NATIVE, uf, u, ctx)) for uf in ("c07u_b.cc", "c07u-b.cc")]
        g = os.path.join(out, "GeneratedCode.cc")
        generated(out, g, [us[0][0][1], m, us[1][0][1]])
        # another program with other statements; only its dictionary is used
        with open(os.path.join(out, "c07other.cc"), "w") as f:
            f.write('#include "NanoLog.h"\nvoid first(int v) { NANO_LOG(NOTICE, "a longer first text of the other program %d", v); }\nvoid second(const char* s) { NANO_LOG(NOTICE, "z %s", s); }\n')
        s2, m2 = preprocess(out, "sym", CLANG, "c07other.cc", u, ctx)
        g2 = os.path.join(out, "GeneratedOther.cc")
        generated(out, g2, [m2])
        t = open(g2).read().replace("namespace GeneratedFunctions", "namespace GeneratedFunctions2")
        open(g2, "w").write(t)
        return [(s, n), g, g2] + [(a[0], b[0]) for a, b in us]
    return gen


def check(ctx):
    q = ctx.tier == "quick"
    cases = [d for c in fmtcases.cases(ctx.tier) if c[0] not in REJECTED for d in (fmtcases.SPLIT.get(c[0], [c]) if q else [c])]
    cap = 3 if q else 4
    per = 60
    units, jobs = [], []
    chunks = [list(enumerate(cases))[k:k + per] for k in range(0, len(cases), per)]
    for c, ch in enumerate(chunks):
        g = gen_cases(ch)
        u = Unit("c07case%d" % c, ["c07_common.cc", "nothread.cc"], SRC, flags=["-DPREPROCESSOR_NANOLOG", "-DSTRCAP=%d" % cap, "-DNREP=%d" % (2 if q else 3), "-DWSTRCAP=2", "-DOUTCAP=12288"], stdio=True, fake_regex=True,
                 models=("model_libc.cc", "model_rt.cc"), config={"STAGING_BUFFER_SIZE": 4096, "OUTPUT_BUFFER_SIZE": 8192}, gen=g)
        g.unit = u
        units.append(u)
        for i, (f, a) in ch:
            jobs.append(Job(u, "c07_%d" % i, reach=["decoded"], time=60 if q else 200, opts=STUB, samples=1, bound="format %s, every value of its arguments (%s)" % (fmtcases.cstr(f), ",".join(a))))
        if c == 0:
            for e, b in (("levels", "four statements of every level under every current level, every value of the argument"), ("multi", "four statements sharing lines, every value of the arguments"), ("append", "three executions, each of either of two programs, appended to one log, read in two modes"), ("sameline", "statements of different levels or texts on one line"), ("units", "one statement in a header included by three units, and equal statements of two units with similar names"), ("repeat", "one statement executed two or three times, every value of the arguments")):
                jobs.append(Job(u, "c07_" + e, reach=["decoded"], time=100, opts=STUB, bound=b))
        if c == 0:
            for k in range(2):
                jobs.append(Job(u, "c07_dictcap", [k], reach=["fits", "refused"][1 - k:] if k == 0 else ["fits", "refused"], time=100, opts=STUB, bound="writing the dictionary, space from %s" % ("0 to 399 bytes" if k == 0 else "398 bytes less to 2 bytes more than it needs")))
    meta = dict(
        level="model_checking",
        bounds="%d format strings; every value of integer, character, pointer and floating-point arguments; strings up to %d characters, wide strings up to 2 (code points below U+D800); run-time widths and precisions in [-300,300]" % (len(cases), cap),
        outside="other format strings; longer strings; wide characters from U+D800 up, locales other than C.UTF-8; %n",
        assumptions=["printf itself is trusted: symbolic runs compare the sequence of conversions and literal text handed to it; native replays compare text",
                     "the C preprocessor (clang -E; g++ -E for replays), parser.py and FunctionGenerator.py run concretely on the generated user file; the C++ they produce is what is executed symbolically",
                     "STAGING_BUFFER_SIZE scaled to 4096; the background thread's loop is driven by the harness",
                     "format strings the preprocessor should accept but refuses, or for which it generates C++ that does not compile, are reported without a solver"])
    try:
        return decide(ctx, units, jobs, meta, budget=400 if q else 850)
    except CheckError as e:
        b = confirm_broken(ctx, cases)
        if not b:
            raise
        dst = os.path.join(VERIF, "replays", "C07")
        os.makedirs(dst, exist_ok=True)
        dst = os.path.join(dst, os.path.basename(b[0]))
        shutil.copy(b[0], dst)
        with open(dst, "a") as f:
            f.write("/*\n" + b[1].replace("*/", "* /") + "\n*/\n")
        ctx.log("a program with supported log statements cannot be built: " + b[1][:600])
        json.dump({"property": "C07", "tier": ctx.tier, "seed": ctx.seed, "level": "other",
                   "coverage": {"explanation": "building programs with the log statements of the check; nothing could be executed", "statements": len(cases)}, "assumptions": [], "wall_s": round(time.time() - ctx.t0, 2), "violations": 1},
                  open(os.path.join(VERIF, "evidence", "C07.json"), "w"), indent=1)
        print("VIOLATION property=C07 replay=%s" % dst, flush=True)
        return 1
