"""Harnesses for the preprocessor. Each takes an engine (symbolic or concrete) and a parameter that gives the shape of the
input; the oracles below are written from the C and C++ grammars and know nothing of the code under test."""
import sx
from sx import mask, ALNUM, DIGIT

TEXT = mask(range(32, 127)) | mask("\t")                 # what a source line holds


def build(e, template, alphabet=sx.ALL, name="s"):
    """A string from a template: each \x00 is an arbitrary character."""
    out = None; run = ""
    def add(x):
        nonlocal out
        out = x if out is None else out + x
    for c in template:
        if c == "\0":
            if run: add(sx.LStr(run) if e.symbolic else run); run = ""
            add(e.chars(1, name, alphabet))
        else: run += c
    if run or out is None: add(sx.LStr(run) if e.symbolic else run)
    return out


# ---------------------------------------------------------------- C05
class Conv: pass


def printf_scan(e, s):
    """Conversions of a format in C source spelling, or (None, why): why is 'bad' (not printf, or %n) or 'outside'."""
    n = len(s); i = 0; convs = []; atoms = []            # atoms: source ranges that belong together
    isin = lambda k, cs: k < n and e.isin(s[k], cs)
    bad = False
    while i < n:
        if isin(i, "\\"):
            if i + 1 >= n or not isin(i + 1, "'\"?\\abfnrtvx01234567"): return None, "outside"
            j = i + 2
            if isin(i + 1, "x"):
                while isin(j, "0123456789abcdefABCDEF"): j += 1
                if j == i + 2: return None, "outside"
                v = 0
                if j - i - 2 > 2 or (j == i + 4 and isin(i + 2, "2") and isin(i + 3, "5")) or isin(i + 2, "0"): return None, "outside"
            elif isin(i + 1, "01234567"):
                while j < i + 4 and isin(j, "01234567"): j += 1
                if isin(i + 1, "0") or (j == i + 3 and isin(i + 1, "4") and isin(i + 2, "5")) or j == i + 4: return None, "outside"
            atoms.append((i, j)); i = j; continue
        if not isin(i, "%"): i += 1; continue
        if isin(i + 1, "%"): atoms.append((i, i + 2)); i += 2; continue
        c = Conv(); c.start = i; k = i + 1
        while isin(k, "-+ #0"): k += 1
        c.width = None
        if isin(k, "*"): c.width = "*"; k += 1
        elif isin(k, DIGIT):
            j = k
            while isin(k, DIGIT): k += 1
            c.width = s[j:k]
        c.prec = None
        if isin(k, "."):
            k += 1
            if isin(k, "*"): c.prec = "*"; k += 1
            else:
                j = k
                while isin(k, DIGIT): k += 1
                if j == k: bad = True                     # an empty precision may be rejected
                c.prec = s[j:k]
        c.len = ""
        for l in ("hh", "h", "ll", "l", "j", "z", "Z", "t", "L"):
            if all(isin(k + x, l[x]) for x in range(len(l))): c.len = l; k += len(l); break
        if k < n and e.isin(s[k], "%"): return None, "bad"
        c.spec = None
        for sp in ("di", "ouxX", "fFeEgGaA", "c", "s", "p", "n"):
            if isin(k, sp): c.spec = sp[0]; break
        if c.spec is None or c.spec == "n": return None, "bad"
        if isin(i + 1, "\\"): return None, "outside"
        c.end = k + 1; atoms.append((i, k + 1)); convs.append(c); i = k + 1
    return (convs, atoms), "maybe" if bad else ""


INT = {"": "int", "hh": "char", "h": "short int", "l": "long int", "ll": "long long int"}


def expected_type(c):
    """(acceptable types, must be accepted)"""
    l, sp = c.len, c.spec
    if sp in "do":
        if l in INT:
            b = INT[l]
            return (["signed char" if l == "hh" else b] if sp == "d" else ["unsigned " + b]), True
        if l == "j": return ["intmax_t"] if sp == "d" else ["uintmax_t"], True
        if l in "zZ": return ["size_t", "ssize_t"], True
        if l == "t": return ["ptrdiff_t"], True
        return None, False
    if sp == "f": return (["long double"] if l == "L" else ["double"]) if l in ("", "l", "L") else None, l in ("", "l", "L")
    if sp == "c": return (["int"] if l == "" else ["wint_t"]) if l in ("", "l") else None, l in ("", "l")
    if sp == "s": return (["const char*"] if l == "" else ["const wchar_t*"]) if l in ("", "l") else None, l in ("", "l")
    if sp == "p": return ["const void*"] if l == "" else None, l == ""
    return None, False


def c05_split(e, template):
    fg = e.load("FunctionGenerator")
    s = build(e, template)
    sc, why = printf_scan(e, s)
    if why == "outside": e.skip()
    try:
        r = fg.splitAndParseTypesInFmtString(s)
    except ValueError:
        r = None
    if sc is None:
        e.check(r is None, "a format that printf does not define (or %n) is accepted")
        e.reach("rejected"); return
    convs, atoms = sc
    must = why == "" and all(expected_type(c)[1] for c in convs)
    if r is None:
        e.check(not must, "a supported format is rejected"); return
    if any(expected_type(c)[0] is None for c in convs): e.skip()
    e.reach("accepted")
    text = None
    for f in r: text = f[3] if text is None else text + f[3]
    e.check(e.same(text, s), "the fragments do not add up to the format")
    if not convs:
        e.check(len(r) == 1 and r[0][0] is None, "a conversion is found that printf does not perform")
        e.reach("no conversion"); return
    e.check(len(r) == len(convs), "the number of conversions differs from printf's")
    at = 0
    for k, c in enumerate(convs):
        t, w, p, sub = r[k]
        e.check(any(t == x for x in expected_type(c)[0]), "a conversion gets the wrong C type")
        for got, want in ((w, c.width), (p, c.prec)):
            if want is None: e.check(got is None, "a width or precision is found that is not there")
            elif isinstance(want, str) and want == "*": e.check(got is not None and e.same(got, "*"), "a dynamic width or precision is missed")
            elif len(want): e.check(e.same(got, e.number(want)), "a width or precision has the wrong value")
        at += len(sub)
        lo, hi = c.end, convs[k + 1].start if k + 1 < len(convs) else len(s)
        e.check(lo <= at <= hi, "a fragment does not hold exactly its conversion")
        e.check(all(not (a < at < b) for a, b in atoms), "a fragment ends inside an escape sequence")
    e.reach("conversion")


def c05_kind(e, _):
    """isStringType and isWideString on every type the splitter returns."""
    fg = e.load("FunctionGenerator")
    n = len(e.KINDS)
    k = 0
    c = e.chars(1, "k", mask(range(1, n + 1)))
    for i in range(n):
        if e.isin(c, 1 << (i + 1)): k = i
    r = fg.splitAndParseTypesInFmtString(sx.LStr(e.KINDS[k]) if e.symbolic else e.KINDS[k])
    e.check(bool(fg.isStringType(r[0][0])) == (k < 2), "a string argument is not treated as a string, or the other way round")
    e.check(bool(fg.isWideString(r[0][0])) == (k == 1), "a wide string argument is not treated as wide, or the other way round")
    e.reach("kind")


KINDS = ["%s", "%ls", "%d", "%hhd", "%hhu", "%c", "%lc", "%p", "%f", "%Lf", "%lld", "%zu", "%jd", "%td", "100%%"]
sx.Engine.KINDS = sx.Concrete.KINDS = KINDS


# ---------------------------------------------------------------- a C++ lexer
ID0 = sx.ALPHA | mask("_"); ID = ALNUM | mask("_")
WS = mask(" \t\n\r\v\f")


class Tok:
    def __init__(self, kind, a, b): self.kind, self.a, self.b = kind, a, b


def lex(e, s, i=0, stop=None):
    """Tokens of s from i on: (kind, start, end). stop(token) ends it. None: not a token sequence of C++ (or outside)."""
    n = len(s); out = []
    isin = lambda k, cs: k < n and e.isin(s[k], cs)
    while i < n:
        a = i
        if isin(i, WS): i += 1; continue
        if isin(i, "\""):
            i += 1
            while True:
                if i >= n or isin(i, "\n"): return None
                if isin(i, "\\"):
                    if i + 1 >= n or isin(i + 1, "\n"): return None
                    i += 2; continue
                if isin(i, "\""): i += 1; break
                i += 1
            t = Tok("str", a, i)
        elif isin(i, "'"):
            i += 1
            if isin(i, "'"): return None
            while True:
                if i >= n or isin(i, "\n"): return None
                if isin(i, "\\"):
                    if i + 1 >= n or isin(i + 1, "\n"): return None
                    i += 2; continue
                if isin(i, "'"): i += 1; break
                i += 1
            t = Tok("chr", a, i)
        elif isin(i, ID0):
            while isin(i, ID): i += 1
            if isin(i, "\"'"):
                w = s[a:i]
                pre = any(len(w) == len(p) and all(e.isin(w[x], p[x]) for x in range(len(p))) for p in ("L", "u", "U", "u8"))
                if isin(i, "'") and not pre: return None
                if isin(i, "\"") and e.isin(s[i - 1], "R"): return None          # raw strings: outside
            t = Tok("id", a, i)
        elif isin(i, DIGIT) or isin(i, ".") and isin(i + 1, DIGIT):
            if i > 0 and isin(i - 1, "'\""): return None                               # two operands in a row
            if isin(i, ".") and i > 0 and isin(i - 1, ID | mask(")].")): return None     # a.0 is no expression
            i += 1
            while i < n:
                if isin(i, "eEpP") and isin(i + 1, "+-"): i += 2
                elif isin(i, ALNUM | mask("_.")): i += 1
                elif isin(i, "'") and isin(i - 1, "0123456789abcdefABCDEF") and isin(i + 1, "0123456789abcdefABCDEF"): i += 2
                else: break
            if isin(i, "\"'"): return None
            if any(not e.isin(s[k], "0123456789abcdefABCDEFxXpPuUlLzZ.'+-") for k in range(a, i)): return None     # user-defined suffixes: outside
            t = Tok("num", a, i)
        elif isin(i, "\\#@`$"): return None
        else: i += 1; t = Tok("p", a, i)
        out.append(t)
        if stop and stop(t): return out
    return out


OPEN, CLOSE = "([{", ")]}"


def arg_end(e, s, i):
    """Index of the , or ) that ends the function argument starting at i; None if there is none in well-formed C++."""
    stack = []; hit = []; bad = []

    def stop(t):
        if t.kind != "p": return False
        c = s[t.a]
        for k in range(3):
            if e.isin(c, OPEN[k]): stack.append(k); return False
        for k in range(3):
            if e.isin(c, CLOSE[k]):
                if not stack:
                    (hit if k == 0 else bad).append(t.a); return True
                if stack.pop() != k: bad.append(1); return True
                return False
        if not stack:
            if e.isin(c, ","): hit.append(t.a); return True
            if e.isin(c, ";"): bad.append(1); return True
        return False
    if lex(e, s, i, stop) is None or bad: return None
    return hit[0] if hit else None


def split_lines(e, s, cuts):
    """The text s as lines: a newline after each position in cuts. Returns lines and a map from position to (line, offset)."""
    lines = []; pos = []; a = 0
    for k in list(cuts) + [len(s)]:
        for i in range(a, k): pos.append((len(lines), i - a))
        lines.append(s[a:k] + "\n"); a = k
    return lines, pos


def joined(e, s, cuts):
    out = None; a = 0
    for k in list(cuts) + [len(s)]:
        seg = s[a:k] + "\n"; out = seg if out is None else out + seg; a = k
    return out


def whole(lines):
    out = lines[0]
    for l in lines[1:]: out = out + l
    return out


def place(lines, i):
    """(line, offset) of character i of the whole text."""
    for n, l in enumerate(lines):
        if i < len(l): return n, i
        i -= len(l)
    return len(lines), 0


def c06_arg(e, p):
    """parseArgumentStartingAt on prefix + arbitrary characters, possibly over several lines."""
    template, cuts, start = p
    ps = e.load("parser")
    s = build(e, template, TEXT)
    lines, _ = split_lines(e, s, cuts)
    text = whole(lines)
    end = arg_end(e, text, start)
    if end is None: e.skip()
    ln, off = place(lines, start)
    sp = ps.FilePosition(ln, off)
    a = ps.parseArgumentStartingAt(lines, sp)
    e.check(a is not None, "an argument is not found")
    e.check(tuple(a.startPos) == (ln, off), "an argument starts elsewhere")
    e.check(tuple(a.endPos) == place(lines, end), "an argument ends elsewhere")
    e.check(e.same(a.source, text[start:end]), "the text of an argument is wrong")
    e.reach("argument")


def statement(e, text, i):
    """The call that starts with the name at i (ending at i + 8): (open, arguments [(a, b)], close, semicolon or None)."""
    n = len(text); k = i + 8
    while k < n and e.isin(text[k], WS): k += 1
    if k >= n or not e.isin(text[k], "("): return None
    op = k; args = []
    while True:
        end = arg_end(e, text, k + 1)
        if end is None: return None
        args.append((k + 1, end)); k = end
        if e.isin(text[end], ")"): break
    close = k; k += 1
    while k < n and e.isin(text[k], WS): k += 1
    return op, args, close, (k if k < n and e.isin(text[k], ";") else None)


def c06_statement(e, p):
    template, cuts, start = p
    ps = e.load("parser")
    s = build(e, template, TEXT)
    lines, _ = split_lines(e, s, cuts)
    text = whole(lines)
    st = statement(e, text, start)
    if st is None: e.skip()
    op, args, close, semi = st
    if len(args) == 1 and all(e.isin(c, WS) for c in text[args[0][0]:args[0][1]]): e.skip()
    try:
        r = ps.parseLogStatement(lines, ps.FilePosition(*place(lines, start)))
    except ValueError:
        e.check(semi is None, "a log statement is not understood"); e.reach("no semicolon"); return
    e.check(semi is not None, "a log statement without a semicolon is accepted")
    e.check(tuple(r['openParenPos']) == place(lines, op), "the opening parenthesis is elsewhere")
    e.check(tuple(r['closeParenPos']) == place(lines, close), "the closing parenthesis is elsewhere")
    e.check(tuple(r['semiColonPos']) == place(lines, semi), "the semicolon is elsewhere")
    e.check(tuple(r['startPos']) == place(lines, start), "the start is elsewhere")
    e.check(len(r['arguments']) == len(args), "the number of arguments is wrong")
    for g, (a, b) in zip(r['arguments'], args):
        e.check(e.same(g.source, text[a:b]), "the text of an argument is wrong")
    e.reach("statement")


def literal(e, s):
    """The characters of adjacent ordinary string literals, in source spelling; None if s is something else; False: no C++."""
    n = len(s); i = 0; out = None
    isin = lambda k, cs: k < n and e.isin(s[k], cs)
    while i < n:
        if isin(i, WS): i += 1; continue
        if not isin(i, "\""): return None
        a = i + 1; i += 1
        while True:
            if i >= n or isin(i, "\n"): return False
            if isin(i, "\\"):
                if i + 1 >= n or isin(i + 1, "\n"): return False
                i += 2; continue
            if isin(i, "\""): break
            i += 1
        out = s[a:i] if out is None else out + s[a:i]
        i += 1
    return out


def c06_cstring(e, template):
    ps = e.load("parser")
    s = build(e, template, TEXT | mask("\n"))
    want = literal(e, s)
    if want is False: e.skip()
    got = ps.extractCString(s)
    if want is None:
        e.check(not got, "something that is not a string literal is taken for one"); e.reach("none"); return
    if len(want) == 0:
        e.check(not got, "an empty literal yields text"); return
    e.check(got is not None, "a string literal is not recognised")
    e.check(e.same(got, want), "the text of a string literal is wrong")
    e.reach("literal")


# ---------------------------------------------------------------- C18: whole files
MARKER = "static const int __internal_dummy_variable_marker_for_code_injection = 0;\n"


class Gen:
    """Stands in for FunctionGenerator (see C05 and C07): records what it is asked for."""
    def __init__(self): Gen.last = self; self.calls = []
    def generateLogFunctions(self, level, fmt, unit, name, line):
        self.calls.append((level, fmt, unit, name, line)); return ("decl", "REC%d" % len(self.calls))
    def getRecordFunctionDefinitionsFor(self, unit): return ["GENERATED;\n"] if self.calls else []
    def outputMappingFile(self, name): pass


class FakeFile:
    def __init__(self, fs, name, mode):
        self.fs, self.name = fs, str(name)
        if "w" in mode: fs[self.name] = []
        elif self.name not in fs: raise FileNotFoundError(name)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def readlines(self): return list(self.fs[self.name])
    def __iter__(self): return iter(list(self.fs[self.name]))
    def read(self): return whole(self.fs[self.name])
    def write(self, t): self.fs[self.name].append(t)
    def writelines(self, ts): self.fs[self.name] += list(ts)
    def close(self): pass


def run_process(e, lines):
    """Runs processFile; returns (output text or None if it reported an error, calls)."""
    ps = e.load("parser")
    Gen.last = None
    if e.symbolic:
        fs = {"in.i": list(lines)}
        ps.FunctionGenerator = Gen
        ps.__dict__["open"] = lambda n, mode="r", *a, **k: FakeFile(fs, n, mode)
        try:
            ps.processFile("in.i", "map")
        except SystemExit:
            return None, Gen.last.calls
        out = fs["in.ii"]
        t = out[0]
        for x in out[1:]: t = t + x
        return t, Gen.last.calls
    import tempfile, os, shutil, contextlib, io
    d = tempfile.mkdtemp(prefix="prep-")
    try:
        f = os.path.join(d, "in.i"); open(f, "w", newline="").write("".join(lines))
        old = ps.FunctionGenerator; ps.FunctionGenerator = Gen
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                ps.processFile(f, os.path.join(d, "map"))
        except SystemExit:
            return None, Gen.last.calls
        finally:
            ps.FunctionGenerator = old
        return open(f + "i", newline="").read(), Gen.last.calls
    finally:
        shutil.rmtree(d, ignore_errors=True)


def is_marker(e, l):
    """(line, file) of a line marker `# 12 "name" ...`, else None. Lines that start with # are concrete in the templates."""
    if len(l) == 0 or not e.isin(l[0], "#"): return None
    import re
    if not isinstance(l, str): e.skip()
    m = re.match(r'# (\d+) "(.*)"', str(l))
    return (int(m.group(1)), m.group(2)) if m else None


def lines_of(e, text):
    out = []; a = 0
    for i in range(len(text)):
        if e.isin(text[i], "\n"): out.append(text[a:i + 1]); a = i + 1
    if a < len(text): out.append(text[a:])
    return out


def tokens_at(e, text):
    """Tokens with the (file, line) that line markers give them: [(kind, text, file, line)]; None: not C++."""
    seg = None; where = []; name, ln = "", 0; parts = []
    for l in lines_of(e, text):
        ln += 1
        m = is_marker(e, l)
        if m: ln, name = m[0] - 1, m[1]; continue
        parts.append((l, name, ln))
    if not parts: return []
    s = whole([p[0] for p in parts])
    for l, f, k in parts: where += [(f, k)] * len(l)
    ts = lex(e, s)
    if ts is None: return None
    return [(t.kind, s[t.a:t.b], where[t.a][0], where[t.a][1], t.a, t.b) for t in ts], s


def word(e, t, w):
    return t[0] == "id" and len(t[1]) == len(w) and all(e.isin(t[1][k], w[k]) for k in range(len(w)))


def c18_file(e, p):
    """A file made of concrete lines and lines with arbitrary characters: every log statement is replaced once, with its place, and all else stays."""
    lines = [build(e, t, TEXT) for t in p]
    r = tokens_at(e, whole(lines))
    if r is None: e.skip()
    toks, s = r
    want = []; calls = []; i = 0; reject = False; marker = False
    first = None
    import re
    for l in p:
        m = re.match(r'# \d+ "(.*)"', l)
        if m: first = m.group(1); break
    while i < len(toks):
        t = toks[i]
        if word(e, t, "NANO_LOG") and i + 1 < len(toks) and toks[i + 1][0] == "p" and e.isin(toks[i + 1][1], "("):
            st = statement(e, s, t[4])
            if st is None: e.skip()
            op, args, close, semi = st
            if semi is None or len(args) < 2 or not any(word(e, x, MARKER.split()[3]) for x in toks[:i] if x[0] == "id" and len(x[1]) > 20): reject = True; break
            a, b = args[0]; c, d = args[1]
            f = literal(e, s[c:d])
            if f is False: e.skip()
            if f is None or len(f) == 0: reject = True; break
            calls.append((s[a:b], f, first, t[2], t[3]))
            want.append(("p", "{")); want.append(("id", "REC%d" % len(calls)))
            i += 1
            while toks[i][4] != semi: want.append(toks[i]); i += 1
            want.append(toks[i]); want.append(("p", "}")); i += 1
            continue
        want.append(t); i += 1
    out, got = run_process(e, lines)
    if reject:
        e.check(out is None, "a log statement that cannot be processed is not reported"); e.reach("rejected"); return
    e.check(out is not None, "a valid source file is rejected")
    e.check(len(got) == len(calls), "log statements are missed or invented")
    for g, w in zip(got, calls):
        for x, y, what in zip(g, w, ("level", "format", "compilation unit", "file name", "line number")):
            e.check(e.same(x, y), "a log statement gets the wrong " + what)
    r2 = tokens_at(e, out)
    e.check(r2 is not None, "the output is not C++")
    have = [t for t in r2[0] if not (t[2] == "generatedCode.h")]
    gen = [t for t in r2[0] if t[2] == "generatedCode.h" and word(e, t, "GENERATED")]
    e.check(len(gen) == (1 if calls else 0), "the generated code is not there exactly once")
    have = drop_after_generated(e, p, have, r2[0], want)
    e.check(len(have) == len(want), "the rest of the file is changed")
    for h, w in zip(have, want):
        e.check(h[0] == w[0], "the rest of the file is changed")
        e.check(e.same(h[1], w[1]), "the rest of the file is changed")
        if len(w) > 2:
            e.check(e.same(h[2], w[2]) is True and h[3] == w[3], "a line of the file is reported under another number")
    e.reach("statement" if calls else "no statement")


def drop_after_generated(e, p, have, alltoks, want): return have


HARNESSES = dict(c05_split=c05_split, c05_kind=c05_kind, c06_arg=c06_arg, c06_statement=c06_statement, c06_cstring=c06_cstring, c18_file=c18_file)
