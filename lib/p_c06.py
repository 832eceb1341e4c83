from pyjobs import *
Q = "\0"


def check(ctx):
    q = ctx.tier == "quick"
    t = 300 if q else 860
    n = 5 if q else 6
    J = []
    arg = lambda s, start, cuts=(), parts=1: J.append(PyJob("c06_arg", [s, list(cuts), start], "%s, argument from %d, line breaks at %s (?: any character)" % (s.replace(Q, "?"), start, list(cuts)), parts, (), t))
    arg("f(" + Q * n + ")", 2, parts=8)
    J[-1].reach = ["argument"]
    for k in range(0, n): arg("f(" + Q * k + ")", 2)
    for c in ([3], [4], [3, 5], [2]): arg("f(" + Q * 4 + ")", 2, c)
    for s in ("f(g(" + Q * 3 + "), h[" + Q + "])", "f(\"" + Q * 4 + "\", 1)", "f('" + Q * 4 + "', 1)", "f(" + Q * 2 + "\\" + Q * 2 + ")", "f(L'" + Q * 2 + "'" + Q + ", 1)", "f(1'000" + Q * 3 + ")", "f(0x1" + Q * 3 + ", 2)",
              "f([](int " + Q + "){return " + Q * 2 + ";}" + Q + ")", "f(a[" + Q * 2 + "]" + Q * 2 + ")", "f({" + Q * 2 + "}" + Q * 2 + ")", "f(\"a\"" + Q * 2 + "\"b" + Q + "\")", "f(x ? '" + Q + "' : '" + Q + "'" + Q + ")", "f(\"" + Q * 2 + "'\"" + Q * 2 + ")",
              "f(" + Q + "'\"'" + Q * 2 + ")", "f(((" + Q * 3 + ")))", "f(\"\\\\\"" + Q * 3 + ")", "f(u8" + Q * 4 + ")"): arg(s, 2)
    for s, c in (("f(\"" + Q * 2 + "\"" + Q + "\"" + Q + "\")", [6]), ("f(g(" + Q * 2 + "," + Q * 2 + "))", [6]), ("f('" + Q + "'" + Q * 2 + ")", [5])): arg(s, 2, c)
    st = lambda s, start, cuts=(), parts=1, reach=(): J.append(PyJob("c06_statement", [s, list(cuts), start], "%s, line breaks at %s (?: any character)" % (s.replace(Q, "?"), list(cuts)), parts, reach, t))
    st("NANO_LOG(" + Q * 4 + ");", 0, parts=4, reach=["statement", "no semicolon"])
    for s, i in (("NANO_LOG" + Q + "(N," + Q * 3 + ")" + Q + ";", 0), ("a; NANO_LOG(N, \"%c%s\", " + Q * 3 + ", b);", 3), ("NANO_LOG(N, \"" + Q * 3 + "\", 1);", 0), ("NANO_LOG(N, \"\"," + Q * 2 + "," + Q * 2 + ");", 0), ("NANO_LOG(N, f(" + Q * 2 + "), " + Q + ")" + Q + Q, 0)): st(s, i)
    for s, c in (("NANO_LOG(N,\"" + Q * 2 + "\"," + Q * 2 + ");", [11]), ("NANO_LOG(N, \"a\"" + Q * 2 + ")" + Q + ";", [16, 18]), ("NANO_LOG(N, " + Q * 2 + ");", [8, 9])): st(s, 0, c)
    cs = lambda s, reach=(), parts=1: J.append(PyJob("c06_cstring", s, "%s (?: any character or newline)" % s.replace(Q, "?"), parts, reach, t))
    cs(Q * (7 if q else 8), ["literal", "none"], 2 if q else 8)
    for k in range(0, 7): cs(Q * k)
    for s in ("\"" + Q * 5 + "\"", "\"" + Q * 2 + "\" \"" + Q * 2 + "\"", "\"" + Q * 2 + "\"\n  \"" + Q * 3 + "\"", "L\"" + Q * 2 + "\"", "\"\\\\" + Q * 4, Q + "\"a\"" + Q + "\"b\"" + Q): cs(s)
    return decide_py(ctx, J, dict(level="model_checking",
        bounds="every argument text of up to %d characters (printable ASCII and tab) on one line, of 4 characters with line breaks at the places listed, and the templates listed with any characters in their open places; every literal text of up to %d characters" % (n, 7 if q else 8),
        outside="longer texts; raw string literals; identifiers with $; user-defined number suffixes; characters outside ASCII; text that is not a token sequence of C++; adjacent literals whose escapes run together (\"\\x1\" \"1\")",
        assumptions=["the Python interpreter itself executes the functions; string literals, `in`, re, int and float are redirected to their symbolic counterparts (pysym/)", "the input has been through the C++ preprocessor"]), 400 if q else 880)
