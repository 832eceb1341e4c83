from pyjobs import *
Q = "\0"
HEAD = ['# 1 "a.cc"\n', 'int x;\n', "static const int __internal_dummy_variable_marker_for_code_injection = 0;\n", '# 7 "a.cc"\n']
S = 'NANO_LOG(N, "x%d", 1);'


def F(*l, head=HEAD): return head + [x + "\n" for x in l]


def check(ctx):
    q = ctx.tier == "quick"
    t = 300 if q else 860
    J = []
    def add(p, reach=(), parts=1): J.append(PyJob("c18_file", p, "".join(p[len(HEAD):] if p[:len(HEAD)] == HEAD else p).replace(Q, "?").replace("\n", " | "), parts, reach, t))
    add(F(Q * (3 if q else 4) + S + " f(2);", "g();"), ["statement", "no statement"], 2 if q else 8)
    add(F(S + Q * (3 if q else 4), S), ["statement"], 4 if q else 8)
    add(F("NANO_LOG(N," + Q * 3 + ");", S), ["statement", "rejected"], 2)
    add(F("NANO_LOG" + Q * 3 + "N,\"a\");"), ["statement"])
    add(F("NANO_LOG(N, \"" + Q * 3 + "\", 1); g();"), ["statement"])
    add(F("NANO_LOG(" + Q * 2 + ", \"a" + Q + "\"); g();", "h();"), ["statement"])
    for p in (F("a" + Q * 2 + S + Q, S), F("f(\"" + Q * 2 + "NANO_LOG(" + Q * 2 + ";", S), F("f();", "NANO_LOG(N,", "\"x%d\"," + Q * 2, "); f(2);" + Q, S), F("f('" + Q * 2 + "'); " + S, "g();"), F("NANO_LOG(N, \"x\"", Q * 2 + "\"y\"" + Q, "); g();", "h();"),
              F("NANO_LOG(N, \"a\");" + Q + S + Q, Q + S), F(S) + ["NN" + Q * 2], F(S) + ["NANO_LOG" + Q], F("int NANO_LOG" + Q * 2 + ";", S), F(Q + "NANO_LOG" + Q, "(N, \"a\");", S), F("f('\"'); " + Q * 2 + S + " g('\"'" + Q + ");"),
              F("x = 1'000; " + Q * 2 + S), F("x = 1'0; f(\"NANO_LOG(" + Q * 2 + ");"), F("if (a) " + S + " else " + S + Q, Q), F("{" + Q + S + "}", "# 20 \"b.h\" 1", Q + S, "# 9 \"a.cc\" 2", "f();", S), F("#pragma x", Q + S + " f();", "g();"),
              F("f(N" + Q * 2 + ", NAN" + Q + "); " + S), F("NANO_LOG(N, \"a\", NANO" + Q * 2 + ");", S), F("NANO_LOG(N, \"a\",", "  NANO" + Q * 2 + "),", "b); f();"), F("f(\"\\\"" + Q + "\"); " + S + Q), F("f('\\''" + Q + "); " + S + Q),
              ['# 1 "a.cc"\n', Q + S + "\n", "g();\n"], ['# 1 "a.cc"\n', '# 1 "NanoLog.h" 1\n', "int y;\n", HEAD[2], "\n", '# 2 "a.cc" 2\n', Q * 2 + S + "\n", Q + "f();\n"]):
        add(p)
    return decide_py(ctx, J, dict(level="model_checking",
        bounds="the source files listed, of up to 8 lines, with any characters (printable ASCII and tab) in their open places",
        outside="other shapes of file; a NanoLog statement within the arguments of another one; a qualified name such as a.NANO_LOG; raw strings, identifiers with $, characters outside ASCII; files that are not token sequences of C++; everything FunctionGenerator makes of a statement (C05, C07)",
        assumptions=["the Python interpreter itself executes processFile; string literals, `in`, re, int, float, open and print are redirected (pysym/)", "FunctionGenerator is a stand-in that records how it is called", "the input has been through the C++ preprocessor"]), 400 if q else 880)
