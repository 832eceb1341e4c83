from pyjobs import *
Q = "\0"


def check(ctx):
    q = ctx.tier == "quick"
    t = 300 if q else 860
    jobs = [PyJob("c05_split", Q * (5 if q else 6), "every format of up to %d characters (1..127)" % (5 if q else 6), 4 if q else 8, ["conversion", "no conversion", "rejected"], t),
            PyJob("c05_split", "%" + Q * 5, "% and any 5 characters", 8, ["conversion", "no conversion", "rejected"], t),
            PyJob("c05_kind", None, "the argument kinds", reach=["kind"])]
    for n in (0, 1, 2, 3, 4): jobs.append(PyJob("c05_split", Q * n, "every format of %d characters" % n))
    for s in ("%" + Q * 2 + "%" + Q * 2, "%%" + Q * 4, "%d" + Q * 4, "\\\\" + Q * 4, Q + "\\" + Q + "%" + Q * 2, "%" + Q * 2 + "%%" + Q * 2, "%*.*" + Q * 3, "%-" + Q * 4, "%s" + Q + "\\" + Q * 2,
              "%1" + Q + "." + Q * 3, "%." + Q * 4, "%%%" + Q * 3, "%d%%" + Q * 3, "%" + Q * 3 + "d", "%5" + Q * 3 + "s", "%ll" + Q * 3, "%hh" + Q * 3, "%l" + Q * 2 + "%l" + Q * 2,
              "a" + Q + "%" + Q + "b%" + Q * 2 + "c", "%d " + Q + "%%" + Q * 2, "%12" + Q * 2 + "3d", "%s%d%" + Q * 2 + "%f" + Q):
        jobs.append(PyJob("c05_split", s, "%s (?: any character)" % s.replace(Q, "?"), 1, (), t))
    if not q:
        jobs += [PyJob("c05_split", "%" + Q * 6, "% and any 6 characters", 8, ["conversion"], t), PyJob("c05_split", "%" + Q * 3 + "%" + Q * 3, "two conversions of 3 characters", 8, ["conversion"], t)]
    return decide_py(ctx, jobs, dict(level="model_checking",
        bounds="every format of up to %d characters, %% and any %d characters, and the templates listed with any characters in their open places; characters 1..127" % (5 if q else 6, 5 if q else 6),
        outside="longer formats; characters above 127; a percent sign or conversion spelled with a numeric escape; length modifiers that printf leaves undefined for a conversion (such as %hf): whatever the preprocessor makes of them",
        assumptions=["the Python interpreter itself executes the function; string literals, `in`, re, int and float are redirected to their symbolic counterparts (pysym/)"]), 400 if q else 880)
