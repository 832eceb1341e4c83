from logunit import *


def check(ctx):
    q = ctx.tier == "quick"
    u = log_unit("fmt", harness=("h_fmt.cc",))
    jobs = []
    conf = [(0, 3, 0, 0), (1, 0, 0, 0, 1), (1, 1, 0, 1, 0), (1, 2, 0, 0, 0), (1, 0, 0, 2, 0), (2, 0, 0, 0, 0, 0), (2, 0, 1, 0, 0, 0)]
    if not q:
        conf += [(0, 4, 0, 0), (1, 1, 0, 0, 1), (1, 0, 0, 1, 1), (1, 2, 0, 2, 0), (2, 0, 0, 0, 1, 0), (2, 0, 0, 0, 0, 1), (2, 1, 1, 1, 0, 0), (3, 0, 0, 0, 0, 0, 0)]
    for c in conf:
        c = list(c) + [0] * (10 - len(c))
        for k in ((0,) if c[0] < 2 else (3, 13, 17, 18, 20, 21) if not q or not c[2] else (13, 20)):
          c = c[:10] + [k]
          jobs.append(Job(u, "c04_format", c, reach=["format"], time=150 if q else 500, opts=STUB, bound="%d conversion(s), literal characters before/between/after up to %s, detail %s" % (c[0], c[1:4], c[4:])))
    return decide(ctx, [u], jobs, dict(
        level="model_checking",
        bounds="formats built from the printf grammar: up to %d conversions, each with 0, 1 or 3 flags, width none/1 or 3 digits/*, precision none/empty/1 or 3 digits/*, every length and specifier; up to 3 literal bytes of any value (including %%%%) around them" % max(c[0] for c in conf),
        outside="longer literals, widths of more digits, GNU extensions (%Ld, %m, %', $), %n (rejected at compile time)",
        assumptions=["std::regex is replaced by a backtracking matcher in symbolic runs; native replays use the real one"]), budget=400 if q else 850)
