from logunit import *


def check(ctx):
    q = ctx.tier == "quick"
    u = log_unit("level", harness=("h_level.cc",))
    jobs = []
    for k, alt in [(1, 0), (2, 0), (3, 0), (4, 1)] + ([] if q else [(4, 0), (6, 1)]):
        jobs.append(Job(u, "c15_level", [k, alt], reach=["filtered", "recorded"], time=60 if q else 400, opts=STUB,
                        bound="%d steps, %s; every int as level" % (k, "level changes and messages alternating" if alt else "each a level change or a message")))
    return decide(ctx, [u], jobs, dict(
        level="model_checking",
        bounds="up to %d steps, each a level change to any int value or a message of any of the five severities" % (4 if q else 6),
        outside="longer histories; a level changed by another thread in the middle of a logging call; code generated by the preprocessor (C07)", assumptions=["a log level out of the enumeration's range is passed as the int converted to the enumeration type"]), budget=200 if q else 850)
