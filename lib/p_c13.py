from logunit import *


def check(ctx):
    q = ctx.tier == "quick"
    u = log_unit()
    jobs = []
    shapes = [[(0, 1, 1, 0)], [(0, 2, 1, 0), (20, 2, 0, 0)], [(0, 1, 1, 0), (1, 1, 1, 1)], [(0, 1, 1, 0), (0, 0, 1, 0), (1, 2, 1, 0)], [(0, 1, 1, 0), (1, 1, 1, 0), (0, 1, 1, 0), (1, 1, 1, 0)]]
    if not q:
        shapes += [[(0, 2, 1, 0), (1, 2, 0, 0), (0, 2, 1, 0), (1, 2, 0, 1)], [(0, 1, 1, 0), (0, 1, 1, 0), (0, 1, 1, 0), (0, 1, 1, 0), (0, 1, 1, 0)]]
    for sh in shapes:
        for mode in (0, 1, 2):
            jobs.append(Job(u, "c13_cut", [mode, len(sh)] + [x for e in sh for x in e], reach=["cut", "unopenable"], time=100 if q else 250, opts=STUB,
                            bound="mode %d, extents (thread, messages, new pass, new execution) %s, cut at every byte" % (mode, sh)))
    return decide(ctx, [u], jobs, dict(
        level="model_checking",
        bounds="%d files of up to %d extents, up to two executions, cut after every byte, all argument values in -128..127 and strings of 0-1 characters" % (len(shapes), max(map(len, shapes))),
        outside="longer files; damage other than truncation", assumptions=["stdio modelled as whole-buffer streams (differentially replayed)"]),
        budget=400 if q else 850)
