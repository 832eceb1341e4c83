from logunit import *


def check(ctx):
    q = ctx.tier == "quick"
    u = log_unit("args", harness=("h_args.cc",))
    jobs = []
    for uses in ([(1, -1, -1), (9, -1, -1), (10, -1, -1), (11, -1, -1), (12, 3, 11), (20, 21, -1), (21, 10, 41), (41, 5, -1)] + ([] if q else [(50, 25, 42), (11, 22, 44), (40, 41, 60)])):
        for free in (0, 1):
            if free and max(uses) > 21 and q:
                continue
            jobs.append(Job(u, "c16_store", list(uses) + [free, 2 if uses[1] >= 0 and not free else 0], reach=["stored"], time=60 if q else 300, opts=STUB,
                            bound="a message object used for %s arguments%s" % ([x for x in uses if x >= 0], ", any type at any one position" if free else "")))
    for seq in ([(0,), (1,), (2,), (3,), (4,), (2, 1), (3, 2), (1, 3), (3, 0, 4)] + ([] if q else [(4, 3, 2), (3, 3, 3), (2, 4, 1)])):
        for out in (0, 1):
            jobs.append(Job(u, "c16_decoded", [len(seq)] + list(seq) + [0] * (4 - len(seq)) + [out], reach=["decoded"], time=60 if q else 300, opts=STUB,
                            bound="decoded messages %s (0..21 arguments), %s output" % (seq, "with" if out else "without")))
    return decide(ctx, [u], jobs, dict(
        level="model_checking",
        bounds="all values of all scalar types; up to %d arguments per message; message objects used up to 3 times; decoded messages of 0, 3, 11 and 21 arguments with strings of 0-2 characters, integers in 0..255 and below -2^44" % (41 if q else 60),
        outside="long double arguments, which the message object documents as unsupported; aggregation callbacks (C07)", assumptions=[]), budget=250 if q else 850)
