from logunit import *


def check(ctx):
    u = log_unit()
    ks = (1, 2) if ctx.tier == "quick" else (1, 2, 3)
    jobs = [Job(u, "c02_header", (k,), reach=["header"], time=150 if k < 3 else 600, bound="%d consecutive headers: all ids, all timestamps, all previous timestamps" % k) for k in ks]
    return decide(ctx, [u], jobs, dict(
        level="model_checking", bounds="up to %d consecutive headers; all 2^32 ids, all 2^64 timestamps and previous timestamps" % max(ks),
        outside="longer runs of headers (each header only depends on the previous timestamp)",
        assumptions=["x86-64 little endian"]), budget=200 if ctx.tier == "quick" else 800)
