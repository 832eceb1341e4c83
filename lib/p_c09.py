from logunit import *
from itertools import product


def check(ctx):
    q = ctx.tier == "quick"
    u = log_unit()
    x = log_unit("logx", config={"STAGING_BUFFER_SIZE": 1024, "OUTPUT_BUFFER_SIZE": 8192})
    jobs = []
    seqs = [(s,) for s in range(5)] + [(0, 1), (2, 0), (3, 2), (1, 3)] + ([(0, 2, 1)] if q else [p for p in product((0, 1, 2, 3), repeat=2)] + [(0, 2, 1), (1, 1, 0), (2, 2, 2), (3, 0, 2)])
    for s in dict.fromkeys(seqs):
        hi = 240 if 4 in s else 90 + 60 * len(s)
        step = hi // 2 + 1
        for lo in range(0, hi, step):
            jobs.append(Job(u, "c09_encode", (len(s), min(hi, lo + step - 1), lo) + s, reach=["encoded"], time=60 if q else 200, opts=STUB,
                            bound="messages %s, output space %d..%d bytes, all argument values, strings of 0-%d characters" % (s, lo, min(hi, lo + step - 1), 2 if len(s) == 1 else 1), samples=2))
    for a in (0, 1):
        for b in (0, 1):
            jobs.append(Job(x, "c09_expand", (a, b), reach=["expanded"], time=60, opts=STUB, bound="a full staging buffer of messages with 24 incompressible arguments"))
    return decide(ctx, [u, x], jobs, dict(
        level="model_checking", bounds="1 to 3 messages of four call sites (integer, string, none, both) with every argument value and strings of 0-2 characters, thread numbers 0..2^32-1, every output capacity from 0 to 150 (one message), 210 (two), 270 (three) bytes, with and without a partially visible last message; plus completely full (scaled) staging buffers of incompressible messages",
        outside="more messages per step; other call sites; messages above half the staging buffer",
        assumptions=["staging and output buffer sizes scaled down"]), budget=500 if q else 850)
