from logunit import *
from itertools import product


def check(ctx):
    q = ctx.tier == "quick"
    u = log_unit()
    jobs = []
    shapes = [[(0, 9, 1, 0)], [(3, 9, 1, 0), (20, 9, 9, 9)], [(0, 9, 1, 0), (1, 9, 9, 9), (0, 9, 9, 9)]]
    if not q:
        shapes += [[(0, 9, 1, 0), (300, 9, 9, 9), (0, 9, 9, 9), (1, 9, 9, 9)]]
    for sh in shapes:
        for mode in (0, 1, 2):
            mm = 4 if len(sh) < 3 else 3 if q else 4
            for first in (0, 1, 2) if len(sh) > 1 else (9,):
                g = [x for e in sh for x in e]
                g[1] = first
                jobs.append(Job(u, "c12_file", [mode, len(sh), mm] + g, reach=["read"], time=60 if q else 200, opts=STUB,
                                bound="mode %d, extents of threads %s, %s messages first, 0-2 in the others, any passes, at most %d in all, up to 2 executions" % (mode, [e[0] for e in sh], first, mm)))
    for mode in (4, 5, 6, 7):
        for sh in ([(3, 1, 1, 0), (20, 1, 1, 9)],) if q else ([(3, 1, 1, 0), (20, 1, 1, 9)], [(3, 1, 1, 0), (20, 0, 0, 0), (3, 1, 1, 9)]):
            jobs.append(Job(u, "c12_file", [mode, len(sh), 4] + [x for e in sh for x in e], reach=["read"], time=60 if q else 200, opts=STUB,
                            bound="%s decoding; output padded with 0, 1 or 5 bytes after every extent, up to 2 executions" % ("unsorted", "iterative", "silent iterative", "sorted")[mode - 4]))
    for mode in (0, 1, 2):
        for a, b in product((1, 2), (0, 1, 2)):
            jobs.append(Job(u, "c12_reopen", [mode, 1, a, 1, 0, 2, b, 1, 0], reach=["reopened"], time=60, opts=STUB,
                            bound="a log of %d message(s) read to any point, then another of %d opened" % (a, b)))
        # several executions in the first log: 2 or 3 checkpoints read before the second is opened
        for nx in (2, 3):
            jobs.append(Job(u, "c12_reopen", [mode, 0, 0, 0, 0, 2, 1, 1, 0, nx] + [3, 1, 1, 0] + [3, 1, 1, 1] * (nx - 1), reach=["reopened"], time=60, opts=STUB,
                            bound="a log of %d executions read to any point, then another of one message opened" % nx))
    return decide(ctx, [u], jobs, dict(
        level="model_checking",
        bounds="files of up to %d extents with 0-2 messages each (3-4 in all) from four call sites, all argument values (files of 2 extents: 0..255 and large negative ones; more extents: 0..255), strings of 0-1 characters, all timestamps in 1..127, up to two executions; re-opening after reading any prefix" % max(map(len, shapes)),
        outside="longer files; other call sites (C03 and C16 vary those)", assumptions=["files written by the real Encoder; stdio modelled as whole-buffer streams"]),
        budget=400 if q else 850)
