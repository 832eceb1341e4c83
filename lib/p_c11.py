from logunit import *
from itertools import product


def threads(nx, n):
    """Buffer numbers of the extents (all of 0..k-1 occur; the order of buffers matters)."""
    return [th for th in product(range(n), repeat=nx) if set(th) == set(range(max(th) + 1))]


def check(ctx):
    q = ctx.tier == "quick"
    u = log_unit()
    jobs = []

    def add(th, mm, first, t, one=False):
        g = []
        for i, x in enumerate(th):
            g += [x, first if i == 0 else 9, 1 if i == 0 else 9, 0 if i == 0 or one else 9]
        jobs.append(Job(u, "c11_sorted", [len(th), mm] + g, reach=["sorted"], time=t, opts=STUB, samples=1,
                        bound="extents of buffers %s, %d message(s) in the first, 0-2 in the others, at most %d in all, any pattern of passes%s, all timestamps" % (th, first, mm % 16, ("; the output buffer is full at the start of at most %d pass(es)" % (mm // 16) if mm >= 16 else "") if one else " and up to 2 executions")))
    conf = [(1, 1, 4), (2, 2, 4), (3, 3, 3)] if q else [(1, 1, 4), (2, 2, 4), (3, 3, 5), (4, 3, 4), (5, 2, 3), (6, 2, 3)]
    for nx, nt, mm in conf:
        for th in threads(nx, nt):
            for first in range(3):
                add(th, mm, first, 60 if q else 400)
    if q:
        for th in threads(4, 2):
            add(th, 3, 1, 60)
        for th in ((0, 2, 1, 0, 1), (0, 1, 0, 1, 0)):
            add(th, 3, 0, 60, True); add(th, 3, 1, 60, True)
    else:
        for th in threads(5, 3):
            for first in (0, 1):
                add(th, 3, first, 300, True)
    for th in [(0, 1, 0, 1), (0, 1, 0, 1, 0), (0, 0, 1, 0, 1), (0, 1, 0, 1, 0, 1)][:2 if q else 4]:
        for first in (0, 1):
            add(th, 16 + 3, first, 60 if q else 300, True)
    add((0, 1, 0, 1, 0), 32 + 3, 0, 60, True)       # a known finding
    jobs.sort(key=lambda j: -j.params[0])
    return decide(ctx, [u], jobs, dict(
        level="model_checking",
        bounds="; ".join("%d extents of %d threads with up to %d messages" % c for c in conf) + ("; 4 extents of 2 threads with 3 messages; 5 extents of buffers 0,2,1,0,1 and 0,1,0,1,0 with 3 messages in one execution" if q else "; 5 extents of 3 threads with 3 messages in one execution") + "; 0-2 messages per extent, every pattern of output passes, up to 2 executions, every timestamp satisfying the ordering assumption",
        outside="longer histories, more threads; timestamps above 127 in files of more than 3 extents (only their order matters to the merge); pass markers other than at the wrap of the buffer index (an output buffer filled exactly at the wrap)",
        assumptions=["each thread's timestamps increase", "a message that was logged before extent E was written is written by the second visit of its buffer after E (one peek up to the end of the ring, one from its start)"]),
        budget=400 if q else 850)
