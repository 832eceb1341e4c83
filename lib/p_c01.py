from core import *
import itertools, random


def check(ctx):
    u = Unit("packer", ["h_packer.cc"])
    jobs = [Job(u, "c01_" + t, reach=["single"], bound="all values of the type") for t in
            "u8 u16 u32 u64 ull i32 i64 ll ptr vptr f32 f64 f80".split()]
    seqs = [(0, 1, 2), (3, 4, 5), (6, 7, 1), (4, 0), (1,), (2, 6, 3)]
    if ctx.tier == "thorough":
        seqs += [(0, 1, 2, 3), (4, 5, 6, 7), (2, 2, 1, 1), (4, 4, 0), (1, 3, 4, 7), (5, 2, 0, 1, 6)]
    for s in seqs:
        jobs.append(Job(u, "c01_seq", (len(s),) + s, reach=["seq"], time=240 if ctx.tier == "thorough" else 90,
                        bound="every value of a %d-argument sequence, kinds %s" % (len(s), s)))
    return decide(ctx, [u], jobs, dict(
        level="model_checking",
        bounds="one value: every value of the 13 argument types; sequences: up to %d values with shared nibbles" % max(map(len, seqs)),
        outside="longer sequences; types without a pack overload (rejected by the compiler or by CONSTANTS of the interface)",
        assumptions=["x86-64 little endian, 80-bit long double with its 10 significant bytes", "clang 18 -O1 IR of the packer headers; native replay with g++"]),
        budget=200 if ctx.tier == "quick" else 800)
