from logunit import *


def check(ctx):
    q = ctx.tier == "quick"
    u = log_unit("dict", harness=("h_dict.cc",))
    jobs = []
    #        n1 n2  lo   hi  tail mode long twice
    conf = [(1, 0, 600, 600, 2, 0, 0, 1), (2, 0, 0, 90, 1, 1, 0, 0), (3, 0, 8, 110, 0, 2, 0, 0), (1, 1, 0, 60, 1, 0, 0, 1), (1, 2, 0, 80, 0, 1, 0, 0), (2, 1, 40, 620, 0, 2, 0, 0),
            (1, 1, 600, 600, 1, 1, 10200, 0), (1, 1, 600, 600, 1, 2, 10238, 0), (2, 1, 600, 600, 0, 1, 10300, 0),
            (1, 1, 600, 600, 0, 1, 32767, 0), (1, 1, 600, 600, 0, 2, 40000, 0), (1, 1, 600, 600, 0, 0, 33500, 0),
            (1, 1, 600, 600, 0, 1, 0, 0, 10260), (1, 1, 600, 600, 0, 2, 10260, 0, 20600), (1, 1, 600, 600, 0, 0, 0, 0, 33000)]
    if not q:
        conf += [(2, 0, 0, 90, 2, 1, 0, 1), (3, 0, 0, 130, 1, 0, 0, 0), (2, 2, 0, 90, 1, 2, 0, 0), (3, 3, 0, 110, 0, 1, 0, 0), (1, 2, 500, 640, 1, 0, 0, 0)]
    for c in conf:
        p = list(c[:7]) + [c[8] if len(c) > 8 else 0, 0, c[7]]
        jobs.append(Job(u, "c10_dict", p, reach=["dict"] + (["spilled"] if c[2] < 40 and c[0] > 1 else []), time=60 if q else 300, opts=STUB,
                        bound="%d then %d call sites, capacities %d..%d, up to %d symbolic characters of file name and format each%s" % (c[0], c[1], c[2], c[3], c[4], ", a format of %d characters" % c[6] if c[6] else "") + (", a file name of %d" % c[8] if len(c) > 8 else "")))
    return decide(ctx, [u], jobs, dict(
        level="model_checking",
        bounds="up to %d call sites registered in two batches, every line number and severity, file names and formats with up to 2 symbolic characters (and formats and file names of 10 to 40 KB), every output capacity in the ranges given, the rest following in a large buffer; decoded in sorted, unsorted and iterative mode" % max(c[0] + c[1] for c in conf),
        outside="more sites; formats with other conversions (C03, C04)", assumptions=["stdio modelled as whole-buffer streams"]), budget=300 if q else 850)
