from logunit import *
RATES = [1 << 30, 1 << 31, 2400000000, 3000000001]


def check(ctx):
    q = ctx.tier == "quick"
    u = log_unit("time", harness=("h_time.cc",))
    jobs = []
    CK = 1 << 60
    for cps in RATES if not q else [1 << 31, 2400000000]:
        w = 8 if q else 64
        for base in [0, cps, 7 * cps, -cps, -3 * cps, 1 << 50, -(1 << 50), 123456789012345] + ([] if q else [cps // 2, -cps // 3, 100000 * cps, 1 << 53, -(1 << 53)]):
            for k in (1, 2):
                if q and (base not in ((0, -cps, 7 * cps, 1 << 50) if cps == 1 << 31 else (0, cps, -cps, -3 * cps, -(1 << 50)) if k == 1 else (-cps, 7 * cps))):
                    continue
                ww = 4 if q and k == 2 and cps == 2400000000 else w
                jobs.append(Job(u, "c17_time", [cps, base, ww, k, CK, 0 if base == 0 else 5000000000], reach=["time"], time=150 if q else 600, opts=["--qtimeout", "60", "--wide"], bound="tick rate %d, %d message(s) within %d ticks of %d after the calibration point: %s" % (cps, k, ww, base, "value" if k == 1 else "order")))
        jobs.append(Job(u, "c17_time", [cps, 0, 1 << 40, 1, CK, 0], reach=["time"], time=200 if q else 800, opts=["--qtimeout", "60", "--wide"], bound="tick rate %d, one message up to 2^40 ticks before or after the calibration point: nanoseconds field" % cps))
    jobs.sort(key=lambda j: -j.params[2] - j.params[3] * 1000 - (j.params[0] == 2400000000) * 500)
    return decide(ctx, [u], jobs, dict(
        level="model_checking",
        bounds="nanoseconds field: every timestamp within 2^40 ticks of the calibration point; value (to 2 ns): every timestamp, and order: every pair of timestamps, within %d ticks of second boundaries at, before and after the calibration point and of points up to 2^%d ticks away (the harness list has each); tick rates %s" % (8 if q else 64, 50 if q else 53, "2^31, 2.4e9" if q else "2^30, 2^31, 2.4e9, 3000000001"),
        outside="value and order at other points; other tick rates; the calendar conversion itself (libc)", assumptions=["localtime and strftime are those of libc (their argument is observed)", "IEEE double arithmetic, as compiled"]), budget=300 if q else 850)
