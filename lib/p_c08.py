from logunit import *


def check(ctx):
    q = ctx.tier == "quick"
    u = log_unit("spsc", harness=("h_spsc.cc",), config={}, threads=True)
    jobs = []

    def code(s):
        return sum({"p": 1, "c": 2, "s": 3}[c] * 4 ** i for i, c in enumerate(s))

    def text(s):
        return ", ".join({"p": "publish", "c": "consume all", "s": "consume some"}[c] for c in s) or "none"
    P = 2 if q else 3
    pres = ["", "pc", "pcp", "pp", "pcpp", "pps", "pcpps", "pcppcp"] + ([] if q else ["pcppcpp", "pspsp", "ppp"])
    for pre in pres:
        for m, r, how in [(2, 1, 0), (1, 2, 1), (2, 2, 2)] + ([] if q else [(3, 1, 0), (2, 2, 1), (2, 3, 2)]):
            if q and how == 1 and pre in ("pcppcp", "pcpps", "pps"):
                continue
            jobs.append(Job(u, "c08_spsc", [code(pre), m, r, how], reach=["drained"], time=100 if q else 500, opts=["--spin", "40", "--lia"], preempt=P,
                            bound="real capacity, all message sizes below half of it; before: %s; then %d message(s) logged while the background thread makes %d round(s) consuming %s and then drains; at most %d preemptions" % (text(pre), m, r, ["all", "any number of bytes", "message by message"][how], P)))
    seqs = ["ppcpcp", "ppsppsp", "pcppsppcp"] + ([] if q else ["pspspspsp", "pppsssppp", "pspspspspsp", "ppsppsppsp"])
    for s in seqs:
        jobs.append(Job(u, "c08_seq", [code(s)], reach=["sequence"], time=100 if q else 500, opts=["--lia"], bound="real capacity, all sizes below half of it, calls: " + text(s)))
    jobs.sort(key=lambda j: -j.params[0] if len(j.params) > 1 else 0)
    return decide(ctx, [u], jobs, dict(
        level="model_checking",
        bounds="real capacity; every message size below half of it; every history of up to %d calls (listed per harness) followed by up to %d messages logged concurrently with the background thread; every interleaving at access granularity with at most %d preemptions (waiting threads yield for free)" % (max(map(len, pres + seqs)), 2 if q else 3, P),
        outside="messages of half the capacity or more; longer histories; more preemptions; store buffering of the processor (accesses are sequentially consistent as compiled)",
        assumptions=["one logging thread and one background thread per buffer", "the contents written between reserve and finish belong to C01 and C02", "fairness: a thread that makes 40 conflicting accesses in a row lets another one run"]), budget=300 if q else 850)
