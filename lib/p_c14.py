from logunit import *

OPS = {"1": "main logs", "2": "main syncs", "3": "a thread logs one message and ends", "4": "a thread allocates its buffer and ends", "5": "a thread logs two messages",
       "6": "a thread logs and syncs", "7": "wait for the threads", "8": "switch the log file", "9": "switch points on", "a": "main logs with a long format", "b": "a thread logs one message through main's first call site and ends",
       "c": "a thread allocates its buffer, logs one message and ends"}


def mt_unit(name, harness, config):
    return Unit(name, [harness, "mt_model.cc"], SRC, flags=["-DTESTING=1", "-include", os.path.join(HARN, "mt_pre.h")], stdio=True, fake_regex=True,
                models=("model_libc.cc", "model_rt.cc"), threads=True, plain=("mt_model.cc",), config=config)


def code(s):
    return sum(int(c, 16) << (4 * i) for i, c in enumerate(s))


# script, preemptions (quick, thorough), spurious wake-ups, delayed write polls, 1 run to exit / 2 and read the log back
CASES = [
    ("912", 2, 3, 1, 1, 1), ("912", 1, 2, 0, 1, 2), ("91212", 1, 2, 1, 1, 1), ("91212", 1, 1, 0, 1, 2),
    ("937244712", 2, 2, 0, 0, 0), ("937244712", 1, 1, 1, 1, 1), ("937234712", 1, 2, 0, 0, 0), ("9372433712", 1, 1, 0, 0, 1), ("93712434712", 1, 2, 0, 0, 0),
    ("933712", 1, 2, 0, 0, 2), ("36912", 1, 2, 0, 0, 0), ("91812", 1, 2, 0, 1, 2), ("3918312", 1, 1, 0, 0, 2), ("935", 1, 2, 0, 0, 2), ("93312", 1, 2, 0, 0, 0),
    ("9667", 1, 2, 0, 0, 0), ("961267", 1, 1, 1, 0, 0),
    ("11111111912", 1, 2, 0, 1, 2), ("1111119312", 1, 1, 0, 1, 2), ("3571111912", 1, 1, 0, 1, 1), ("1112911121112", 1, 1, 0, 1, 2), ("5555791112", 1, 1, 0, 0, 0),
    ("9c7", 2, 3, 0, 0, 2), ("9c12", 1, 2, 0, 0, 0), ("9bb712", 1, 2, 0, 0, 2), ("911a12", 1, 1, 0, 2, 2), ("1111119111112", 1, 1, 0, 2, 2),
]


def check(ctx):
    q = ctx.tier == "quick"
    u = mt_unit("sync", "h_sync.cc", {"STAGING_BUFFER_SIZE": 256, "OUTPUT_BUFFER_SIZE": 512})
    ud = mt_unit("direct", "h_sync.cc", {"STAGING_BUFFER_SIZE": 256, "OUTPUT_BUFFER_SIZE": 512, "FILE_PARAMS": "O_APPEND|O_RDWR|O_CREAT|O_DIRECT"})
    jobs = []
    for sc, ex in (("912", 2), ("1291312", 2), ("91812", 2), ("1111111912", 2)):
        jobs.append(Job(ud, "c14_sync", [code(sc), 0, 1, ex], reach=["synced", "exit", "read back"], time=100 if q else 400, preempt=1, opts=STUB + ["--spin", "150"],
                        bound="the log opened with O_DIRECT: %s; exit flush, then the log is decoded; at most 1 preemption" % "; ".join(OPS[c] for c in sc)))
    for sc, pq, pt, sp, dl, ex in CASES:
        p = pq if q else pt
        reach = (["synced"] if "2" in sc else []) + (["exit"] if ex else []) + (["read back"] if ex == 2 else [])
        jobs.append(Job(u, "c14_sync", [code(sc), sp, dl, ex], reach=reach, time=150 if q else 700, preempt=p, opts=STUB + ["--spin", "150"],
                        bound="%s%s; at most %d preemptions, %d spurious wake-up(s), %d delayed poll(s) of a write" % ("; ".join(OPS[c] for c in sc), ["", "; exit flush", "; exit flush, then the log is decoded"][ex], p, sp, dl)))
    return decide(ctx, [u, ud], jobs, dict(
        level="model_checking",
        bounds="the real background thread, sync(), setLogFile() and destructor with up to 4 logging threads and 10 messages, the histories listed per harness; every interleaving at lock and shared-access granularity with at most %s preemptions (threads that wait yield for free); every outcome of polling a write up to the delays listed" % ("1-2" if q else "1-3"),
        outside="more threads, preemptions or messages; failing or partial writes; a thread that calls sync() while another one changes the log file (documented as unsupported); store buffering of the processor",
        assumptions=["STAGING_BUFFER_SIZE scaled to 256 and OUTPUT_BUFFER_SIZE to 512 bytes so that buffers fill up within the bound", "std::thread, mutexes, condition variables and aio are stand-ins with POSIX semantics (harness/mt_model.cc); a completed write is on file",
                     "time stands still (rdtsc mocked); time-outs may fire at any point", "fairness: a thread that passes 150 switch points in a row lets another one run"]), budget=400 if q else 880)
