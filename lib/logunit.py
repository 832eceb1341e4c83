from core import *
STUB = ["--stub", "_ZN9PerfUtils6Cycles9toSecondsEld=0"]
SRC = ["Log.cc", "Cycles.cc", "RuntimeLogger.cc", "NanoLog.cc", "Util.cc"]


def log_unit(name="log", harness=("h_log.cc",), **kw):
    kw.setdefault("config", {"STAGING_BUFFER_SIZE": 4096, "OUTPUT_BUFFER_SIZE": 8192})
    return Unit(name, list(harness) + ["nothread.cc"], SRC, flags=["-DTESTING=1"] + kw.pop("flags", []), stdio=True, fake_regex=True,
                models=("model_libc.cc", "model_rt.cc"), **kw)
