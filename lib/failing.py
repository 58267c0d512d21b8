"""Allocation failures: the preload library native/failmalloc.c, and how a child imports it."""
import gc
import importlib.machinery
import importlib.util
import os


def shard_env():
    """For shards(): the environment that loads it."""
    from lib import build
    path = build.build_native("failmalloc", ["failmalloc.c"], ["-O1", "-fvisibility=hidden"])
    return {"LD_PRELOAD": path, "PYTHONMALLOC": "malloc", "VERIF_FAILMALLOC": path}


def module():
    path = os.environ["VERIF_FAILMALLOC"]
    loader = importlib.machinery.ExtensionFileLoader("failmalloc", path)
    spec = importlib.util.spec_from_file_location("failmalloc", path, loader=loader)
    m = importlib.util.module_from_spec(spec)
    loader.exec_module(m)
    # the C++ runtime allocates its thread's exception state when the first exception is thrown, and cannot fail there
    from pyfastutil.unsafe import Unsafe
    try:
        Unsafe().aligned_malloc(1 << 62, 64)
    except Exception:
        pass
    return m


def kept(fm, at, mode, make, repeat=4):
    """Calls make()'s (function, args) with a failing allocation, drops everything, and returns
    (blocks left in use every time, allocations seen, failures, raised)."""
    least = None
    for i in range(repeat):
        fm.begin()
        fn, args = make()
        result = fm.call(at, mode, fn, *args)
        seen, failures, raised, value = result
        if isinstance(value, BaseException):
            value.__traceback__ = value.__context__ = value.__cause__ = None
        fn = args = result = value = None
        left = fm.kept()
        if left and i:
            gc.collect()
            left = fm.kept()
        if left == 0:
            return 0, seen, failures, raised
        if i:  # the first call may fill free lists and caches
            least = left if least is None else min(left, least)
    return least, seen, failures, raised
