"""Runs one shard of a check in its own process: child.py <property> <shard.json> <progress> <result>."""
import importlib
import json
import os
import random
import resource
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from lib.monitor import Ctx, Violation  # noqa: E402

def main():
    prop, shard_file, progress, result = sys.argv[1:5]
    with open(shard_file) as f:
        shard = json.load(f)
    if shard.get("rlimit_mb"):
        limit = shard["rlimit_mb"] << 20
        resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    mod = importlib.import_module("checks." + prop)
    ctx = Ctx(prop, shard, progress, result)
    if hasattr(mod, "setup"):
        ctx.case = -1
        ctx.mark("setup")
        mod.setup(ctx, shard)
    done = 0
    for case in range(shard["lo"], shard["hi"]):
        if shard.get("deadline") and time.time() > shard["deadline"]:
            ctx.count("cases not run before the time limit", shard["hi"] - case)
            break
        ctx.case = case
        ctx.rng = random.Random("%s/%s/%s/%s" % (shard["seed"], prop, shard["name"], case))
        ctx.mark()
        try:
            mod.run_case(ctx, shard, case)
        except Violation as v:
            ctx.violation(v.kind, v.detail)
        except KeyboardInterrupt:
            raise
        except BaseException as e:  # the code under test raised where it never may
            ctx.violation("unexpected-%s" % type(e).__name__, traceback.format_exc())
        done += 1
        if shard.get("flush_every") and done % shard["flush_every"] == 0:
            ctx.mark("flush")
    ctx.case = -2
    ctx.mark("teardown")
    if hasattr(mod, "teardown"):
        try:
            mod.teardown(ctx, shard)
        except Violation as v:
            ctx.violation(v.kind, v.detail)
    ctx.count("cases", done)
    ctx.finish(done)


if __name__ == "__main__":
    main()
