"""T02: scenarios over the native thread pool; the recorded events are checked offline."""
import os
import signal
import subprocess

from lib import build
from lib.monitor import Violation

RULE = ("A case is one process of the native driver (native/pool_driver.cpp, linked with /repo's pool in an optimised, a "
        "delay-injecting, an "
        "ASan+UBSan and a TSan build) that runs several random scenarios: pool sizes 0 to 8 and the default, 1 to 4 submitting "
        "threads (crowds: up to 260 threads, 9 submitters and 70000 tasks), 13 kinds of tasks (results of several types, exceptions, empty functions, tasks that submit tasks and wait "
        "for them), futures waited for, dropped or kept beyond the pool, the pool destroyed at once, soon or when all is done. "
        "Submission, run and destruction events are recorded without adding synchronisation and checked offline against the "
        "futures' outcomes. distinct_nontrivial counts distinct (pool, kind of task, outcome, overlap) combinations and "
        "distinct start orders.")
ASSUMPTIONS = ["submitting to a pool whose destructor has started from another thread than its own workers is misuse",
               "a wait of 40 s counts as endless", "libstdc++'s own reference counting of exceptions is exempt from TSan",
               "at most (threads - 1) tasks of a pool wait for other tasks of it at the same time"]
PER_CASE = 25
FLAGS = {"plain": ("-O3",), "delays": ("-O2", "-DDELAYS"), "asan": ("-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                     "-fno-sanitize-recover=undefined"),
         "tsan": ("-O1", "-fno-omit-frame-pointer", "-fsanitize=thread")}


def shards(tier, seed):
    n = {"quick": 80, "thorough": 3000}[tier]
    r = []
    for v, share in (("plain", 2), ("delays", 1), ("asan", 1), ("tsan", 1)):
        r.append(dict(name="random-" + v, lo=0, hi=n * share, split=2, mode="random", build=v, rlimit_mb=0))
        r.append(dict(name="crowd-" + v, lo=0, hi=max(8, n // 10) * share, split=1, mode="crowd", build=v, rlimit_mb=0))
        r.append(dict(name="together-" + v, lo=0, hi=max(4, n // 10), split=1, mode="together", build=v, rlimit_mb=0))
    return r


def setup(ctx, shard):
    shard["program"] = build.build_program("pool-" + shard["build"], ["pool_driver.cpp"], ["utils/thread"],
                                           FLAGS[shard["build"]])


def run_case(ctx, shard, case):
    base = (ctx.seed * 1000003 + case) * PER_CASE + 10 ** 9 * list(FLAGS).index(shard["build"])
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "TSAN_OPTIONS", "ASAN_OPTIONS", "UBSAN_OPTIONS")}
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    n = {"random": PER_CASE, "together": 4, "crowd": 1}[shard["mode"]]
    ctx.mark("scenarios %d to %d" % (base, base + n))
    p = subprocess.Popen([shard["program"], shard["mode"], str(base), str(base + n)], stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=env)
    try:
        out, err = p.communicate(timeout=70)
        late = False
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        late = True
    lines = out.decode("utf-8", "replace").split("\n")
    err = err.decode("utf-8", "replace")
    for mark in ("WARNING: ThreadSanitizer", "ERROR: AddressSanitizer", "runtime error:"):
        if mark in err:
            report = err[err.index(mark):][:3000]
            raise Violation("sanitizer-" + ("race" if "Thread" in mark else "memory"), "%s\n%s" % (where(lines), report))
    scenarios = []
    for line in lines:
        if line.startswith(("scenario ", "together ")):
            scenarios.append([line])
        elif scenarios and line:
            scenarios[-1].append(line)
    for s in scenarios:
        (rendezvous if shard["mode"] == "together" else check)(ctx, shard, s)
    if late:
        raise Violation("hang", "the scenarios do not end: %s" % where(lines))
    if p.returncode:
        name = signal.Signals(-p.returncode).name if p.returncode < 0 else "exit code %d" % p.returncode
        raise Violation("crash", "%s: %s\n%s" % (name, where(lines), err[-1500:]))
    if shard["build"] == "delays" and lines[-3:-2]:
        ctx.count("delays injected", int(lines[-3].split()[1]))
    if lines[-2:] != ["finished", ""]:
        raise Violation("unfinished", where(lines))


def where(lines):
    heads = [l for l in lines if l.startswith(("scenario ", "together "))]
    return "scenario: %s; last lines: %s" % (heads[-1] if heads else "none", " | ".join(lines[-6:])[-400:])


def rendezvous(ctx, shard, lines):
    for line in lines:
        w = line.split()
        if w[0] == "stuck":
            raise Violation("never-ready", "%s: %s" % (lines[0], line))
        if w[0] == "alone":
            raise Violation("not-together", "%s: of as many tasks as the pool has threads, only %s run at the same time" % (
                lines[0], line[6:]))
        if w[0] == "met":
            ctx.count("rendezvous of all threads", int(w[3]))
            ctx.distinct("together", shard["build"], w[1], w[3])


EXPECT = {"int": lambda i, c: "int:%d" % (i * 7 + 1), "sleep": lambda i, c: "int:%d" % (i * 7 + 1), "void": lambda i, c: "void",
          "voidt": lambda i, c: "void", "throw": lambda i, c: "failure:%d" % i, "string": lambda i, c: "string:%d" % i,
          "unique": lambda i, c: "unique:%d" % i, "ref": lambda i, c: "ref:%d:%d" % (i, i * 3), "throwint": lambda i, c:
          "int:%d" % i, "empty": lambda i, c: "bad_function_call", "nest": lambda i, c: "int:%d" % c,
          "nestwait": lambda i, c: "int:%d" % c, "big": lambda i, c: "big:%d" % i}


def check(ctx, shard, lines):
    head = lines[0].split()
    pool, style = int(head[3]), int(head[9])
    at = {}        # (event, id) -> positions
    order = []
    who = {}
    tasks = {}
    tokens = None

    def bad(kind, text):
        raise Violation(kind, "%s (%s build): %s\nevents:\n    %s" % (
            lines[0], shard["build"], text, "\n    ".join(" ".join(str(x) for x in e) for e in order[:80])))

    done = False
    for line in lines[1:]:
        w = line.split()
        if w[0] in ("submit", "submitted", "start", "end", "destroy", "destroyed"):
            at.setdefault((w[0], int(w[1])), []).append(len(order))
            who.setdefault((w[0], int(w[1])), []).append(w[2])
            order.append((w[0], int(w[1]), w[2]))
        elif w[0] == "task":
            tasks[int(w[1])] = (w[2], int(w[3]), int(w[4]), int(w[5]), w[6])
        elif w[0] == "stuck":
            bad("never-ready" if w[1] == "future" else "never-destroyed", "%s: waiting for task %s has no end" % (line, w[2]))
        elif w[0] == "tokens":
            tokens = int(w[1])
        elif w[0] == "done":
            done = True
    if not done:
        return  # the process ended inside: reported by the caller
    destroy, destroyed = at[("destroy", -1)][0], at[("destroyed", -1)][0]
    none = []
    workers = set()
    waited = style not in (1, 2) and pool != 0
    overlap = most = 0
    for e in order:
        if e[0] == "start":
            overlap += 1
            most = max(most, overlap)
        elif e[0] == "end":
            overlap -= 1
        elif overlap < 0:
            break
    for i, (kind, parent, child, runs, outcome) in tasks.items():
        starts, ends = at.get(("start", i), none), at.get(("end", i), none)
        submits = at.get(("submit", i), none)
        label = "task %d (%s)" % (i, kind)
        if len(starts) > 1 or runs > 1:
            bad("run-twice", "%s ran %d times" % (label, max(len(starts), runs)))
        if len(starts) != len(ends) or runs != len(starts):
            bad("run-torn", "%s started %d times, ended %d times, counted %d runs" % (label, len(starts), len(ends), runs))
        if outcome == "unsubmitted":
            if submits or starts:
                bad("run-unsubmitted", label)
            if waited:
                bad("child-unsubmitted", label)
            continue
        if not submits:
            bad("log", label)
        if starts:
            if starts[0] < submits[0]:
                bad("run-early", "%s ran before it was submitted" % label)
            if starts[0] > destroyed or ends[0] > destroyed:
                bad("run-late", "%s ran after the pool was gone" % label)
            workers.add(who[("start", i)][0])
            if who[("start", i)] != who[("end", i)]:
                bad("run-torn", "%s changed threads" % label)
        if kind == "empty":
            if outcome not in ("bad_function_call", "dropped") and (outcome != "broken" or waited):
                bad("outcome", "%s: its future says %s" % (label, outcome))
        elif outcome == "dropped":
            if waited and shard["build"] == "none":
                bad("lost", label)
        elif outcome == "broken":
            if starts:
                bad("outcome", "%s ran, but its future says it never did" % label)
            if waited and destroy > submits[0]:
                bad("lost", "%s was never run, though the pool lived" % label)
        else:
            if not starts:
                bad("outcome", "%s never ran, but its future says %s" % (label, outcome))
            if outcome != EXPECT[kind](i, child):
                bad("outcome", "%s: its future says %s instead of %s" % (label, outcome, EXPECT[kind](i, child)))
        ctx.count("futures compared")
        ctx.distinct(pool, kind, outcome.split(":")[0], style, min(most, 4), parent >= 0)
    submitters = {t for k, v in who.items() if k[0] == "submit" and tasks[k[1]][1] < 0 for t in v}
    if workers & submitters:
        bad("wrong-thread", "a submitting thread ran tasks itself")
    if pool >= 0 and (len(workers) > pool or most > max(pool, 0)):
        bad("too-many", "%d threads ran tasks, %d at the same time" % (len(workers), most))
    # first in, first out: a task submitted completely before another is not overtaken by it
    ran = [i for i in tasks if ("start", i) in at]
    skipped = [(at[("submitted", i)][0], i) for i in tasks if ("start", i) not in at and ("submitted", i) in at
               and tasks[i][0] != "empty"]
    if ran and skipped:
        last = max((at[("submit", i)][0], i) for i in ran)
        first = min(skipped)
        if first[0] < last[0]:
            bad("overtaken", "task %d never ran, but task %d, submitted after it, did" % (first[1], last[1]))
    if pool == 1:
        ran.sort(key=lambda i: at[("start", i)][0])
        newest = (-1, None)
        for i in ran:
            if at[("submitted", i)][0] < newest[0] if ("submitted", i) in at else False:
                bad("overtaken", "task %d ran after task %s, which was submitted after it" % (i, newest[1]))
            newest = max(newest, (at[("submit", i)][0], i), key=lambda t: t[0])
    if tokens:
        bad("leak", "%d objects captured by tasks outlive the pool and all futures" % tokens)
    ctx.count("tasks run", len(ran))
    ctx.count("tasks cut off by the destructor", sum(1 for t in tasks.values() if t[4] == "broken"))
    ctx.maximum("tasks running at the same time", most)
    ctx.distinct("order", pool, tuple(i for k, i, t in order if k == "start")[:40])
    ctx.sample(lines[0])
