"""Programs whose interpreter ends while everything is still in use: the process has to end as any other."""
import os
import re
import subprocess
import sys

from lib.monitor import Violation

HEAD = """import sys, gc, atexit, builtins, weakref, threading, types
from pyfastutil.ints import *
from pyfastutil.objects import *
from pyfastutil.unsafe import *
LISTS = [IntArrayList, BigIntArrayList, IntLinkedList, ObjectArrayList, ObjectLinkedList]
OBJ = [ObjectArrayList, ObjectLinkedList]
OUT = []

class Sub0(IntArrayList): pass
class Sub1(BigIntArrayList): pass
class Sub2(IntLinkedList): pass
class Sub3(ObjectArrayList): pass
class Sub4(ObjectLinkedList): pass
SUBS = [Sub0, Sub1, Sub2, Sub3, Sub4]

class Last:
    "uses a list when it dies"
    def __init__(self, L, how): self.L, self.how = L, how
    def __del__(self):
        L = self.L
        for h in self.how:
            if h == 'append': L.append(1)
            elif h == 'pop' and len(L): L.pop()
            elif h == 'clear': L.clear()
            elif h == 'sort': L.sort(key=lambda v: id(v))
            elif h == 'iter': list(L); list(reversed(L))
            elif h == 'new': self.other = type(L)([1, 2, 3])
            elif h == 'repr': repr(L)
            elif h == 'index': 1 in L
            elif h == 'init': L.__init__([1, 2])
            elif h == 'slice': L[0:2] = [4, 5, 6]
            elif h == 'keep': KEPT.append(L)
KEPT = []
"""
HOWS = ["append", "pop", "clear", "sort", "iter", "new", "repr", "index", "init", "slice", "keep"]


def program(rng):
    lines, names, fresh = [], [], iter(range(10 ** 6))

    def name():
        n = rng.choice(["_v%d", "v%d", "Z%d"]) % next(fresh)
        names.append(n)
        return n

    def a_list():
        k = rng.randrange(5)
        return "%s[%d](%s)" % (rng.choice(["LISTS", "SUBS"]), k, rng.choice(
            ["", "range(%d)" % rng.choice([1, 3, 17, 100, 5000]), "[1, 2, 3]"])), k
    for _ in range(rng.randrange(2, 14)):
        L, k = a_list()
        r = rng.random()
        how = rng.sample(HOWS, rng.randrange(1, 4))
        if r < 0.15:
            lines.append("%s = %s" % (name(), L))
        elif r < 0.25:
            v = name()
            lines.append("%s = %s; %s = iter(%s); next(%s, 0)" % (v, L, name(), v, names[-1]))
            if rng.random() < 0.5:
                lines.append("del %s" % v)
                names.remove(v)
        elif r < 0.32:
            v = name()
            lines.append("%s = %s; %s = reversed(%s)" % (v, L, name(), v))
        elif r < 0.42 and k < 2:
            v = name()
            lines.append("%s = %s; %s = memoryview(%s)" % (v, L, name(), v))
            if rng.random() < 0.5:
                lines.append("del %s" % v)
                names.remove(v)
        elif r < 0.55:
            v = name()
            lines.append("%s = OBJ[%d](); %s.append(%s)%s" % (v, rng.randrange(2), v, v, rng.choice(
                ["", "; %s.extend([%s] * 20)" % (v, v), "; %s.append(iter(%s))" % (v, v), "; del %s" % v])))
            if lines[-1].endswith("del " + v):
                names.remove(v)
        elif r < 0.68:
            v = name()
            lines.append("%s = %s; %s = Last(%s, %r)" % (v, L, name(), v, how))
        elif r < 0.76:
            v = name()
            lines.append("%s = OBJ[%d]([1, 2, 3]); %s.append(Last(%s, %r))" % (v, rng.randrange(2), v, v, how))
        elif r < 0.82:
            lines.append("atexit.register(lambda L=%s, h=%r: Last(L, h))" % (L, how))
        elif r < 0.86:
            lines.append("%s = %s; sys.thing = %s; builtins.thing = %s" % (v := name(), L, v, v))
        elif r < 0.89:
            v = name()
            lines.append("%s = SUBS[%d]([1, 2]); %s.me = %s; %s = weakref.ref(%s, lambda w: OUT.append(w))" % (
                v, k, v, v, name(), v))
        elif r < 0.92:
            lines.append("%s = types.ModuleType('m'); %s.x = %s; sys.modules[%r] = %s" % (v := name(), v, L, v, v))
        elif r < 0.95:
            lines.append("%s = Unsafe(); %s = %s.malloc(100); %s = SIMD()" % (v := name(), name(), v, name()))
        elif r < 0.97:
            lines.append("T = threading.Thread(target=lambda L=%s: [L.append(1) or len(L) > 50 and L.clear() for _ in iter(int, 1)],"
                         " daemon=True); T.start()" % L)
        elif r < 0.985:
            lines.append("%s = OBJ[%d]()\nfor _ in range(3000): %s = OBJ[%d]([%s])" % (
                v := name(), rng.randrange(2), v, rng.randrange(2), v))
        else:
            lines.append("gc.freeze()")
    lines += rng.sample(["gc.collect()", "gc.disable()", "del LISTS", "del IntArrayList", "sys.modules.pop('pyfastutil', None)",
                                 "sys.modules.pop('pyfastutil.ints', None)", "del SUBS, OBJ", "import threading"], rng.choice([0, 0, 1, 2]))
    end = rng.choice(["", "", "sys.exit(0)", "raise SystemExit", "sys.modules.clear()", "globals().clear()", "fork"])
    if end == "fork" and not any("Thread(" in l for l in lines):
        lines.append("import os\np = os.fork()\nif p:\n    assert os.waitpid(p, 0)[1] == 0, 'the forked process failed'")
    elif end != "fork":
        lines.append(end)
    return HEAD + "\n".join(lines) + "\n"


def case(ctx):
    text = program(ctx.rng)
    body = text[len(HEAD):]
    ctx.mark("program:\n" + body)
    ctx.sample(body)
    # (output goes to a file: nothing can block)
    path = "ending-%d.txt" % os.getpid()
    with open(path, "w+b") as f:
        p = subprocess.Popen([sys.executable, "-c", text], stdin=subprocess.DEVNULL, stdout=f, stderr=f)
        try:
            code = p.wait(60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            code = "never"
        f.seek(0)
        out = f.read().decode("utf8", "replace")
    if code != 0 or re.search("Sanitizer|Fatal Python error|runtime error|SystemError", out):
        raise Violation("ending", "the process ended with %s\n%s\noutput:\n%s" % (code, body, out[-3000:]))
    ctx.count("interpreters that ended in order")
    ctx.count("destructors that complained at the end", out.count("Exception ignored"))
    ctx.distinct("ending", body)
