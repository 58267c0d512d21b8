"""U02: object addresses, reference counts and calls of function addresses."""
import ctypes
import gc
import sys
import weakref

from lib import build
from lib.mem import PAGE, Guarded
from lib.monitor import Violation

RULE = ("Object cases: a random history of get_address, as_object, incref, decref and refcnt over a pool of objects of every "
        "kind; after each call the reference count of every pool object (read by the interpreter itself) is compared with a "
        "model, and classes whose every special method reports being called show that no user code runs. Call cases: C "
        "functions that count their runs and return bytes the harness chose (every scalar type, structs of 1 to 8192 "
        "bytes) are called through each of the four calls; the value, the bytes stored between unmapped pages, every other "
        "byte and the number of runs are compared. Refusal cases: malformed arguments, where no function may run and no "
        "byte may change. distinct_nontrivial counts distinct (call, object kind or function, value, size) steps.")
ASSUMPTIONS = ["System V calling convention of the host (structs of integers); a function's declared result is at least as "
               "large as the requested size",
               "immortal objects (None, booleans, small integers) have no countable references"]
SCALARS = [("char", 1, True), ("short", 2, True), ("int", 4, True), ("uint", 4, False), ("llong", 8, True),
           ("ullong", 8, False), ("pointer", 8, False), ("uchar", 1, False), ("ushort", 2, False), ("dirty", 8, True)]
STRUCTS = list(range(1, 80)) + list(range(100, 110)) + list(range(120, 130)) + list(range(250, 260)) + \
    list(range(510, 520)) + [1000, 1024, 1025, 4096, 5000, 8192, 65536, 65541, 70000]
NAMED = [("pair", 16, ()), ("mix", 16, (5,)), ("three", 12, ()), ("five", 40, ())]


def shards(tier, seed):
    n = {"quick": 6000, "thorough": 150000}[tier]
    return [dict(name="objects", lo=0, hi=n, split=4, mode="objects"),
            dict(name="asan-objects", variant="asan", lo=0, hi=n // 6, split=2, mode="objects"),
            dict(name="calls", lo=0, hi=n * 3, split=3, mode="calls"),
            dict(name="asan-calls", variant="asan", lo=0, hi=n // 2, split=1, mode="calls"),
            dict(name="refusals", lo=0, hi=n, split=2, mode="refuse"),
            dict(name="leaks", lo=0, hi=len(LEAKS) * (2 if tier == "quick" else 10), split=2, mode="leak")]


def setup(ctx, shard):
    global unsafe, lib, runs, source, order, ordered, region
    from pyfastutil.unsafe import Unsafe
    unsafe = Unsafe()
    lib = ctypes.CDLL(build.build_native("callees", ["callees.c"], flags=["-O1"]))
    runs = ctypes.c_long.in_dll(lib, "runs")
    source = (ctypes.c_ubyte * 70000).in_dll(lib, "source")
    order = (ctypes.c_long * 64).in_dll(lib, "order")
    ordered = ctypes.c_long.in_dll(lib, "ordered")
    region = Guarded(18 * PAGE)


def run_case(ctx, shard, case):
    {"objects": objects, "calls": calls, "refuse": refuse, "leak": leak}[shard["mode"]](ctx, shard, case)


# -- objects ------------------------------------------------------------------------------------
class Touchy:
    """Every special method reports that it ran."""
    ran = []

    def __init__(self, n):
        self.n = n

    def __del__(self):
        Touchy.ran.append("__del__")


def _spy(name):
    def method(self, *args):
        Touchy.ran.append(name)
        return NotImplemented if name not in ("__hash__", "__len__", "__index__", "__int__", "__bool__", "__repr__", "__str__",
                                              "__iter__", "__float__") else \
            {"__repr__": "Touchy", "__str__": "Touchy", "__iter__": iter(()), "__bool__": True, "__float__": 1.0}.get(name, 1)
    return method


for _n in ("__eq__", "__ne__", "__lt__", "__hash__", "__len__", "__index__", "__int__", "__bool__", "__repr__", "__str__",
           "__iter__", "__float__", "__call__", "__enter__", "__getitem__", "__contains__", "__add__", "__format__"):
    setattr(Touchy, _n, _spy(_n))


class Slots:
    __slots__ = ("a", "__weakref__")


def make_object(rng, k):
    from pyfastutil.ints import BigIntArrayList, IntArrayList, IntLinkedList
    from pyfastutil.objects import ObjectArrayList, ObjectLinkedList

    def generator():
        yield k
    makers = [lambda: Touchy(k), lambda: Touchy(k), lambda: Slots(), lambda: int(str(10 ** rng.randrange(3, 40) + k)),
              lambda: float("%d.25" % k), lambda: "".join(["s", str(k), "\u4e00"]), lambda: b"".join([b"ab", bytes([k % 256])]),
              lambda: (k, "t"), lambda: [k], lambda: {k: 1}, lambda: {k}, lambda: frozenset([k, "f"]), lambda: complex(k, 1),
              lambda: bytearray(b"z" * k), lambda: type("T%d" % k, (), {}), lambda: (lambda: k), lambda: iter([k]),
              lambda: ValueError(k), lambda: generator(), lambda: memoryview(bytearray(5)), lambda: range(k, k + 1000),
              lambda: slice(k), lambda: object(), lambda: weakref.WeakSet(), lambda: IntArrayList([k]),
              lambda: BigIntArrayList([k]), lambda: IntLinkedList([k]), lambda: ObjectArrayList([k]),
              lambda: ObjectLinkedList([k]), lambda: type(unsafe)(), lambda: compile("a%d" % k, "x", "eval"),
              lambda: [].append, lambda: property(), lambda: staticmethod(len)]
    return rng.choice(makers)()


class Owned:
    pass


IMMORTAL = [None, True, False, 0, 1, -5, 256, Ellipsis, NotImplemented, (), "", b"", int, type]


def objects(ctx, shard, case):
    rng = ctx.rng
    gc.disable()
    try:
        _objects(ctx, rng)
    finally:
        gc.enable()


def _objects(ctx, rng):
    pool = [make_object(rng, k + 300) for k in range(rng.choice([1, 3, 8]))]
    kinds = [type(o).__name__ for o in pool]
    o = None
    extra = [0] * len(pool)     # references the library has been told to add
    held = [0] * len(pool)      # references kept in results
    results = []                # (index, object)
    base = [sys.getrefcount(o) for o in pool]
    o = None
    log = []
    addresses = {}
    Touchy.ran.clear()

    def bad(kind, text):
        raise Violation(kind, text + "\nhistory:" + "".join("\n    " + t for t in log[-30:]))

    for step in range(rng.choice([10, 30])):
        i = rng.randrange(len(pool))
        name = rng.choice(["get_address", "as_object", "as_object", "as_object-keep", "incref", "incref", "decref", "decref",
                           "refcnt", "drop", "immortal", "gc", "many", "sole"])
        log.append("%s %s" % (name, kinds[i]))
        ctx.mark(log[-1])
        if name == "get_address":
            a = unsafe.get_address(pool[i])
            if type(a) is not int or a != id(pool[i]):
                bad("address", "get_address of a %s returned %r instead of %#x" % (kinds[i], a, id(pool[i])))
            addresses[i] = a
        elif name == "as_object":
            o = unsafe.as_object(addresses.get(i, id(pool[i])))
            if o is not pool[i]:
                bad("as_object", "as_object(%#x) returned %s, another object than the %s there" % (
                    id(pool[i]), type(o).__name__, kinds[i]))
            o = None
        elif name == "as_object-keep":
            results.append((i, unsafe.as_object(id(pool[i]))))
            if results[-1][1] is not pool[i]:
                bad("as_object", "as_object returned another object than the " + kinds[i])
            held[i] += 1
        elif name == "incref":
            for _ in range(rng.choice([1, 1, 2, 50] * 5 + [300, 3000, 70000])):
                if unsafe.incref(pool[i]) is not None:
                    bad("incref-return", "incref returned something")
                extra[i] += 1
        elif name == "decref":
            for _ in range(rng.choice([1, 1, 2, 50, 80000])):
                if extra[i]:
                    if unsafe.decref(pool[i]) is not None:
                        bad("decref-return", "decref returned something")
                    extra[i] -= 1
        elif name == "refcnt":
            got, want = unsafe.refcnt(pool[i]), sys.getrefcount(pool[i])
            if type(got) is not int or got != want:
                bad("refcnt", "refcnt of a %s returned %r, the interpreter counts %d" % (kinds[i], got, want))
        elif name == "drop" and results:
            j, o = results.pop(rng.randrange(len(results)))
            o = None
            held[j] -= 1
        elif name == "immortal":
            v = rng.choice(IMMORTAL)
            if unsafe.as_object(unsafe.get_address(v)) is not v or unsafe.get_address(v) != id(v):
                bad("immortal", "%r does not survive the conversion" % (v,))
            if unsafe.refcnt(v) != sys.getrefcount(v):
                bad("immortal-refcnt", "%r" % (v,))
            never = sys.getrefcount(v)
            for f in rng.sample([unsafe.incref, unsafe.incref, unsafe.decref, unsafe.decref], 4)[:rng.choice([1, 4, 4])]:
                f(v)
                if never > 1 << 31 and sys.getrefcount(v) != never:
                    bad("immortal-counted", "the count of the immortal %r moved from %d to %d" % (
                        v, never, sys.getrefcount(v)))
            v = None
        elif name == "gc":
            gc.collect()
        elif name == "sole":
            # an object that lives by the references the library was told to add alone
            o = Owned()
            gone = weakref.ref(o)
            a, k = unsafe.get_address(o), rng.choice([1, 1, 2, 3])
            for _ in range(k):
                unsafe.incref(o)
            o = None
            for left in range(k, 0, -1):
                if gone() is None:
                    bad("sole-early", "an object with %d added references left died" % left)
                n = unsafe.refcnt(unsafe.as_object(a))
                if n != left + 1:  # and the argument
                    bad("sole-count", "%d references reported of an object with %d added ones" % (n, left))
                unsafe.decref(unsafe.as_object(a))
            if gone() is not None:
                bad("sole-late", "all %d added references were given back and the object lives" % k)
        elif name == "many":
            # as if that many more references existed
            field = ctypes.c_int64.from_address(id(pool[i]))
            add = rng.choice([200, 250, 2 ** 8, 1000, 32700, 2 ** 15, 65500, 2 ** 16, 10 ** 6, 2 ** 24, 2 ** 30, 2 ** 31 - 5000000])
            field.value += add
            for _ in range(rng.choice([3, 20, 300])):
                f, d = rng.choice([(unsafe.incref, 1), (unsafe.decref, -1), (unsafe.refcnt, 0)])
                was = sys.getrefcount(pool[i])
                got = f(pool[i])
                now = sys.getrefcount(pool[i])
                if now - was != d or d == 0 and got != now:
                    field.value -= add
                    bad("count-many", "an object with %d references: the call gave %r and the count became %d" % (was, got, now))
                extra[i] += d
            while extra[i] < 0:
                unsafe.incref(pool[i])
                extra[i] += 1
            if unsafe.as_object(id(pool[i])) is not pool[i] or unsafe.get_address(pool[i]) != id(pool[i]):
                bad("as_object", "of an object with %d references" % was)
            field.value -= add
        for j, o in enumerate(pool):
            have = sys.getrefcount(o) - 1
            if have != base[j] + extra[j] + held[j]:
                bad("count-" + name, "%s: reference count of a %s is %d instead of %d" % (
                    name, kinds[j], have, base[j] + extra[j] + held[j]))
        o = None
        if Touchy.ran:
            bad("side-effect", "%s ran %s" % (name, Touchy.ran))
        ctx.count("counts compared", len(pool))
        ctx.count("step " + name)
        ctx.distinct(name, kinds[i], extra[i], held[i])
    # the end: the last reference can be the library's own
    i = rng.randrange(len(pool))
    try:
        ref = weakref.ref(pool[i])
    except TypeError:
        ref = None
    for j in range(len(pool)):
        while extra[j]:
            unsafe.decref(pool[j])
            extra[j] -= 1
    results.clear()
    if ref is not None and kinds[i] not in ("type", "WeakSet") and not kinds[i].startswith("builtin"):
        unsafe.incref(pool[i])
        a = unsafe.get_address(pool[i])
        pool = None
        if ref() is None:
            bad("early-death", "a %s died although incref had added a reference" % kinds[i])
        o = unsafe.as_object(a)
        if o is not ref():
            bad("as_object", "as_object of the only reference")
        unsafe.decref(o)
        if ref() is None:
            bad("early-death", "decref took more than one reference of a %s" % kinds[i])
        o = None
        if ref() is not None:
            bad("no-death", "a %s outlives its last reference" % kinds[i])
        ctx.count("objects seen dying")
    pool = None
    Touchy.ran.clear()
    ctx.sample("\n".join(log[:8]))


# -- calls --------------------------------------------------------------------------------------
def address(name):
    return ctypes.cast(getattr(lib, "f_" + name), ctypes.c_void_p).value


def some_bytes(rng, n):
    r = rng.random()
    if r < 0.5:
        return rng.randbytes(n)
    if r < 0.7:
        return rng.choice([b"\0", b"\xff", b"\x80", b"\x7f"]) * n
    v = rng.choice([0, 1, 255, 256, 2 ** 15, 2 ** 16, 2 ** 30 - 1, 2 ** 30, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 59,
                    2 ** 60, 2 ** 62, 2 ** 63 - 1, 2 ** 63, rng.getrandbits(64)]) + rng.choice([0, 0, -1, 1])
    v = rng.choice([1, -1]) * v % (1 << 64)
    return (v.to_bytes(8, "little") * (n // 8 + 1))[:n]


def calls(ctx, shard, case):
    rng = ctx.rng
    data = some_bytes(rng, 16)
    how = rng.choice(["callVoid", "callInt", "callInt", "callLongLong", "callLongLong", "call-scalar", "call-scalar",
                      "call-struct", "call-struct", "call-struct", "call-named", "call-void", "callback"])
    fill = rng.randbytes(64) * (region.size // 64)
    region.put(region.start, fill)
    before = runs.value
    ordered.value = 0
    want_memory = fill
    ran = 1
    if how == "callVoid":
        name = rng.choice(["void"] + [s[0] for s in SCALARS])
        note = "callVoid(%s)" % name
        ctx.mark(note)
        ctypes.memmove(source, data, 16)
        got = unsafe.callVoid(address(name))
        want = None
    elif how == "callInt":
        name = rng.choice(["int", "int", "int", "uint", "dirty", "llong"])
        ctypes.memmove(source, data, 16)
        want = int.from_bytes(data[:4], "little", signed=True)
        note = "callInt(%s giving %d)" % (name, want)
        ctx.mark(note)
        got = unsafe.callInt(address(name))
    elif how == "callLongLong":
        name = rng.choice(["llong", "ullong", "dirty", "pointer"])
        ctypes.memmove(source, data, 16)
        want = int.from_bytes(data[:8], "little", signed=True)
        note = "callLongLong(%s giving %d)" % (name, want)
        ctx.mark(note)
        got = unsafe.callLongLong(address(name))
    elif how == "callback":
        kind, call, bits = rng.choice([(ctypes.c_int, "callInt", 32), (ctypes.c_longlong, "callLongLong", 64)])
        want = int.from_bytes(data[:bits // 8], "little", signed=True)
        seen = []
        function = ctypes.CFUNCTYPE(kind)(lambda: (seen.append(1), gc.collect(0), want)[2])
        note = "%s(callback giving %d)" % (call, want)
        ctx.mark(note)
        got = getattr(unsafe, call)(ctypes.cast(function, ctypes.c_void_p).value)
        if len(seen) != 1:
            raise Violation("runs-callback", "%s ran the function %d times" % (note, len(seen)))
        ran = 0
    else:
        want = None
        if how == "call-scalar":
            name, size, _ = rng.choice(SCALARS)
            n = size if rng.random() < 0.7 else rng.randrange(1, size + 1)
            skip = ()
        elif how == "call-void":
            name, size, n, skip = rng.choice(["void", "int", "struct8"]), 8, 0, ()
        elif how == "call-named":
            name, size, skip = rng.choice(NAMED)
            n = size
        else:
            size = rng.choice(STRUCTS) if rng.random() < 0.6 else rng.randrange(1, 41)
            name, n, skip = "struct%d" % size, size, ()
            if size <= 8 and rng.random() < 0.3:
                n = rng.randrange(1, size + 1)
            elif 8 < size <= 16 and rng.random() < 0.3:
                n = rng.randrange(9, size + 1)
        data = some_bytes(rng, max(size, 8))
        ctypes.memmove(source, data, len(data))
        o = rng.choice([0, region.size - n, rng.randrange(region.size - n + 1)])
        if n > 16:
            o -= o % 8  # the callee stores its own object there
        a = region.start + o
        if n == 0 and rng.random() < 0.5:
            a = 0
        note = "call(%s, offset %d, %d)" % (name, o, n)
        ctx.mark(note)
        got = unsafe.call(address(name), a, n)
        want_memory = bytearray(fill)
        want_memory[o:o + n] = data[:n]
        stored = bytearray(region.get(region.start, region.size))
        for k in skip:  # padding
            want_memory[o + k] = stored[o + k]
    if got != want or type(got) is not type(want):
        raise Violation("value-" + how, "%s returned %r" % (note, got))
    if runs.value - before != ran:
        raise Violation("runs-" + how, "%s ran the function %d times" % (note, runs.value - before))
    stored = region.get(region.start, region.size)
    if stored != want_memory:
        i = next(i for i in range(len(stored)) if stored[i] != want_memory[i])
        raise Violation("memory-" + how, "%s: byte %d is %02x instead of %02x (value %s)" % (
            note, i, stored[i], want_memory[i], data[:40].hex()))
    ctx.count("calls " + how)
    ctx.distinct(note)
    ctx.sample(note)


def refuse(ctx, shard, case):
    rng = ctx.rng
    fill = bytes(range(256)) * (region.size // 256)
    region.put(region.start, fill)
    f, a = address("struct8"), region.start + 64
    wrong = rng.choice([None, "8", 8.5, b"8", [8], (), object(), {}, 1 << 64, 1 << 90, -(1 << 64)])
    size = rng.choice([-1, -8, 1 << 64, 1 << 80, None, "4", 4.0, [4], b"4"])
    group = [("callVoid", (wrong,)), ("callInt", (wrong,)), ("callLongLong", (wrong,)), ("call", (wrong, a, 8)),
             ("call", (f, wrong, 8)), ("call", (f, a, size)), ("call", (f, a, size)), ("callVoid", ()), ("callInt", ()),
             ("callLongLong", ()), ("callVoid", (f, f)), ("callInt", (f, 1)), ("callLongLong", (f, None)), ("call", ()),
             ("call", (f,)), ("call", (f, a)), ("call", (f, a, 8, 8)), ("as_object", (0,)), ("as_object", ("x",)),
             ("as_object", (None,)), ("as_object", (1.5,)), ("as_object", (1 << 64,)), ("as_object", ()),
             ("as_object", (id(None), 1)), ("get_address", ()), ("get_address", (1, 2)), ("incref", ()), ("decref", ()),
             ("refcnt", ()), ("incref", (1, 2)), ("decref", (1, 2)), ("refcnt", (1, 2))]
    name, args = rng.choice(group)
    before = runs.value
    counts = [sys.getrefcount(x) for x in args]
    note = "%s(%s)" % (name, ", ".join("function" if x == f else repr(x)[:30] for x in args))
    ctx.mark(note)
    try:
        result = getattr(unsafe, name)(*args)
    except SystemError as e:
        raise Violation("refusal-systemerror", "%s raised %r" % (note, e))
    except Exception as e:
        ctx.count("refused with " + type(e).__name__)
        del e
    else:
        raise Violation("accepted-" + name, "%s returned %.100r" % (note, result))
    if runs.value != before:
        raise Violation("refused-ran", "%s ran the function" % note)
    if region.get(region.start, region.size) != fill:
        raise Violation("refused-wrote", "%s wrote to memory" % note)
    if [sys.getrefcount(x) for x in args] != counts:
        raise Violation("refused-counts", "%s: %r became %r" % (note, counts, [sys.getrefcount(x) for x in args]))
    ctx.distinct("refuse", note)


def quiet(fn):
    try:
        fn()
    except Exception:
        pass


LEAKS = [
    ("get_address", lambda u, o, a: u.get_address(o)), ("as_object", lambda u, o, a: u.as_object(id(o))),
    ("round-trip", lambda u, o, a: u.as_object(u.get_address(o))), ("refcnt", lambda u, o, a: u.refcnt(o)),
    ("incref-decref", lambda u, o, a: (u.incref(o), u.decref(o))), ("callVoid", lambda u, o, a: u.callVoid(address("void"))),
    ("callInt", lambda u, o, a: u.callInt(address("int"))), ("callLongLong", lambda u, o, a: u.callLongLong(address("llong"))),
    ("call8", lambda u, o, a: u.call(address("struct8"), a, 8)), ("call16", lambda u, o, a: u.call(address("struct16"), a, 16)),
    ("call40", lambda u, o, a: u.call(address("struct40"), a, 40)), ("call0", lambda u, o, a: u.call(address("void"), 0, 0)),
    ("as_object-null", lambda u, o, a: quiet(lambda: u.as_object(0))),
    ("as_object-type", lambda u, o, a: quiet(lambda: u.as_object(o))),
    ("call-type", lambda u, o, a: quiet(lambda: u.call(o, o, o))), ("callInt-type", lambda u, o, a: quiet(lambda: u.callInt(o))),
    ("callLongLong-type", lambda u, o, a: quiet(lambda: u.callLongLong(o))),
    ("callVoid-type", lambda u, o, a: quiet(lambda: u.callVoid(o))),
    ("counts", lambda u, o, a: (quiet(lambda: u.call(o)), quiet(lambda: u.callInt()), quiet(lambda: u.callVoid(1, 2)))),
]


def leak(ctx, shard, case):
    name, call = LEAKS[case % len(LEAKS)]
    rng = ctx.rng
    o = rng.choice([lambda: object(), lambda: [1], lambda: "".join(["a", "bc"]), lambda: Slots()])()
    ctypes.memmove(source, rng.randbytes(64), 64)
    ctx.mark(name)
    for _ in range(20):
        call(unsafe, o, region.start)
    for attempt in range(3):
        gc.collect()
        before = sys.getallocatedblocks(), sys.getrefcount(o), sys.getrefcount(unsafe), sys.getrefcount(type(o))
        for _ in range(300):
            call(unsafe, o, region.start)
        gc.collect()
        after = sys.getallocatedblocks(), sys.getrefcount(o), sys.getrefcount(unsafe), sys.getrefcount(type(o))
        moved = [x - y for x, y in zip(after, before)]
        if moved[0] < 150 and all(abs(m) < 150 or abs(m) > 1 << 28 for m in moved[1:]):
            break
    else:
        raise Violation("leak-" + name, "300 calls of %s left %d blocks; the argument's count moved by %d, the object's by "
                        "%d, its type's by %d (three times in a row)" % ((name,) + tuple(moved)))
    ctx.count("calls repeated for leaks", 300)
    ctx.distinct("leak", name, type(o).__name__)
