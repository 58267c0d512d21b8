"""L13: buffer views of the integer array lists, modelled by the list's contents and the set of live views."""
import array
import ctypes
import gc
import io
import struct
import weakref

from lib import large, lists
from lib.lists import BIG_SIZES, BOUNDARY_SIZES, KINDS, diff
from lib.monitor import Violation

RULE = ("History cases take, derive, write through and release views (memoryview, slices, casts, ctypes arrays, NumPy arrays, "
        "raw Py_buffer requests) of one list in random order and attempt list operations in between; monitors compare every "
        "view with the list after every step, require BufferError and no change from every operation that would change "
        "the length, and success again once the views are gone. Request cases check every Py_buffer field for every flag "
        "combination. Callback cases take a view from inside an operation's callback. Life cases drop the list first. "
        "distinct_nontrivial counts distinct (type, operation, size, number and kinds of live views).")
ASSUMPTIONS = ["memoryview, ctypes and (where installed) NumPy report the buffer they were given",
               "an operation that keeps the length may either succeed as a list or raise BufferError, except element "
               "assignment, sort and reverse, which have to work"]

ARRAYS = ["IntArrayList", "BigIntArrayList"]
FORMAT = {"IntArrayList": ("i", 4), "BigIntArrayList": ("q", 8)}
try:
    import numpy
except ImportError:
    numpy = None


class Py_buffer(ctypes.Structure):
    _fields_ = [("buf", ctypes.c_void_p), ("obj", ctypes.c_void_p), ("len", ctypes.c_ssize_t),
                ("itemsize", ctypes.c_ssize_t), ("readonly", ctypes.c_int), ("ndim", ctypes.c_int),
                ("format", ctypes.c_char_p), ("shape", ctypes.POINTER(ctypes.c_ssize_t)),
                ("strides", ctypes.POINTER(ctypes.c_ssize_t)), ("suboffsets", ctypes.POINTER(ctypes.c_ssize_t)),
                ("internal", ctypes.c_void_p)]


api = ctypes.pythonapi
api.PyObject_GetBuffer.argtypes = [ctypes.py_object, ctypes.POINTER(Py_buffer), ctypes.c_int]
api.PyBuffer_Release.argtypes = [ctypes.POINTER(Py_buffer)]
api.PyBuffer_Release.restype = None

WRITABLE, FORMATTED, ND = 1, 4, 8
STRIDES, C, F, ANY, INDIRECT = 0x10 | ND, 0x20 | 0x10 | ND, 0x40 | 0x10 | ND, 0x80 | 0x10 | ND, 0x100 | 0x10 | ND
REQUESTS = sorted({w | f | s for w in (0, WRITABLE) for f in (0, FORMATTED)
                   for s in (0, ND, STRIDES, C, F, ANY, INDIRECT)})


def shards(tier, seed):
    n = {"quick": 9000, "thorough": 200000}[tier]
    r = []
    for k in ARRAYS:
        r.append(dict(name="views-" + k, kind=k, lo=0, hi=n, split=5, mode="views"))
        r.append(dict(name="asan-views-" + k, kind=k, lo=0, hi=n // 4, split=4, mode="views", variant="asan"))
        r.append(dict(name="requests-" + k, kind=k, lo=0, hi=n // 6, split=1, mode="requests"))
        r.append(dict(name="callbacks-" + k, kind=k, lo=0, hi=n, split=2, mode="callbacks"))
        r.append(dict(name="asan-callbacks-" + k, kind=k, lo=0, hi=n // 3, split=2, mode="callbacks", variant="asan"))
        r.append(dict(name="life-" + k, kind=k, lo=0, hi=n // 4, split=1, mode="life"))
        r.append(dict(name="asan-life-" + k, kind=k, lo=0, hi=n // 8, split=1, mode="life", variant="asan"))
        r.append(dict(name="crowd-" + k, kind=k, lo=0, hi=n // 300, split=1, mode="crowd"))
    r += large.shards("buffers", ARRAYS, tier)
    return r


def run_case(ctx, shard, case):
    if shard.get("mode") == "large":
        return large.run(ctx, shard)
    kind = KINDS[shard["kind"]]
    {"views": views_case, "requests": requests_case, "callbacks": callbacks_case, "life": life_case,
     "crowd": crowd_case}[shard["mode"]](ctx, kind)


class View:
    """One live consumer of the buffer; idx are the element positions it shows."""

    def __init__(self, what, obj, idx, read, write=None, release=None):
        self.what, self.obj, self.idx, self.read, self.write, self._release = what, obj, idx, read, write, release

    def release(self):
        if self._release:
            self._release()
        self.obj = self.read = self.write = self._release = None


def mv_view(what, m, idx):
    def write(k, v):
        m[k] = v
    return View(what, m, idx, lambda: m.tolist(), None if m.readonly else write, m.release)


def raw_view(what, kind, source, idx, flags):
    b = Py_buffer()
    api.PyObject_GetBuffer(source, ctypes.byref(b), flags)
    fmt, size = FORMAT[kind.name]

    def read():
        return list(struct.unpack("%d%s" % (b.len // size, fmt), ctypes.string_at(b.buf, b.len)))

    def write(k, v):
        ctypes.memmove(b.buf + k * size, struct.pack(fmt, v), size)
    return View(what, b, idx, read, write, lambda: api.PyBuffer_Release(ctypes.byref(b)))


def take(rng, kind, L, model, views):
    fmt, size = FORMAT[kind.name]
    n = len(model)
    full = list(range(n))
    how = rng.choice(["memoryview", "memoryview", "slice", "of-view", "readonly", "cast", "ctypes", "numpy", "raw", "raw",
                      "step"])
    if how == "memoryview":
        m = memoryview(L)
        if m.format != fmt or m.itemsize != size or m.shape != (n,) or m.ndim != 1 or m.readonly or m.nbytes != n * size \
                or not m.contiguous or m.strides != (size,) or m.obj is not L or len(m) != n or m.suboffsets != ():
            raise Violation("%s-view-fields" % kind, "%r" % [m.format, m.itemsize, m.shape, m.ndim, m.readonly, m.nbytes,
                                                              m.strides, len(m)])
        return mv_view(how, m, full)
    if how == "slice":
        m = memoryview(L)
        a, b = sorted((rng.randrange(n + 1), rng.randrange(n + 1)))
        s = m[a:b]
        if rng.random() < 0.5:
            m.release()
        return mv_view(how, s, full[a:b])
    if how == "step":
        m = memoryview(L)
        sl = slice(None, None, rng.choice([2, 3, -1, -2]))
        return mv_view(how, m[sl], full[sl])
    if how == "of-view":
        v = [x for x in views if isinstance(x.obj, memoryview) and x.what != "cast"]
        if not v:
            return mv_view("memoryview", memoryview(L), full)
        v = rng.choice(v)
        return mv_view(how, memoryview(v.obj), list(v.idx))
    if how == "readonly":
        return mv_view(how, memoryview(L).toreadonly(), full)
    if how == "cast":
        m = memoryview(L).cast("B")
        return View(how, m, full, lambda: list(struct.unpack("%d%s" % (n, fmt), m.tobytes())),
                    lambda k, v: m.__setitem__(slice(k * size, k * size + size), struct.pack(fmt, v)), m.release)
    if how == "ctypes":
        t = (ctypes.c_int32 if size == 4 else ctypes.c_int64) * n
        a = t.from_buffer(L)
        return View(how, a, full, lambda: list(a), lambda k, v: a.__setitem__(k, v))
    if how == "numpy" and numpy is not None:
        a = numpy.frombuffer(L, dtype=fmt) if n and rng.random() < 0.5 else numpy.asarray(memoryview(L))
        return View(how, a, full, lambda: [int(x) for x in a], lambda k, v: a.__setitem__(k, v))
    return raw_view("raw", kind, L, full, rng.choice(REQUESTS))


def keeps_length(op, before, after, raised):
    return len(before) == len(after)


ALWAYS = {"setitem", "sort", "reverse", "index", "count", "contains", "len", "getitem", "getslice", "copy", "to_list", "iter",
          "reversed", "repr", "construct", "list", "tuple", "eq", "add", "add_self", "mul", "add_bad", "mul_bad", "hash"}


def check_views(ctx, kind, L, model, views, what, trace):
    got = L.to_list()
    if got != model:
        raise Violation("%s-contents-%s" % (kind, what), "%s\n%s" % (diff(got, model), trace()))
    for v in views:
        want = [model[i] for i in v.idx]
        seen = v.read()
        ctx.count("views compared")
        if seen != want:
            raise Violation("%s-view-%s" % (kind, what), "a %s view shows other elements: %s\n%s" % (
                v.what, diff(seen, want), trace()))


def derived(ctx, kind, L, model, log):
    """What is made from a list with views has none itself: it can change, and the list does not see it."""
    rng = ctx.rng
    other = kind.cls([1, 2, 3])

    def setslice():
        other[1:2] = L
        return other
    how, make, want = rng.choice([
        ("copy", lambda: L.copy(), model), ("mul", lambda: L * 1, model), ("mul3", lambda: L * 3, model * 3), ("rmul", lambda: 2 * L, model * 2),
        ("construct", lambda: kind.cls(L), model), ("add", lambda: L + kind.cls([5]), model + [5]), ("radd", lambda: kind.cls([5]) + L, [5] + model),
        ("extend", lambda: [other.extend(L), other][1], [1, 2, 3] + model), ("setslice", setslice, [1] + model + [3]),
        ("reinit", lambda: [other.__init__(L), other][1], model),
        ("import", lambda: KINDS["ObjectArrayList"].cls(L), model), ("linked", lambda: KINDS["IntLinkedList"].cls(x % 1000 for x in L), [x % 1000 for x in model])])
    ctx.mark("derived by " + how)
    log.append("derived by " + how)
    d, want = make(), list(want)
    for step in range(rng.randrange(1, 4)):
        change = rng.choice(["append", "pop", "clear", "insert", "del", "extend", "imul", "setslice", "reinit"])
        for side in (d, want):
            try:
                if change == "append":
                    side.append(7)
                elif change == "pop":
                    len(side) and side.pop()
                elif change == "clear":
                    side.clear()
                elif change == "insert":
                    side.insert(0, 7)
                elif change == "del":
                    del side[:len(side) // 2]
                elif change == "extend":
                    side.extend([1, 2])
                elif change == "imul":
                    side *= 2
                elif change == "setslice":
                    side[1:1] = [4, 4]
                else:
                    side.__init__([8, 9])
            except BufferError as e:
                raise Violation("%s-derived-%s" % (kind, how), "%s of a list made by %s from one with views: %r" % (change, how, e))
    if d.to_list() != want:
        raise Violation("%s-derived-%s" % (kind, how), diff(d.to_list(), want))
    ctx.count("lists made from lists with views")
    return "derived-" + how


def views_case(ctx, kind):
    rng = ctx.rng
    values = lists.Values(rng, kind)
    n = rng.choice(BOUNDARY_SIZES[:22]) if rng.random() < 0.95 else rng.choice(BIG_SIZES)
    data = values.many(n)
    L, model = kind.cls(data), list(data)
    if rng.random() < 0.3:
        L, how = type("Sub", (kind.cls,), {})(data), "sub"
    views, log = [], []

    def trace():
        return "%s(%.300r)\n%s" % (kind, data, "\n".join("    " + t for t in log[-40:]))

    eager = rng.choice([0.1, 0.3, 0.5])
    for step in range(40):
        r = rng.random()
        if r < eager and len(views) < 7:
            ctx.mark("take")
            v = take(rng, kind, L, model, views)
            views.append(v)
            log.append("take %s (%d live)" % (v.what, len(views)))
            key = "take-" + v.what
        elif r < eager + 0.2 and views:
            v = views.pop(rng.randrange(len(views)))
            ctx.mark("release " + v.what)
            log.append("release %s (%d live)" % (v.what, len(views)))
            v.release()
            key = "release"
            v = None
        elif r < eager + 0.3 and views:
            v = rng.choice(views)
            if not v.idx or v.write is None:
                continue
            k = rng.randrange(len(v.idx))
            x = values.one()
            ctx.mark("write " + v.what)
            log.append("write %d at %d of a %s view" % (x, k, v.what))
            v.write(k, x)
            model[v.idx[k]] = x
            key = "write-" + v.what
        elif r < eager + 0.36 and views:
            key = derived(ctx, kind, L, model, log)
        else:
            op = lists.gen_op(rng, kind, values, model, 150)
            key = op.name
            log.append("%s(%.200s), %d views" % (op.name, op.desc, len(views)))
            ctx.mark(log[-1])
            if views:
                blocked(ctx, kind, L, model, op, trace)
            else:
                ss, rs = lists.outcome(op.fn, L, "S")
                if not (ss == "raise" and op.allow and isinstance(rs, op.allow)):
                    sm, rm = lists.outcome(op.fn, model, "M")
                    if ss != sm or (ss == "raise" and isinstance(rs, BufferError)):
                        raise Violation("%s-released-%s" % (kind, op.name), "%s, a list %s, no view is left\n%s" % (
                            lists.show(ss, rs), lists.show(sm, rm), trace()))
                    ctx.count("operations with all views released")
                rs = rm = None
        check_views(ctx, kind, L, model, views, key, trace)
        if key in ("take-numpy", "release"):
            gc.collect(0)
        ctx.distinct(kind.name, key, len(model), sorted(v.what for v in views))
    while views:
        views.pop(rng.randrange(len(views))).release()
    v = None
    gc.collect(0)
    ctx.mark("resize at the end")
    try:
        L.append(7)
        L.extend([8] * 70)
        L.pop()
        L.clear()
    except BufferError as e:
        raise Violation("%s-still-exported" % kind, "no view is left: %r\n%s" % (e, trace()))
    if len(L):
        raise Violation("%s-clear" % kind, trace())
    ctx.sample(trace())


CROWDS = [127, 128, 129, 255, 256, 257, 300, 512, 1024, 32767, 32768, 65535, 65536, 65537, 70000, 131072]


def crowd_case(ctx, kind):
    """As many views at once that a narrow count of them would wrap around."""
    rng = ctx.rng
    values = lists.Values(rng, kind)
    n = rng.choice([0, 1, 2, 3, 5, 33])
    model = values.many(n)
    L = kind.cls(model)
    most = rng.choice(CROWDS)
    views, log = [], []

    def trace():
        return "%s(%.200r)\n    %s" % (kind, model, "\n    ".join(log))

    def go(target):
        if target < len(views):
            where = rng.choice(["first", "last", "any"])
            if where == "any":
                rng.shuffle(views)
            elif where == "first":
                views.reverse()
            for m in views[target:]:
                m.release()
            del views[target:]
        while len(views) < target:
            views.append(memoryview(L))
        log.append("%d views" % target)
        ctx.mark(log[-1])
        for i in range(rng.choice([1, 4])):
            op = lists.gen_op(rng, kind, values, model, 40)
            log.append("%s(%.200s)" % (op.name, op.desc))
            if target:
                blocked(ctx, kind, L, model, op, trace)
            else:
                ss, rs = lists.outcome(op.fn, L, "S")
                if ss == "raise" and op.allow and isinstance(rs, op.allow):
                    continue
                sm, rm = lists.outcome(op.fn, model, "M")
                if ss != sm or (ss == "raise" and isinstance(rs, BufferError)):
                    raise Violation("%s-released-%s" % (kind, op.name), "%s, a list %s, no view is left\n%s" % (
                        lists.show(ss, rs), lists.show(sm, rm), trace()))
                rs = rm = None
        if views:
            try:
                rng.choice([lambda: L.append(1), lambda: L.extend([1, 2]), lambda: L.insert(0, 1)])()
                raise Violation("%s-not-blocked-crowd" % kind, "%d views do not keep the list from growing\n%s" % (target, trace()))
            except BufferError:
                ctx.count("length changes refused")
            for m in (views[0], views[-1], rng.choice(views)):
                if m.tolist() != model:
                    raise Violation("%s-crowd-values" % kind, "%.200r instead of %.200r\n%s" % (m.tolist(), model, trace()))
        if L.copy() != kind.cls(model) or list(L) != model:
            raise Violation("%s-crowd-values" % kind, "%.200r instead of %.200r\n%s" % (L, model, trace()))
        ctx.distinct("crowd", kind.name, target)
        ctx.maximum("views alive at the same time", target)

    stops = [c for c in CROWDS if c <= most]
    go(rng.choice(stops))
    go(most)
    for target in sorted(rng.sample(stops, min(len(stops), rng.randrange(4))), reverse=True):
        go(target)
    go(1)
    go(0)


def blocked(ctx, kind, L, model, op, trace):
    """An operation while views are alive."""
    before = list(model)
    after = list(model)
    sm, rm = lists.outcome(op.fn, after, "M")
    ss, rs = lists.outcome(op.fn, L, "S")
    if ss == "raise" and op.allow and isinstance(rs, op.allow):
        return
    changes = len(after) != len(before)
    what = "%s(%.200s): %s; a list %s\n%s" % (op.name, op.desc, lists.show(ss, rs), lists.show(sm, rm), trace())
    if changes:
        if ss != "raise" or not isinstance(rs, BufferError):
            raise Violation("%s-not-blocked-%s" % (kind, op.name), what)
        ctx.count("length changes refused")
        return  # check_views compares with the unchanged model
    if ss == "raise" and isinstance(rs, BufferError):
        if op.name in ALWAYS and not op.name.startswith(("setslice",)):
            raise Violation("%s-refused-%s" % (kind, op.name), what)
        ctx.count("length preserving operations refused")
        return
    if ss != sm or ss == "raise" and not lists.acceptable(rs, rm, op):
        raise Violation("%s-viewed-%s" % (kind, op.name), what)
    model[:] = after
    ctx.count("length preserving operations done")


def requests_case(ctx, kind):
    rng = ctx.rng
    fmt, size = FORMAT[kind.name]
    n = rng.choice(BOUNDARY_SIZES)
    data = lists.Values(rng, kind).many(n)
    L = kind.cls(data)
    import sys
    refs = sys.getrefcount(L)
    bs = []
    for flags in rng.sample(REQUESTS, len(REQUESTS)) if rng.random() < 0.3 else [rng.choice(REQUESTS)]:
        b = Py_buffer()
        ctx.mark("request %#x of %d elements" % (flags, n))
        api.PyObject_GetBuffer(L, ctypes.byref(b), flags)
        bs.append(b)
        shape = b.shape[0] if b.shape else None
        strides = b.strides[0] if b.strides else None
        got = (b.obj == id(L), b.len, b.itemsize, b.readonly, b.ndim, b.format, shape, strides, bool(b.suboffsets))
        want = (True, n * size, size, 0, 1, fmt.encode() if flags & FORMATTED else None,
                n if flags & ND else None, size if flags & STRIDES == STRIDES else None, False)
        if got != want or not b.buf:
            raise Violation("%s-request" % kind, "flags %#x: %r instead of %r (buf %r)" % (flags, got, want, b.buf))
        if ctypes.string_at(b.buf, b.len) != struct.pack("%d%s" % (n, fmt), *data):
            raise Violation("%s-request-values" % kind, "flags %#x" % flags)
        ctx.count("Py_buffer requests checked")
        ctx.distinct("request", kind.name, flags, n)
    if len({b.buf for b in bs}) != 1:
        raise Violation("%s-request-buf" % kind, "live requests see different memory")
    for b in rng.sample(bs, len(bs)):
        try:
            L.append(1)
        except BufferError:
            pass
        else:
            raise Violation("%s-not-blocked-append" % kind, "append with a live Py_buffer")
        api.PyBuffer_Release(ctypes.byref(b))
    if sys.getrefcount(L) != refs:
        raise Violation("%s-request-references" % kind, "%d references instead of %d" % (sys.getrefcount(L), refs))
    L.append(1)
    # consumers that make a copy
    want = struct.pack("%d%s" % (n + 1, fmt), *data, 1)
    for name, copy in (("bytes", bytes(L) if False else memoryview(L).tobytes()), ("bytearray", bytes(bytearray(memoryview(L)))),
                       ("join", b"".join([memoryview(L)])), ("array", array.array("B", memoryview(L).tobytes()).tobytes()),
                       ("BytesIO", _written(L)), ("struct", struct.pack("%d%s" % (n + 1, fmt), *struct.unpack_from(
                           "%d%s" % (n + 1, fmt), L)))):
        if copy != want:
            raise Violation("%s-consumer-%s" % (kind, name), "%r instead of %r" % (copy[:64], want[:64]))
        ctx.count("copies by consumers compared")
    new = lists.Values(rng, kind).many(n + 1)
    io.BytesIO(struct.pack("%d%s" % (n + 1, fmt), *new)).readinto(L)
    if L.to_list() != new:
        raise Violation("%s-readinto" % kind, diff(L.to_list(), new))
    L.append(2)  # every consumer has let go


def _written(L):
    f = io.BytesIO()
    f.write(L)
    return f.getvalue()


def callbacks_case(ctx, kind):
    """A view is taken (or the last one released) in the middle of an operation."""
    rng = ctx.rng
    values = lists.Values(rng, kind)
    n = rng.choice(BOUNDARY_SIZES)
    data = values.many(n)
    L = kind.cls(data)
    taken = []
    new = values.many(rng.choice([1, 2, 5, 17, 40]))
    at = rng.randrange(len(new))
    release = rng.random() < 0.25

    def fire():
        if release:
            if taken:
                taken.pop().release()
        else:
            taken.append(memoryview(L))

    def gen():
        for i, v in enumerate(new):
            if i == at:
                fire()
            yield v

    class Sized:
        def __iter__(self):
            if at % 3 == 0:
                fire()
            return gen()

        def __length_hint__(self):
            if at % 3 == 1:
                fire()
            return len(new)

        def __len__(self):
            if at % 3 == 2:
                fire()
            return len(new)

        def __getitem__(self, i):
            if i == at:
                fire()
            return new[i]

    class Idx:
        def __init__(self, v):
            self.v = v

        def __index__(self):
            fire()
            return self.v

    calls = [0]

    def key(v):
        calls[0] += 1
        if calls[0] == at + 1:
            fire()
        return -v

    a, b = sorted((rng.randrange(n + 1), rng.randrange(n + 1)))
    def setslice(src):
        L[a:b] = src

    def setitem():
        L[Idx(0)] = Idx(new[0])

    def iadd():
        M = L
        M += gen()
    ops = {"extend-generator": lambda: L.extend(gen()), "extend-sized": lambda: L.extend(Sized()), "iadd": iadd,
           "setslice-generator": lambda: setslice(gen()), "setslice-sized": lambda: setslice(Sized()),
           "setslice-items": lambda: setslice([Idx(v) if i == at else v for i, v in enumerate(new)]),
           "init": lambda: L.__init__(gen()), "init-hint": lambda: L.__init__(gen(), 100), "append": lambda: L.append(Idx(1)),
           "insert": lambda: L.insert(Idx(0), Idx(1)), "pop": lambda: L.pop(Idx(0)), "sort-key": lambda: L.sort(key=key),
           "sort-key-reverse": lambda: L.sort(key=key, reverse=True), "setitem": setitem, "resize": lambda: L.resize(Idx(n + 5)),
           "delslice": lambda: L.__delitem__(slice(Idx(a), b)), "imul": lambda: L.__imul__(Idx(2)),
           "remove": lambda: L.remove(Idx(data[0] if data else 0)), "index": lambda: L.index(1, Idx(0)),
           "extend-list": lambda: L.extend([Idx(v) if i == at else v for i, v in enumerate(new)])}
    name = rng.choice(sorted(ops))
    if release:
        taken.append(memoryview(L))
    ctx.mark("%s on %d elements, %s at %d of %d" % (name, n, "release" if release else "take", at, len(new)))
    what = "%s(%.300r), %s with %.200r, the callback %s at %d" % (kind, data, name, new, "releases" if release else "takes",
                                                                  at)
    held = len(taken)
    try:
        ops[name]()
        result = "done"
    except BufferError:
        result = "BufferError"
    except (IndexError, ValueError, TypeError, RuntimeError) as e:
        # RuntimeError: how a constructor reports an element it cannot convert
        result = type(e).__name__
        if type(e) is RuntimeError and not name.startswith("init"):
            raise
    now = L.to_list()
    for m in taken:
        if m.tolist() != now:
            raise Violation("%s-callback-%s" % (kind, name), "the view shows %.300r, the list holds %.300r\n%s" % (
                m.tolist(), now, what))
        ctx.count("views taken by callbacks compared")
    if taken:
        try:
            L.append(1)
        except BufferError:
            pass
        else:
            raise Violation("%s-callback-%s" % (kind, name), "append is possible with a live view\n" + what)
        if now:
            taken[-1][0] = 77
            if L[0] != 77:
                raise Violation("%s-callback-%s" % (kind, name), "a write through the view is not seen\n" + what)
    for m in taken:
        m.release()
    try:
        L.append(1)
    except BufferError:
        raise Violation("%s-callback-%s" % (kind, name), "append is not possible after all views are gone\n" + what)
    if L[-1] != 1 or len(L) != len(now) + 1:
        raise Violation("%s-callback-%s" % (kind, name), what)
    ctx.count("operation %s: %s" % (name, result))
    ctx.distinct("callback", kind.name, name, n, at, len(new), result, release)


def life_case(ctx, kind):
    """Views outlive every other reference to the list."""
    rng = ctx.rng
    values = lists.Values(rng, kind)
    n = rng.choice(BOUNDARY_SIZES)
    model = values.many(n)

    class Sub(kind.cls):
        pass

    L = Sub(model)
    w = weakref.ref(L)
    views = []
    for _ in range(rng.choice([1, 2, 4])):
        views.append(take(rng, kind, L, model, views))
    del L
    gc.collect()
    ctx.mark("%d elements, views %r" % (n, [v.what for v in views]))
    junk = [kind.cls(values.many(n)) for _ in range(6)]
    while views:
        if w() is None:
            raise Violation("%s-died" % kind, "the list died under %r" % [v.what for v in views])
        for v in views:
            if v.read() != [model[i] for i in v.idx]:
                raise Violation("%s-life" % kind, "a %s view shows %s" % (v.what, diff(v.read(), [model[i] for i in v.idx])))
            ctx.count("views of dropped lists compared")
        v = rng.choice(views)
        if v.idx and v.write:
            k = rng.randrange(len(v.idx))
            model[v.idx[k]] = values.one()
            v.write(k, model[v.idx[k]])
        ctx.distinct("life", kind.name, n, sorted(v.what for v in views))
        views.pop(rng.randrange(len(views))).release()
        v = None
        junk.append(kind.cls(values.many(n)))
    gc.collect()
    if w() is not None:
        raise Violation("%s-kept" % kind, "the list outlives its views")
