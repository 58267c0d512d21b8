"""Cases on lists of tens to hundreds of thousands of elements, one topic per property."""
import array
import sys

from lib.lists import HUGE_SIZES, KINDS, diff, notable
from lib.monitor import Violation


class Boom(Exception):
    pass


def shards(topic, kinds, tier, split=2, quick=40):
    n = quick if tier == "quick" else quick * 40
    return [dict(name="large-" + k, kind=k, lo=0, hi=n, split=split, mode="large", topic=topic, weight=3) for k in kinds]


def run(ctx, shard):
    kind = KINDS[shard["kind"]]
    TOPICS[shard["topic"]](ctx, kind, ctx.rng)
    ctx.count("large-list cases")


def size(rng, kind):
    n = rng.choice(HUGE_SIZES + [262144, 300000])
    return n + rng.choice([0, 0, 1, rng.randrange(2000)])


def make(rng, kind, n, distinct=False):
    if kind.is_int:
        lo, hi = kind.bounds
        if distinct or rng.random() < 0.5:
            start = rng.choice([0, -n // 2, lo, hi - n, 2 ** 31 - n // 2 if hi > 2 ** 31 else 5])
            data = list(range(start, start + n))
            if rng.random() < 0.5:
                rng.shuffle(data)
            return data
        return [rng.randrange(lo, hi + 1) for _ in range(n)]
    if distinct or rng.random() < 0.5:
        return ["s%d" % (i * 7919 % n if n % 7919 else i) for i in range(n)]
    pool = [object() for _ in range(50)]
    return [pool[rng.randrange(50)] for _ in range(n)]


def one(rng, kind):
    if not kind.is_int:
        return object()
    return rng.randrange(kind.bounds[0], kind.bounds[1] + 1)


def place(rng, n):
    """A position, most often a power of two away from an end or the middle."""
    r = rng.random()
    if r < 0.2:
        return notable(rng, n) % n
    elif r < 0.5:
        p = rng.choice([32767, 32768, 65534, 65535, 65536, 65537, 131071, 131072]) + rng.randrange(-2, 3)
    elif r < 0.7:
        p = n - 1 - rng.randrange(5)
    else:
        p = rng.randrange(n)
    return max(0, min(n - 1, p))


def expect(kind, what, got, want, identity=None):
    identity = not kind.is_int if identity is None else identity
    if not isinstance(got, list):
        got = list(got)
    if len(got) != len(want) or got != want or identity and any(a is not b for a, b in zip(got, want)):
        raise Violation("%s-large-%s" % (kind, what), "%d elements: %s" % (len(want), diff(got, want)))


# -- iterators -----------------------------------------------------------------------------------

def walk(ctx, kind, rng):
    n = size(rng, kind)
    data = make(rng, kind, n, distinct=True)
    L, M = kind.cls(data), list(data)
    expect(kind, "forward", [v for v in L], M)
    expect(kind, "reversed", [v for v in reversed(L)], M[::-1])
    pairs = [(iter(L), iter(M)), (reversed(L), reversed(M)), (iter(L), iter(M))]
    changes = sorted(place(rng, n) for _ in range(rng.choice([0, 1, 3, 6])))
    done = [0] * len(pairs)
    END = object()
    step = 0
    ctx.mark("%s n=%d changes at %s" % (kind.name, n, changes))
    while True:
        alive = False
        for k, (a, b) in enumerate(pairs):
            x, y = next(a, END), next(b, END)
            if x is not y and (x is END or y is END or (x != y if kind.is_int else True)):
                raise Violation("%s-large-walk" % kind, "iterator %d, step %d of %d: %.60r instead of %.60r" % (k, step, n, x, y))
            alive = alive or y is not END
            done[k] += 1
        if not alive:
            break
        step += 1
        while changes and step >= changes[0]:
            changes.pop(0)
            w = rng.randrange(6)
            v, p = one(rng, kind), place(rng, len(M))
            for X in (L, M):
                if w == 0:
                    X.append(v)
                elif w == 1:
                    X.insert(p, v)
                elif w == 2:
                    X.pop(p)
                elif w == 3:
                    X.reverse()
                elif w == 4:
                    del X[p:p + 40]
                else:
                    X[p] = v
    ctx.count("steps of iterators over large lists", sum(done))
    ctx.distinct("walk", kind.name, n, tuple(done))


# -- copies --------------------------------------------------------------------------------------

def copies(ctx, kind, rng):
    n = size(rng, kind)
    data = make(rng, kind, n)
    L, M = kind.cls(data), list(data)
    a, b = sorted((place(rng, n), place(rng, n)))
    small = [c for c in KINDS.values() if c.is_int == kind.is_int and (not c.is_int or c.bounds[1] >= kind.bounds[1])]
    other = rng.choice(small)
    makers = {
        "copy": (lambda: L.copy(), lambda: M.copy()), "construct": (lambda: kind.cls(L), lambda: list(M)),
        "other type": (lambda: other.cls(L), lambda: list(M)), "add": (lambda: L + kind.cls(M[:7]), lambda: M + M[:7]),
        "add list": (lambda: L + M[:7], lambda: M + M[:7]), "times one": (lambda: L * 1, lambda: M * 1),
        "add empty": (lambda: L + kind.cls(), lambda: M[:]), "times two": (lambda: L * 2, lambda: M * 2),
        "slice": (lambda: L[:], lambda: M[:]), "part": (lambda: L[a:a + 3000], lambda: M[a:a + 3000]),
        "section": (lambda: L[a:b], lambda: M[a:b]), "to_list": (lambda: L.to_list(), lambda: M[:]), "empty plus": (lambda: kind.cls() + L, lambda: M[:]),
    }
    what = rng.choice(sorted(makers))
    ctx.mark("%s n=%d %s" % (kind.name, n, what))
    C, D = makers[what][0](), makers[what][1]()
    expect(kind, what, C, D)
    for mine, ref, still, same, side in ((C, D, L, M, "source"), (L, M, C, D, "copy")):
        for _ in range(3):
            v = one(rng, kind)
            p = place(rng, len(ref)) if ref else 0
            w = rng.randrange(5)
            for X in (mine, ref):
                if w == 0:
                    X.append(v)
                elif w == 1 and ref:
                    X[p] = v
                elif w == 2:
                    X.reverse()
                elif w == 3:
                    del X[p:p + 100]
                else:
                    X.insert(p, v)
        expect(kind, what + "-changed", mine, ref)
        expect(kind, what + "-" + side + "-after", still, same)
    # the list itself as the argument
    a, b = sorted((place(rng, len(M)), place(rng, len(M))))
    how = rng.choice(["extend", "iadd", "slice", "add", "eq", "insert slice", "reinit other"])
    if how == "extend":
        L.extend(L)
        M.extend(M)
    elif how == "iadd":
        L += L
        M += M
    elif how == "slice":
        L[a:b] = L
        M[a:b] = M
    elif how == "insert slice":
        L[a:a] = L
        M[a:a] = M
    elif how == "add":
        expect(kind, "self-add", L + L, M + M)
    elif how == "eq" and (L != L or not L == L or L < L or not L <= L):
        raise Violation("%s-large-self-compare" % kind, "a list of %d elements differs from itself" % n)
    expect(kind, "self-" + how, L, M)
    ctx.distinct("copies", kind.name, n, what, how)


# -- comparison ----------------------------------------------------------------------------------

def compare(ctx, kind, rng):
    n = size(rng, kind)
    data = make(rng, kind, n, distinct=True)
    other = list(data)
    shape = rng.choice(["equal", "differ", "differ", "differ", "longer", "shorter", "both"])
    p = place(rng, n)
    if shape in ("differ", "both"):
        other[p] = one(rng, kind) if kind.is_int else rng.choice(["", "z", "s0", "s99999999"])
    if shape in ("longer", "both"):
        other += other[:rng.choice([1, 65536, 131072])]
    if shape == "shorter":
        other = other[:p]
    ctx.mark("%s n=%d %s at %d" % (kind.name, n, shape, p))
    A, B = kind.cls(data), kind.cls(other)
    for x, y, u, v in ((A, B, data, other), (B, A, other, data), (A, other, data, other), (data, B, data, other)):
        got = (x == y, x != y, x < y, x <= y, x > y, x >= y)
        want = (u == v, u != v, u < v, u <= v, u > v, u >= v)
        if got != want:
            raise Violation("%s-large-compare" % kind, "%s at %d of %d: %s %s: %s instead of %s (==, !=, <, <=, >, >=)" % (
                shape, p, n, type(x).__name__, type(y).__name__, got, want))
    ctx.distinct("compare", kind.name, n, shape, p)


# -- values in and out ---------------------------------------------------------------------------

def exact(ctx, kind, rng):
    n = size(rng, kind)
    lo, hi = kind.bounds
    data = make(rng, kind, n)
    for _ in range(40):
        data[place(rng, n)] = rng.choice([lo, hi, lo + 1, hi - 1, 0, -1, -5, 256, 257, -6, 2 ** 31 - 1, -2 ** 31])
    way = rng.choice(["construct", "extend", "append", "iadd", "generator", "slice", "set", "mul", "tuple"])
    ctx.mark("%s n=%d %s" % (kind.name, n, way))
    if way == "construct":
        L = kind.cls(data)
    elif way == "tuple":
        L = kind.cls(tuple(data))
    elif way == "generator":
        L = kind.cls(v for v in data)
    elif way == "mul":
        half = n // 2
        n = 2 * half
        data = data[:half] * 2
        L = kind.cls(data[:half])
        L *= 2
    else:
        L = kind.cls()
        if way == "extend":
            L.extend(data)
        elif way == "iadd":
            L += data
        elif way == "slice":
            L[:] = data
        elif way == "append":
            for v in data:
                L.append(v)
        else:
            L.extend([0] * n)
            if kind.linked:
                data[5000:] = [0] * (n - 5000)
                for i in range(5000):
                    L[i] = data[i]
            else:
                for i, v in enumerate(data):
                    L[i] = v
    expect(kind, way + "-to_list", L.to_list(), data)
    expect(kind, way + "-iter", list(L), data)
    expect(kind, way + "-slice", L[:], data)
    if not kind.linked:
        expect(kind, way + "-index", [L[i] for i in range(n)], data)
    if rng.random() < 0.5 and repr(L)[-3000:] != repr(data)[-3000:]:
        raise Violation("%s-large-repr" % kind, "...%s instead of ...%s" % (repr(L)[-300:], repr(data)[-300:]))
    keys = []
    L.sort(key=lambda v: keys.append(v) or 0)
    expect(kind, way + "-keys", keys, data)
    for _ in range(60):
        p = place(rng, len(data))
        v = int(str(data[p]))
        first = data.index(v)
        if L[p] != v or L.index(v) != first or v not in L or L[p - n] != v:
            raise Violation("%s-large-find" % kind, "%d at %d of %d: [] gives %r, index %r" % (v, p, n, L[p], L.index(v)))
    tail = [L.pop() for _ in range(300)]
    expect(kind, way + "-pop", tail[::-1], data[-300:])
    expect(kind, way + "-rest", L.to_list(), data[:-300])
    ctx.count("values written and read in large lists", n)
    ctx.distinct("exact", kind.name, n, way)


# -- construction --------------------------------------------------------------------------------

def build(ctx, kind, rng):
    n = size(rng, kind)
    data = make(rng, kind, n, distinct=True)
    code = {2 ** 31 - 1: "i", 2 ** 63 - 1: "q"}
    forms = {"list": lambda: data, "tuple": lambda: tuple(data), "generator": lambda: (v for v in data),
             "dict": lambda: dict.fromkeys(data), "keys": lambda: dict.fromkeys(data).keys(), "iter": lambda: iter(data),
             "map": lambda: map(lambda v: v, data)}
    for k in KINDS.values():
        if k.is_int == kind.is_int and (not k.is_int or k.bounds == kind.bounds):
            forms[k.name] = lambda k=k: k.cls(data)
    if kind.is_int:
        forms["array"] = lambda: array.array(code[kind.bounds[1]], data)
        if data == list(range(data[0], data[0] + n)):
            forms["range"] = lambda: range(data[0], data[0] + n)
    form = rng.choice(sorted(forms))
    hint = rng.choice([None, 0, -1, 1, 1000, 65535, 65536, n - 1, n, n + 1, 2 * n])
    if kind.linked:
        hint = None
    ctx.mark("%s n=%d %s hint=%s" % (kind.name, n, form, hint))
    source = forms[form]()
    want = data
    L = kind.cls(source) if hint is None else kind.cls(source, hint)
    expect(kind, "build-" + form, L.to_list(), want)
    expect(kind, "build-iter-" + form, list(L), want)
    if len(L) != n:
        raise Violation("%s-large-length" % kind, "%d instead of %d" % (len(L), n))
    if rng.random() < 0.5:
        form = rng.choice(sorted(forms))
        L.extend(forms[form]())
        expect(kind, "extend-" + form, L.to_list(), want + want)
    elif rng.random() < 0.5:
        cut = place(rng, n)
        L.__init__(data[:cut])
        expect(kind, "reinit", L.to_list(), data[:cut])
    ctx.distinct("build", kind.name, n, form, hint)


# -- references ----------------------------------------------------------------------------------

def refs(ctx, kind, rng):
    n = size(rng, kind)
    pool = [object() for _ in range(rng.choice([1, 2, 7]))]
    data = [pool[rng.randrange(len(pool))] for _ in range(n)]
    base = [sys.getrefcount(pool[i]) for i in range(len(pool))]
    held = [0] * len(pool)
    number = {id(pool[i]): i for i in range(len(pool))}
    L, M = kind.cls(), []
    trace = []

    def check():
        want = [0] * len(pool)
        for o in M:
            want[number[id(o)]] += 1
        o = None
        got = [sys.getrefcount(pool[i]) - base[i] for i in range(len(pool))]
        # M itself holds one reference per position as well
        expected = [2 * w + h for w, h in zip(want, held)]
        if got != expected:
            raise Violation("%s-large-counts" % kind, "after %s: counts changed by %s, positions account for %s" % (
                trace, got, expected))
    for _ in range(7):
        m = len(M)
        p = place(rng, m) if m else 0
        what = rng.choice(["extend", "iadd", "clear", "mul", "imul", "del", "set", "reverse", "copy", "drop copy", "sort",
                           "init", "slice", "pop", "list", "insert", "to_list", "concat", "walk", "extend fail"])
        if m > 400000 and what in ("extend", "iadd", "imul", "mul"):
            what = "clear"
        trace.append((what, m))
        if what == "extend":
            L.extend(rng.choice([list, tuple, kind.cls, iter])(data))
            M.extend(data)
        elif what == "iadd":
            L += data
            M += data
        elif what == "clear":
            L.clear()
            M.clear()
        elif what == "mul":
            (L * 2).clear()
        elif what == "imul":
            L *= 2
            M *= 2
        elif what == "del":
            del L[p:p + m // 2]
            del M[p:p + m // 2]
        elif what == "set":
            L[p:p + 70000] = data
            M[p:p + 70000] = data
        elif what == "reverse":
            L.reverse()
            M.reverse()
        elif what == "copy":
            C = L.copy()
            C.reverse()
            del C
        elif what == "drop copy":
            C = kind.cls(L)
            C.pop() if m else None
            C = None
        elif what == "sort":
            L.sort(key=lambda o: number[id(o)], reverse=m % 2 == 0)
            M.sort(key=lambda o: number[id(o)], reverse=m % 2 == 0)
        elif what == "init":
            L.__init__(data)
            M[:] = data
        elif what == "slice":
            L[p:p + 2000]
        elif what == "pop":
            for _ in range(min(m, 500)):
                L.pop()
                M.pop()
        elif what == "list":
            list(L)
        elif what == "to_list":
            L.to_list()
        elif what == "concat":
            L + L
        elif what == "walk":
            for o in L:
                pass
            for o in reversed(L):
                pass
        elif what == "insert":
            L.insert(p, pool[0])
            M.insert(p, pool[0])
        else:
            try:
                L.extend(failing(data[:66000]))
            except Boom:
                M.extend(data[:66000])
        o = None
        check()
        ctx.count("reference counts of large lists checked", len(pool))
    expect(kind, "refs", L, M)
    L = None
    M = []
    check()
    ctx.distinct("refs", kind.name, n, tuple(t[0] for t in trace))


def failing(items):
    yield from items
    raise Boom


# -- failing operations --------------------------------------------------------------------------

def fails(ctx, kind, rng):
    n = size(rng, kind)
    data = make(rng, kind, n, distinct=True)
    L, M = kind.cls(data), list(data)
    bad = 2 ** 70 if rng.random() < 0.5 else "x"
    at = place(rng, n)
    broken = data[:at] + [bad] + data[at:]
    p = place(rng, n)
    absent = -1 if kind.is_int and -1 not in data else object()
    calls = {"pop": lambda: L.pop(n), "set": lambda: L.__setitem__(n, data[0]), "index": lambda: L.index(absent),
             "remove": lambda: L.remove(absent), "del": lambda: L.__delitem__(-n - 1), "get": lambda: L[n],
             "setslice failing": lambda: L.__setitem__(slice(p, p + 10), failing(data[:at])),
             "setslice number": lambda: L.__setitem__(slice(p, p + 10), 5)}
    if kind.is_int:
        calls["setslice"] = lambda: L.__setitem__(slice(p, p + 10), broken)
        calls["append"] = lambda: L.append(bad)
        calls["insert"] = lambda: L.insert(p, bad)
        calls["add"] = lambda: L.__add__(5)
    sorting = rng.random() < 0.3
    what = rng.choice(sorted(calls))
    ctx.mark("%s n=%d %s at %d" % (kind.name, n, "sort" if sorting else what, at))
    try:
        if sorting:
            count = [0]

            def key(v):
                count[0] += 1
                if count[0] > at:
                    raise Boom
                return v
            what = "sort"
            L.sort(key=key)
        else:
            calls[what]()
    except (IndexError, ValueError, TypeError, OverflowError, RuntimeError, Boom) as e:
        if isinstance(e, Boom) != (what in ("sort", "setslice failing")):
            raise Violation("%s-large-exception" % kind, "%s gives %r" % (what, e))
    else:
        raise Violation("%s-large-no-exception" % kind, what)
    got = L.to_list()
    if what == "sort":
        if sorted(got) != sorted(M):
            raise Violation("%s-large-lost" % kind, "a failed sort of %d elements lost some" % n)
    else:
        expect(kind, what + "-unchanged", got, M)
    L = kind.cls(M)
    try:
        L.extend(failing(data[:at]))
    except Boom:
        pass
    expect(kind, "extend-failing", L.to_list(), M + data[:at])
    ctx.distinct("fails", kind.name, n, what, at)


# -- buffers -------------------------------------------------------------------------------------

def buffers(ctx, kind, rng):
    n = size(rng, kind)
    data = make(rng, kind, n)
    fmt, width = ("i", 4) if kind.bounds[1] < 2 ** 31 else ("q", 8)
    L, M = kind.cls(data), list(data)
    ctx.mark("%s n=%d" % (kind.name, n))
    view = memoryview(L)
    fields = (view.shape, len(view), view.nbytes, view.format, view.itemsize, view.strides, view.readonly, view.ndim)
    want = ((n,), n, n * width, fmt, width, (width,), False, 1)
    if fields != want:
        raise Violation("%s-large-view" % kind, "%s instead of %s" % (fields, want))
    expect(kind, "view", view.tolist(), M)
    if bytes(view) != array.array(fmt, M).tobytes():
        raise Violation("%s-large-view-bytes" % kind, "the bytes differ for %d elements" % n)
    for _ in range(30):
        p, v = place(rng, n), one(rng, kind)
        M[p] = v
        if rng.random() < 0.5:
            L[p] = v
        else:
            view[p] = v
        q = place(rng, n)
        if view[q] != M[q] or L[q] != M[q]:
            raise Violation("%s-large-view-element" % kind, "element %d of %d: view %r, list %r, want %r" % (
                q, n, view[q], L[q], M[q]))
    part = view[n // 3:]
    L.reverse()
    M.reverse()
    expect(kind, "view-reverse", part.tolist(), M[n // 3:])
    L.sort()
    M.sort()
    expect(kind, "view-sort", view.tolist(), M)
    view.release()
    for _ in range(3):
        p = place(rng, n)
        calls = {"append": lambda: L.append(1), "pop": lambda: L.pop(p), "extend": lambda: L.extend(M), "clear": L.clear,
                 "del": lambda: L.__delitem__(slice(p, None)), "imul": lambda: L.__imul__(2), "resize": lambda: L.resize(2 * n),
                 "insert": lambda: L.insert(p, 1), "set": lambda: L.__setitem__(slice(0, 0), M[:70000])}
        what = rng.choice(sorted(calls))
        try:
            calls[what]()
        except BufferError:
            pass
        else:
            raise Violation("%s-large-resized" % kind, "%s of %d elements under a view raised nothing" % (what, n))
        if part.tolist() != M[n // 3:] or L.to_list() != M:
            raise Violation("%s-large-refused" % kind, "%s raised BufferError but changed the list" % what)
    ctx.distinct("buffers", kind.name, n)
    del L
    expect(kind, "view-alive", part.tolist(), M[n // 3:])


TOPICS = dict(walk=walk, copies=copies, compare=compare, exact=exact, build=build, refs=refs, fails=fails, buffers=buffers)
