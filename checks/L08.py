"""L08: hostile programs under the address and undefined behaviour sanitizers."""
import gc
import itertools
import sys

from lib import endings
from lib.lists import KINDS, I32, I64, Eq, diff
from lib.monitor import Violation

RULE = ("A case is a random program of list, iterator and view calls with hostile arguments whose callbacks (comparison, "
        "key, hash, repr, index, int conversion, length, length hint, item access, iteration, destructor) change the "
        "same lists, drop references, collect garbage or raise. Most run under AddressSanitizer and UBSan, with every "
        "allocation of the interpreter visible to it, the rest on the optimised build. The process has to survive, every "
        "call has to return or raise an ordinary exception, and after each call every list has to agree with itself "
        "(length, both directions, to_list, slices, element ranges). distinct_nontrivial counts distinct (type, call, "
        "outcome, callbacks fired inside it) combinations.")
ASSUMPTIONS = ["iterating a list while its own elements are appended without bound is endless for built-in lists too and "
               "is bounded by the workload",
               "requests of up to a few gigabytes that the machine could meet are not made"]


def shards(tier, seed):
    n = {"quick": 2600, "thorough": 60000}[tier]
    r = []
    for k in KINDS:
        r.append(dict(name="asan-hostile-" + k, kind=k, variant="asan", lo=0, hi=n, split=4, weight=3,
                      prefix=STACK))
        r.append(dict(name="hostile-" + k, kind=k, lo=0, hi=n * 2, split=2, prefix=STACK))
        # (the interpreter's debug allocator sees writes past a block, freed blocks in use and blocks freed by another family)
        r.append(dict(name="debug-hostile-" + k, kind=k, lo=0, hi=n // 2, split=1, prefix=STACK, env={"PYTHONMALLOC": "debug"}))
    r.append(dict(name="deep", kind="ObjectArrayList", mode="deep", lo=0, hi=len(DEEP), split=4))
    for v, env in (("plain", {}), ("asan", {}), ("debug", {"PYTHONMALLOC": "debug"})):
        r.append(dict(name="ending-" + v, kind="all", mode="ending", variant=v if v != "debug" else "plain", env=env, lo=0,
                      hi=n // 20, split=2, weight=2))
    r.append(dict(name="asan-huge", kind="IntArrayList", mode="huge", variant="asan", lo=0, hi=240, split=2))
    r.append(dict(name="huge", kind="IntArrayList", mode="huge", lo=0, hi=400, split=2))
    return r


STACK = ["/bin/bash", "-c", "ulimit -s 524288; exec \"$@\"", "stack"]


class Boom(Exception):
    pass


class World:
    """The lists, iterators and views of one program, and the callbacks' budget."""

    def __init__(self, ctx, kind):
        self.ctx, self.rng, self.kind = ctx, ctx.rng, kind
        self.lists, self.iters, self.views = [], [], []
        self.depth = 0
        self.budget = 60
        self.fired = []
        self.quiet = False
        self.raising = 0.25

    def fire(self, what):
        if self.quiet or self.depth >= 3 or self.budget <= 0 or not self.lists:
            return
        if self.rng.random() < 0.4:
            return
        self.budget -= 1
        self.depth += 1
        self.fired.append(what)
        try:
            if self.rng.random() < self.raising:
                raise self.rng.choice([Boom, TypeError, ValueError, IndexError, StopIteration, MemoryError, KeyError])(what)
            self.act()
        finally:
            self.depth -= 1

    def act(self):
        rng = self.rng
        name, fn = rng.choice(ACTIONS)
        L = rng.choice(self.lists)
        try:
            fn(self, L)
        except Exception as e:
            check_exception("callback " + name, e)
            if rng.random() < 0.1:
                raise


def check_exception(what, e):
    if isinstance(e, SystemError):
        raise Violation("systemerror-" + what.split()[0], "%s: %r" % (what, e))


ACTIONS = [
    ("append", lambda w, L: L.append(plain(w))), ("pop", lambda w, L: L.pop()), ("pop0", lambda w, L: L.pop(0)),
    ("clear", lambda w, L: L.clear()), ("clear2", lambda w, L: L.clear()), ("del", lambda w, L: L.__delitem__(slice(None))),
    ("extend", lambda w, L: L.extend([plain(w) for _ in range(70)])), ("sort", lambda w, L: L.sort()),
    ("reverse", lambda w, L: L.reverse()), ("insert", lambda w, L: L.insert(0, plain(w))),
    ("imul", lambda w, L: imul(L, 2)), ("imul0", lambda w, L: imul(L, 0)),
    ("setslice", lambda w, L: L.__setitem__(slice(0, 5), [plain(w)] * 2)),
    ("setslice-grow", lambda w, L: L.__setitem__(slice(1, 2), [plain(w)] * 40)),
    ("reinit", lambda w, L: L.__init__([plain(w)] * 3)), ("reinit0", lambda w, L: L.__init__()),
    ("resize", lambda w, L: L.resize(w.rng.choice([0, 1, 200]))), ("drop", lambda w, L: drop(w)),
    ("gc", lambda w, L: gc.collect()), ("iterate", lambda w, L: list(itertools.islice(iter(L), 50))),
    ("next", lambda w, L: next(w.rng.choice(w.iters)) if w.iters else None),
    ("view", lambda w, L: w.views.append(memoryview(L))), ("release", lambda w, L: w.views.pop().release()),
    ("delitem", lambda w, L: L.__delitem__(w.rng.randrange(-3, 3))), ("remove", lambda w, L: L.remove(plain(w))),
    ("setitem", lambda w, L: L.__setitem__(-1, plain(w))), ("copy", lambda w, L: w.lists.append(L.copy())),
    ("repr", lambda w, L: repr(L)), ("eq", lambda w, L: L == L.to_list()),
]


def imul(L, n):
    if len(L) < 3000:
        L *= n


def drop(w):
    """Drops the program's own references, what is left is what the running call holds."""
    if len(w.lists) > 1:
        w.lists.pop(w.rng.randrange(len(w.lists)))
    if w.iters and w.rng.random() < 0.5:
        w.iters.pop()


def plain(w):
    rng = w.rng
    if w.kind.is_int:
        return rng.choice([0, 1, -1, 7, 2 ** 31 - 1, -2 ** 31, rng.randrange(-1000, 1000)])
    return rng.choice([rng.randrange(-1000, 1000), 1.5, "ab" * rng.randrange(3), None, [rng.random()], object(), (1, 2)])


class Base:
    def __init__(self, w, v=0):
        self.w, self.v = w, v


class EvilIndex(Base):
    def __index__(self):
        self.w.fire("index")
        return self.v


class EvilInt(int):
    w = None

    def __index__(self):
        self.w and self.w.fire("int-index")
        return int.__index__(self)

    def __int__(self):
        self.w and self.w.fire("int-int")
        return int.__int__(self)

    def __eq__(self, o):
        self.w and self.w.fire("int-eq")
        return int.__eq__(self, o)

    def __lt__(self, o):
        self.w and self.w.fire("int-lt")
        return int.__lt__(self, o)

    def __hash__(self):
        self.w and self.w.fire("int-hash")
        return int.__hash__(self)

    def __repr__(self):
        self.w and self.w.fire("int-repr")
        return "EvilInt"

    def __bool__(self):
        self.w and self.w.fire("int-bool")
        return True


class EvilObj(Base):
    def answer(self, what, v):
        self.w.fire(what)
        r = self.w.rng.random()
        if r < 0.05:
            return NotImplemented
        if r < 0.1:
            return Truth(self.w)
        return v

    def __eq__(self, o):
        return self.answer("eq", isinstance(o, EvilObj) and self.v == o.v or self.w.rng.random() < 0.1)

    def __ne__(self, o):
        return self.answer("ne", not (isinstance(o, EvilObj) and self.v == o.v))

    def __lt__(self, o):
        return self.answer("lt", self.w.rng.random() < 0.5)

    def __gt__(self, o):
        return self.answer("gt", self.w.rng.random() < 0.5)

    def __le__(self, o):
        return self.answer("le", self.w.rng.random() < 0.5)

    def __hash__(self):
        self.w.fire("hash")
        return self.v

    def __repr__(self):
        self.w.fire("repr")
        return self.w.rng.choice(["EvilObj", "", "\u20ac" * 50]) if self.w.rng.random() < 0.95 else 5

    def __del__(self):
        self.w.raising, old = 0.0, self.w.raising
        try:
            self.w.fire("del")
        finally:
            self.w.raising = old


class Truth(Base):
    def __bool__(self):
        self.w.fire("bool")
        return self.w.rng.random() < 0.5


class EvilIter(Base):
    """Iterates over v, calling back; may lie about its length."""

    def __init__(self, w, v):
        Base.__init__(self, w, v)
        self.i = 0

    def __iter__(self):
        self.w.fire("iter")
        return self

    def __next__(self):
        self.w.fire("next")
        if self.i >= len(self.v):
            raise StopIteration
        self.i += 1
        return self.v[self.i - 1]

    def __length_hint__(self):
        self.w.fire("hint")
        return self.w.rng.choice([0, len(self.v), 1, 1000, -1, 2 ** 62, 2 ** 70, 3, NotImplemented, "x"]) \
            if self.w.rng.random() < 0.5 else len(self.v)


class EvilSeq(Base):
    def __len__(self):
        self.w.fire("len")
        r = self.w.rng.random()
        return len(self.v) if r < 0.8 else self.w.rng.choice([0, 1, len(self.v) + 5, -1, 2 ** 62])

    def __getitem__(self, i):
        self.w.fire("getitem")
        return self.v[i]


class EvilListIter(list):
    w = None

    def __iter__(self):
        self.w.fire("list-iter")
        return list.__iter__(self)

    def __len__(self):
        self.w.fire("list-len")
        return list.__len__(self)

    def __getitem__(self, i):
        self.w.fire("list-getitem")
        return list.__getitem__(self, i)

    def __eq__(self, o):
        self.w.fire("list-eq")
        return list.__eq__(self, o)


def container(w):
    """A built-in container that calls back while it is compared, printed or dropped."""
    rng = w.rng
    items = [EvilObj(w, rng.randrange(3))] + [plain(w) for _ in range(rng.randrange(4))]
    r = rng.randrange(8)
    if r == 0:
        return tuple(items)
    if r > 5:
        return slice(items[0], [plain(w)], EvilObj(w, 1))
    if r == 1:
        return {i: x for i, x in enumerate(items)}
    if r == 2:
        return [items, items]
    return items


def value(w, hostile=0.5):
    """An element."""
    rng = w.rng
    if rng.random() > hostile:
        return plain(w)
    if w.kind.is_int:
        r = rng.randrange(9)
        if r == 0:
            return rng.choice([2 ** 31, -2 ** 31 - 1, 2 ** 63, -2 ** 63 - 1, 2 ** 64, 10 ** 40, -10 ** 40])
        if r == 1:
            return rng.choice([None, "a", 1.0, b"b", 1j, [], {}, object(), True, False])
        if r < 6:
            x = EvilInt(rng.randrange(-100, 100))
            x.w = w
            return x
        return EvilIndex(w, rng.randrange(-100, 100))
    r = rng.randrange(9)
    if r < 5:
        return EvilObj(w, rng.randrange(4))
    if r == 8:
        return container(w)
    if r == 5:
        return rng.choice(w.lists)
    if r == 6:
        x = EvilInt(rng.randrange(-100, 100))
        x.w = w
        return x
    return rng.choice(w.iters) if w.iters else float("nan")


def values(w, hostile=0.3):
    return [value(w, hostile) for _ in range(w.rng.choice([0, 1, 2, 3, 5, 9, 17, 40]))]


def index(w):
    rng = w.rng
    L = rng.choice(w.lists)
    i = rng.choice([0, 1, -1, 2, len(L), -len(L), len(L) - 1, -len(L) - 1, rng.randrange(-5, 40), 2 ** 31, -2 ** 31, 2 ** 62,
                    -2 ** 63, 2 ** 63 - 1, 2 ** 63, 2 ** 70, -2 ** 70])
    r = rng.random()
    if r < 0.3:
        return EvilIndex(w, i)
    if r < 0.4:
        return rng.choice([None, "a", 1.5, [], EvilIndex(w, "x"), True, object()])
    return i


def a_slice(w):
    rng = w.rng
    L = rng.choice(w.lists)

    def bound():
        r = rng.random()
        if r < 0.25:
            return None
        i = rng.choice([0, 1, 2, -1, -2, len(L), -len(L), len(L) // 2, rng.randrange(-50, 50), 2 ** 62, -2 ** 70])
        return EvilIndex(w, i) if rng.random() < 0.3 else i

    step = rng.choice([None, None, None, 1, 1, 2, -1, -3, 0, 2 ** 62, -2 ** 63, 2 ** 70])
    if step is not None and rng.random() < 0.2:
        step = EvilIndex(w, step)
    return slice(bound(), bound(), step)


def argument(w):
    """Anything where a list expects an iterable."""
    rng = w.rng
    data = values(w)
    r = rng.randrange(18)
    if r < 3:
        return data
    if r == 3:
        return tuple(data)
    if r < 6:
        return EvilIter(w, data)
    if r == 6:
        return EvilSeq(w, data)
    if r < 9:
        x = EvilListIter(data)
        x.w = w
        return x
    if r < 11:
        return rng.choice(w.lists)
    if r == 11:
        return itertools.islice(iter(rng.choice(w.lists)), rng.randrange(60))
    if r == 12:
        return itertools.islice(reversed(rng.choice(w.lists)), rng.randrange(60))
    if r == 13:
        return rng.choice([None, 5, 1.5, object(), "abc", b"abc", {}, {1: 2}, range(5), range(0), int])
    if r == 14:
        k = rng.choice(list(KINDS.values()))
        try:
            return k.cls([plain(w) if k.is_int == w.kind.is_int or not k.is_int else 3 for _ in range(rng.randrange(30))])
        except Exception:
            return []
    if r == 15:
        return (x for x in EvilIter(w, data))
    if r == 16:
        return rng.choice(w.lists)[:]
    return memoryview(rng.choice(w.lists)) if w.kind.name.endswith("IntArrayList") and rng.random() < 0.5 else data


def key_function(w):
    rng = w.rng
    r = rng.randrange(6)
    if r == 0:
        return None
    if r == 1:
        return rng.choice([5, "x", len, repr, int, str, id])

    def key(x):
        w.fire("key")
        return EvilObj(w, rng.randrange(5)) if r < 4 else rng.randrange(100)
    return key


def sort(w, L):
    kw = {}
    if w.rng.random() < 0.8:
        kw["key"] = key_function(w)
    if w.rng.random() < 0.5:
        kw["reverse"] = w.rng.choice([True, False, 1, Truth(w), EvilIndex(w, 1), None, "x"])
    L.sort(**kw)


def compare(w, L):
    other = w.rng.choice([lambda: w.rng.choice(w.lists), lambda: L.to_list(), lambda: argument(w), lambda: L.copy(),
                          lambda: mutated(w, L)])()
    r = w.rng.randrange(7)
    if r == 6:
        return other == L, other != L, other < L
    return [lambda: L == other, lambda: L != other, lambda: L < other, lambda: L <= other, lambda: L > other,
            lambda: L >= other][r]()


def mutated(w, L):
    x = L.to_list()
    if x:
        x[w.rng.randrange(len(x))] = value(w)
    y = EvilListIter(x)
    y.w = w
    return y


def iterate(w, L):
    for x in itertools.islice(iter(L) if w.rng.random() < 0.5 else reversed(L), 100):
        w.fire("body")


def iadd(w, L):
    x = L
    x += argument(w)
    return x


def half_made(w):
    """Objects whose initializer never ran, or ran twice."""
    L = w.kind.cls.__new__(w.kind.cls)
    r = w.rng.randrange(3)
    if r == 0:
        L.append(plain(w))
    elif r == 1:
        L.__init__(argument(w))
        L.__init__(argument(w))
    w.lists.append(L)
    return L


def new_iter(w, L):
    it = w.rng.choice([iter, reversed])(L)
    w.iters.append(it)
    if w.rng.random() < 0.2 and not w.kind.is_int:
        L.append(it)
    return it


def method_soup(w, L):
    """Any method with any arguments."""
    rng = w.rng
    names = [n for n in dir(type(L)) if n not in ("__class__", "__reduce__", "__reduce_ex__", "__init_subclass__",
                                                  "__subclasshook__", "__getstate__", "__del__", "__sizeof__", "__imul__",
                                                  "__mul__", "__rmul__", "__setattr__", "__delattr__", "__dir__")]
    name = rng.choice(names)
    pool = [lambda: value(w), lambda: index(w), lambda: argument(w), lambda: a_slice(w), lambda: rng.choice(w.lists),
            lambda: None, lambda: key_function(w)]
    args = [rng.choice(pool)() for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4]))]
    if name in ("resize", "__init__") and args and isinstance(args[0], int) and not 0 <= args[0] < 2 ** 20:
        args[0] = rng.choice([-1, 100, 2 ** 62])
    if name in ("__init__",) and len(args) > 1 and isinstance(args[1], int) and not 0 <= args[1] < 2 ** 20:
        args[1] = rng.choice([-1, 100, 2 ** 62])
    if name == "from_range":  # a range of billions would be built
        args = [rng.choice([0, 1, -1, 30, -30, EvilIndex(w, 5), 2 ** 70, "x"]) for _ in args]
    kw = {}
    if rng.random() < 0.15:
        kw[rng.choice(["key", "reverse", "iterable", "exceptSize", "value", "index", "start", "x"])] = rng.choice(
            [None, 5, -1, True, "x", [1]])
    w.note = "%s%.300r %r" % (name, tuple(map(type, args)), kw)
    return getattr(L, name)(*args, **kw)


def iterator_soup(w, L):
    if not w.iters:
        return new_iter(w, L)
    it = w.rng.choice(w.iters)
    name = w.rng.choice(["__next__", "__next__", "__iter__", "__length_hint__", "__repr__", "__init__", "__eq__", "__hash__",
                         "__reduce__", "__setstate__", "__new__", "type"])
    if name == "type":
        t = type(it)
        return w.rng.choice([lambda: t(), lambda: t(L), lambda: t.__new__(t), lambda: t(value(w)), lambda: next(t()),
                             lambda: next(t.__new__(t)), lambda: t.__next__(t.__new__(t)), lambda: iter(t()),
                             lambda: next(t(argument(w))), lambda: t(L, 5), lambda: next(t(L))])()
    f = getattr(it, name)
    args = [w.rng.choice([L, 5, None, value(w)]) for _ in range(w.rng.choice([0, 0, 0, 1, 1, 2]))]
    return f(*args)


CALLS = [
    ("append", lambda w, L: L.append(value(w))), ("insert", lambda w, L: L.insert(index(w), value(w))),
    ("extend", lambda w, L: L.extend(argument(w))), ("iadd", iadd), ("pop", lambda w, L: L.pop(index(w))),
    ("remove", lambda w, L: L.remove(value(w))), ("index", lambda w, L: L.index(value(w))),
    ("index3", lambda w, L: L.index(value(w), index(w), index(w))), ("count", lambda w, L: L.count(value(w))),
    ("contains", lambda w, L: value(w, 0.9) in L), ("getitem", lambda w, L: L[index(w)]),
    ("getslice", lambda w, L: L[a_slice(w)]), ("setitem", lambda w, L: L.__setitem__(index(w), value(w))),
    ("setslice", lambda w, L: L.__setitem__(a_slice(w), argument(w))), ("delitem", lambda w, L: L.__delitem__(index(w))),
    ("delslice", lambda w, L: L.__delitem__(a_slice(w))), ("add", lambda w, L: L + argument(w)),
    ("radd", lambda w, L: argument(w) + L), ("mul", lambda w, L: L * small(w)), ("imul", lambda w, L: L.__imul__(small(w))),
    ("sort", sort), ("sort", sort), ("sort", sort), ("reverse", lambda w, L: L.reverse()), ("copy", lambda w, L: L.copy()),
    ("to_list", lambda w, L: L.to_list()), ("repr", lambda w, L: (repr(L), str(L))), ("compare", compare),
    ("compare", compare), ("iterate", iterate), ("construct", lambda w, L: w.lists.append(type(L)(argument(w)))),
    ("construct-hint", lambda w, L: w.lists.append(type(L)(argument(w), small(w)))), ("reinit", lambda w, L: L.__init__(argument(w))),
    ("half-made", lambda w, L: half_made(w)), ("new-iter", new_iter), ("soup", method_soup), ("soup", method_soup),
    ("iterator", iterator_soup), ("clear", lambda w, L: L.clear()), ("hash", lambda w, L: hash(L)),
    ("resize", lambda w, L: L.resize(small(w))), ("view", lambda w, L: w.views.append(memoryview(L))),
    ("release", lambda w, L: w.views and w.views.pop().release()), ("gc", lambda w, L: gc.collect()),
    ("from_range", lambda w, L: type(L).from_range(EvilIndex(w, 3), w.rng.choice([0, 5, 100]), small(w))),
    ("subclass", lambda w, L: w.lists.append(type("Sub", (w.kind.cls,), {})(argument(w)))),
    ("kind-mix", lambda w, L: w.rng.choice(list(KINDS.values())).cls(L)),
    ("wrong-self", lambda w, L: getattr(w.kind.cls, w.rng.choice(METHODS))(w.rng.choice([5, None, [], object(), L, "x"]))),
]
METHODS = ["append", "clear", "copy", "to_list", "sort", "reverse", "pop", "__len__", "__iter__", "__repr__", "__reversed__",
           "__init__", "__getitem__", "__contains__", "__eq__", "__add__", "__imul__"]


def small(w):
    rng = w.rng
    v = rng.choice([-1, 0, 1, 2, 3, 9, -2 ** 62, 2 ** 62, 2 ** 70])
    if w.kind.linked and v == 2 ** 62:
        v = 2 ** 70  # a linked list would use up the memory node by node before it fails
    return EvilIndex(w, v) if rng.random() < 0.4 else v if rng.random() < 0.9 else "x"


def consistent(ctx, kind, L, what):
    if type(L) is not kind.cls and not isinstance(L, kind.cls):
        return
    n = len(L)
    forward = list(L)
    backward = list(reversed(L))
    backward.reverse()
    flat = L.to_list()
    whole = L[:]
    for name, got in (("reversed", backward), ("to_list", flat), ("slice", whole)):
        if len(got) != n or (kind.is_int and got != forward) or any(a is not b for a, b in zip(got, forward)
                                                                   if not kind.is_int):
            raise Violation("inconsistent-" + name, "%s: length %d, %d by iteration, %d by %s" % (
                what, n, len(forward), len(got), name))
    if len(forward) != n:
        raise Violation("inconsistent-length", "%s: length %d, %d by iteration" % (what, n, len(forward)))
    for i in (0, -1, n // 2):
        if n and (L[i] != forward[i] if kind.is_int else L[i] is not forward[i]):
            raise Violation("inconsistent-item", "%s: item %d of %d" % (what, i, n))
    if kind.is_int:
        lo, hi = kind.bounds
        for x in forward:
            if type(x) is not int or not lo <= x <= hi:
                raise Violation("inconsistent-element", "%s: %r" % (what, x))
    ctx.count("lists found consistent")


def run_case(ctx, shard, case):
    mode = shard.get("mode")
    if mode == "deep":
        return deep_case(ctx, case)
    if mode == "ending":
        return endings.case(ctx)
    if mode == "huge":
        return huge_case(ctx, case)
    kind = KINDS[shard["kind"]]
    w = World(ctx, kind)
    rng = ctx.rng
    sizes = [0, 1, 2, 5, 16, 17, 40, 64, 65, 130]
    w.quiet = True
    for _ in range(rng.choice([1, 2, 3])):
        L = kind.cls([plain(w) for _ in range(rng.choice(sizes))])
        w.lists.append(L)
    if not kind.is_int:
        for L in w.lists:
            for _ in range(rng.choice([0, 1, 3, 9])):
                L.insert(rng.randrange(len(L) + 1), EvilObj(w, rng.randrange(3)) if rng.random() < 0.7 else container(w))
    w.quiet = False
    log = []
    for step in range(30):
        name, fn = rng.choice(CALLS)
        L = rng.choice(w.lists)
        w.note = ""
        w.budget = 25
        w.fired = []
        log.append(name)
        ctx.mark("; ".join(log[-30:]))
        try:
            # half of the calls own the only reference to the list besides the program's
            r = fn(w, L)
            outcome = "returned"
            if isinstance(r, kind.cls) and rng.random() < 0.3:
                w.lists.append(r)
            r = None
        except Violation:
            raise
        except Exception as e:
            outcome = type(e).__name__
            check_exception(name + " " + w.note, e)
            if isinstance(e, RecursionError):
                outcome = "RecursionError"
        if w.note:
            ctx.mark("; ".join(log[-30:]) + " " + w.note)
        ctx.count("calls made")
        ctx.count("calls that raised", outcome != "returned")
        ctx.count("callbacks fired", len(w.fired))
        ctx.distinct(kind.name, name, outcome, tuple(sorted(set(w.fired))))
        w.quiet = True
        ctx.mark("; ".join(log[-30:]) + " consistency " + w.note)
        for x in w.lists:
            consistent(ctx, kind, x, "after " + " ".join(log[-5:]) + " " + w.note)
            if len(x) > 2500:
                try:
                    x.clear()
                except BufferError:
                    w.views.clear()
                    x.clear()
        for v in w.views:
            for x in (0, -1):
                if len(v):
                    v[x]
        w.quiet = False
        if not w.lists:
            w.lists.append(kind.cls([1, 2, 3]))
        del w.lists[6:], w.iters[8:], w.views[4:]
        x = L = None
    ctx.mark("; ".join(log[-30:]) + " end of program")
    w.quiet = True
    w.lists.clear(), w.iters.clear(), w.views.clear()
    if case % 16 == 0:
        gc.collect()
    ctx.sample(kind.name + ": " + "; ".join(log))


# -- nesting --------------------------------------------------------------------------------------
OBJ = ("ObjectArrayList", "ObjectLinkedList")
DEEP = [(k, how) for k in OBJ for how in ("drop", "gc", "repr", "eq", "search", "iterators", "mixed", "sort", "clear",
                                         "selfrepr", "selfcompare")]


def deep_case(ctx, case):
    k, how = DEEP[case]
    cls = KINDS[k].cls
    ctx.mark("%s %s" % (k, how))

    def nest(n=200000, mk=lambda x: cls([x])):
        x = cls()
        for _ in range(n):
            x = mk(x)
        return x

    def raises(fn):
        try:
            fn()
        except RecursionError:
            return
        raise Violation("deep-" + how, "%s: no RecursionError" % k)

    if how == "drop":
        x = nest()
        del x
    elif how == "gc":
        x = nest()
        bottom = x
        while len(bottom):
            bottom = bottom[0]
        bottom.append(x)
        del x, bottom
        gc.collect()
    elif how == "repr":
        x = nest()
        raises(lambda: repr(x))
        raises(lambda: str(x))
    elif how == "eq":
        x, y = nest(), nest()
        raises(lambda: x == y)
        raises(lambda: x != y)
        raises(lambda: x < y)
        raises(lambda: x >= y)
    elif how == "search":
        x, y = nest(), nest()
        raises(lambda: y[0] in x)
        raises(lambda: x.index(y[0]))
        raises(lambda: x.count(y[0]))
        raises(lambda: x.remove(y[0]))
    elif how == "iterators":
        x = nest(mk=lambda x: iter(cls([x])))
        del x
        x = nest(mk=lambda x: reversed(cls([x])))
        del x
    elif how == "mixed":
        i = [0]

        def mk(x):
            i[0] += 1
            return [lambda: [x], lambda: (x,), lambda: cls([x]), lambda: {1: x},
                    lambda: KINDS[OBJ[i[0] % 2]].cls([x, 1])][i[0] % 5]()
        x = nest(mk=mk)
        del x
    elif how == "sort":
        x, y = nest(), nest()
        L = cls([x, y])
        raises(lambda: L.sort())
    elif how == "clear":
        x = nest()
        x.clear()
        x = nest()
        x[:] = []
        x = nest()
        x.__init__()
        x = nest()
        x.pop()
        x = nest()
        del x[0]
        x = nest()
        x *= 0
    elif how == "selfrepr":
        L = cls([1])
        L.append(L)
        try:
            r = repr(L)
        except RecursionError:
            r = "..."
        if "..." not in r:
            raise Violation("deep-selfrepr", r[:300])
    else:
        L, M = cls([1]), cls([1])
        L.append(M)
        M.append(L)
        raises(lambda: L == M)
        raises(lambda: L < M)
    gc.collect()
    ctx.distinct("deep", k, how)
    ctx.sample("%s %s" % (k, how))


# -- sizes ----------------------------------------------------------------------------------------
HUGE = [2 ** 36, 2 ** 40, 2 ** 48, 2 ** 56, 2 ** 58, 2 ** 59, 2 ** 60, 2 ** 60 - 1, 2 ** 61, 2 ** 61 + 1, 2 ** 62, 2 ** 62 - 1,
        2 ** 63 - 1, 2 ** 63, 2 ** 64, 2 ** 64 + 1, 2 ** 100, -1, -2 ** 31, -2 ** 63, -2 ** 64]


def huge_case(ctx, case):
    """Requests that cannot be met raise and leave the list usable and unchanged."""
    rng = ctx.rng
    kind = list(KINDS.values())[case % 5]
    n = rng.choice(HUGE)
    base = [1, 2, 3, 4, 5, 6, 7, 8] * rng.choice([1, 2, 8])
    L = kind.cls(base)
    views = []

    class Hint:
        def __iter__(self):
            return iter(base)

        def __length_hint__(self):
            return n

    how = rng.choice(["hint", "hintkw", "hintiter", "resize", "mul", "rmul", "imul", "extendhint", "setslicehint", "insert",
                      "pop", "slice", "index", "addhint", "from_range"])
    if kind.linked and how in ("mul", "rmul", "imul") and 0 < n < 2 ** 61:
        n = 2 ** 62
    if how == "from_range" and (kind.linked or not kind.is_int):
        how = "hint"
    ctx.mark("%s %s %d" % (kind, how, n))
    keep = ("hint", "hintkw", "hintiter", "slice", "index", "addhint", "mul", "rmul", "insert", "extendhint")
    try:
        if how == "hint":
            r = kind.cls(base, n)
        elif how == "hintkw":
            r = kind.cls(exceptSize=n)
        elif how == "hintiter":
            r = kind.cls(Hint())
        elif how == "resize":
            r = L.resize(n)
        elif how == "mul":
            r = L * n
        elif how == "rmul":
            r = n * L
        elif how == "imul":
            L *= n
            r = L
        elif how == "extendhint":
            r = L.extend(Hint())
        elif how == "setslicehint":
            r = L.__setitem__(slice(2, 3), Hint())
        elif how == "insert":
            r = L.insert(n, 9)
        elif how == "pop":
            r = L.pop(n)
        elif how == "slice":
            r = L[n:-n:rng.choice([1, -1, n])]
        elif how == "index":
            r = L.index(1, n, -n) if rng.random() < 0.5 else L.index(8, -n, n)
        elif how == "addhint":
            r = L + Hint()
        else:
            r = kind.cls.from_range(rng.choice([0, n, -n]), rng.choice([n, -n]), rng.choice([1, -1]))
        outcome = "returned"
    except SystemError as e:
        raise Violation("huge-systemerror", "%s %s(%d): %r" % (kind, how, n, e))
    except Exception as e:
        outcome = type(e).__name__
        if L.to_list() != base and how != "extendhint":
            raise Violation("huge-changed-" + how, "%s %s(%d) raised %r and left %.200r" % (kind, how, n, e, L.to_list()))
    r = None
    L.append(7)
    L.reverse()
    consistent(ctx, kind, L, "%s %s %d" % (kind, how, n))
    ctx.count("requests for huge sizes")
    ctx.count("huge requests refused", outcome != "returned")
    ctx.distinct("huge", kind.name, how, n, outcome)
    ctx.sample("%s %s(%d) %s" % (kind, how, n, outcome))
