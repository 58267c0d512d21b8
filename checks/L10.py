"""L10: faults injected at every step of every operation, bad arguments, and failing allocations."""
import collections
import functools
import ctypes
import gc
import sys

from lib import failing, large, lists
from lib.lists import KINDS, diff, same_items
from lib.monitor import Violation

RULE = ("Fault cases run one operation whose arguments count their callbacks (iteration, item access, length, hints, index "
        "conversion, comparison, key, truth, repr), then run it again on a fresh list once for every callback with an "
        "exception raised there. Argument cases call every method with wrong argument counts, keywords and types. "
        "Allocation cases make each single allocation (and every allocation from some point on) of one operation fail. "
        "Monitors: the raised exception (the very object the callback raised where the property promises it), never "
        "SystemError, never a result together with an error; contents before and after; the list usable afterwards; in "
        "allocation cases also every element's reference count. distinct_nontrivial counts distinct (type, operation, "
        "size, fault point, outcome).")
ASSUMPTIONS = ["the host interpreter survives its own failing allocations in the few API calls it makes inside an operation",
               "a raising or absurd length hint may be reported or ignored"]


def shards(tier, seed):
    n = {"quick": 2600, "thorough": 50000}[tier]
    env = failing.shard_env()
    r = []
    for k in KINDS:
        r.append(dict(name="faults-" + k, kind=k, lo=0, hi=n, split=3, mode="faults"))
        r.append(dict(name="asan-faults-" + k, kind=k, variant="asan", lo=0, hi=n // 8, split=2, mode="faults"))
        r.append(dict(name="arguments-" + k, kind=k, lo=0, hi=n, split=2, mode="arguments"))
        r.append(dict(name="allocations-" + k, kind=k, lo=0, hi=len(ALLOC) * (4 if tier == "quick" else 40), split=2,
                      mode="alloc", env=env))
        r.append(dict(name="unmeetable-" + k, kind=k, lo=0, hi=n // 4, split=1, mode="unmeetable", env=env))
    r += large.shards("fails", KINDS, tier)
    return r


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


class Tracker:
    def __init__(self):
        self.n = 0
        self.at = 0
        self.exc = None
        self.label = None
        self.delivered = 0
        self.labels = []

    def fire(self, label):
        self.n += 1
        self.labels.append(label)
        if self.n == self.at:
            self.label = label
            raise self.exc


class TIter:
    def __init__(self, t, data, hint=True):
        self.t, self.data, self.i, self.hint = t, data, 0, hint

    def __iter__(self):
        self.t.fire("iter")
        return self

    def __next__(self):
        self.t.fire("next")
        if self.i == len(self.data):
            raise StopIteration
        self.i += 1
        self.t.delivered += 1
        return self.data[self.i - 1]

    def __length_hint__(self):
        self.t.fire("hint")
        return len(self.data) if self.hint else 3


class TSeq:
    def __init__(self, t, data):
        self.t, self.data = t, data

    def __len__(self):
        self.t.fire("len")
        return len(self.data)

    def __getitem__(self, i):
        self.t.fire("getitem")
        v = self.data[i]
        self.t.delivered += 1
        return v


class TList(list):
    """A list subclass with its own iteration."""
    t = None

    def __iter__(self):
        self.t.fire("iter")
        for x in list.__iter__(self):
            self.t.fire("next")
            self.t.delivered += 1
            yield x
        self.t.fire("next")


class TIndex:
    def __init__(self, t, v):
        self.t, self.v = t, v

    def __index__(self):
        self.t.fire("index")
        return self.v


class TTruth:
    def __init__(self, t, v=True):
        self.t, self.v = t, v

    def __bool__(self):
        self.t.fire("truth")
        return self.v


class TObj:
    """An element whose comparisons are counted."""
    __slots__ = ("t", "v", "truth")

    def __init__(self, t, v, truth=False):
        self.t, self.v, self.truth = t, v, truth

    def answer(self, r):
        return TTruth(self.t, r) if self.truth else r

    def __eq__(self, o):
        self.t.fire("eq")
        return self.answer(isinstance(o, TObj) and self.v == o.v)

    def __lt__(self, o):
        self.t.fire("lt")
        return self.answer(self.v < o.v) if isinstance(o, TObj) else NotImplemented

    def __gt__(self, o):
        self.t.fire("gt")
        return self.answer(self.v > o.v) if isinstance(o, TObj) else NotImplemented

    def __le__(self, o):
        self.t.fire("le")
        return self.answer(self.v <= o.v) if isinstance(o, TObj) else NotImplemented

    def __ge__(self, o):
        self.t.fire("ge")
        return self.answer(self.v >= o.v) if isinstance(o, TObj) else NotImplemented

    def __hash__(self):
        return self.v

    def __repr__(self):
        self.t.fire("repr")
        return "TObj"


# label classes whose exception has to arrive as the very same object
EXACT = ("iter", "next", "getitem", "eq", "lt", "gt", "le", "ge", "key", "truth")

# name -> (applies to, fn(L, t, data, p) ); p holds random parameters, data the new elements
ANY, OBJ, INT, ARR = (lambda k: True), (lambda k: not k.is_int), (lambda k: k.is_int), (lambda k: k.resize)


def setitem(L, i, v):
    L[i] = v


def delitem(L, i):
    del L[i]


def iadd(L, x):
    L += x


def imul(L, x):
    L *= x


def tlist(t, data):
    x = TList(data)
    x.t = t
    return x


def keyfn(t, f):
    def key(x):
        t.fire("key")
        return f(x)
    return key


def num(x):
    return x.v if isinstance(x, TObj) else x if isinstance(x, int) else 0


FAULTS = {
    "extend-iter": (ANY, "grow", lambda L, t, d, p: L.extend(TIter(t, d))),
    "extend-iter-hint": (ANY, "grow", lambda L, t, d, p: L.extend(TIter(t, d, False))),
    "extend-seq": (ANY, "grow", lambda L, t, d, p: L.extend(TSeq(t, d))),
    "extend-listsub": (ANY, "grow", lambda L, t, d, p: L.extend(tlist(t, d))),
    "iadd-iter": (ANY, "grow", lambda L, t, d, p: iadd(L, TIter(t, d))),
    "iadd-seq": (ANY, "grow", lambda L, t, d, p: iadd(L, TSeq(t, d))),
    "iadd-listsub": (ANY, "grow", lambda L, t, d, p: iadd(L, tlist(t, d))),
    "add-listsub": (ANY, "same", lambda L, t, d, p: L + tlist(t, d)),
    "setslice-iter": (ANY, "same", lambda L, t, d, p: setitem(L, slice(p[0], p[1]), TIter(t, d))),
    "setslice-seq": (ANY, "same", lambda L, t, d, p: setitem(L, slice(p[0], p[1]), TSeq(t, d))),
    "setslice-listsub": (ANY, "same", lambda L, t, d, p: setitem(L, slice(p[0], p[1]), tlist(t, d))),
    "setslice-bounds": (ANY, "same", lambda L, t, d, p: setitem(L, slice(TIndex(t, p[0]), TIndex(t, p[1]), TIndex(t, 1)), d)),
    "delslice-bounds": (ANY, "same", lambda L, t, d, p: delitem(L, slice(TIndex(t, p[0]), TIndex(t, p[1]), TIndex(t, 1)))),
    "getslice-bounds": (ANY, "same", lambda L, t, d, p: L[TIndex(t, p[0]):TIndex(t, p[1]):TIndex(t, p[2])]),
    "construct-iter": (ANY, "same", lambda L, t, d, p: type(L)(TIter(t, d))),
    "construct-seq": (ANY, "same", lambda L, t, d, p: type(L)(TSeq(t, d))),
    "construct-listsub": (ANY, "same", lambda L, t, d, p: type(L)(tlist(t, d))),
    "reinit-iter": (ANY, "init", lambda L, t, d, p: L.__init__(TIter(t, d))),
    "reinit-seq": (ANY, "init", lambda L, t, d, p: L.__init__(TSeq(t, d))),
    "insert-index": (ANY, "same", lambda L, t, d, p: L.insert(TIndex(t, p[0]), (d or [0])[0])),
    "pop-index": (ANY, "same", lambda L, t, d, p: L.pop(TIndex(t, p[0]))),
    "getitem-index": (ANY, "same", lambda L, t, d, p: L[TIndex(t, p[0])]),
    "setitem-index": (ANY, "same", lambda L, t, d, p: setitem(L, TIndex(t, p[0]), (d or [0])[0])),
    "delitem-index": (ANY, "same", lambda L, t, d, p: delitem(L, TIndex(t, p[0]))),
    "index-bounds": (ANY, "same", lambda L, t, d, p: L.index((d or [0])[0], TIndex(t, p[0]), TIndex(t, p[1]))),
    "mul": (ANY, "same", lambda L, t, d, p: L * TIndex(t, 3)),
    "rmul": (ANY, "same", lambda L, t, d, p: TIndex(t, 3) * L),
    "imul": (ANY, "same", lambda L, t, d, p: imul(L, TIndex(t, p[2] % 4))),
    "resize": (ARR, "same", lambda L, t, d, p: L.resize(TIndex(t, p[0] % 50))),
    "hint-arg": (ARR, "same", lambda L, t, d, p: type(L)(d, TIndex(t, 5))),
    "sort-key": (ANY, "permutation", lambda L, t, d, p: L.sort(key=keyfn(t, lambda x: num(x) * 7 % 11), reverse=p[0] % 2 == 0)),
    "sort-key-compare": (ANY, "permutation", lambda L, t, d, p: L.sort(key=keyfn(t, lambda x: TObj(t, num(x) * 7 % 11)))),
    "sort-reverse": (ANY, "permutation", lambda L, t, d, p: L.sort(reverse=TTruth(t))),
    "append-index": (INT, "same", lambda L, t, d, p: L.append(TIndex(t, 5))),
    "insert-value-index": (INT, "same", lambda L, t, d, p: L.insert(p[0], TIndex(t, 5))),
    "setitem-value-index": (INT, "same", lambda L, t, d, p: setitem(L, p[0], TIndex(t, 5))),
    "remove-index": (INT, "same", lambda L, t, d, p: L.remove(TIndex(t, 5))),
    "from_range": (INT, "same", lambda L, t, d, p: type(L).from_range(TIndex(t, 0), TIndex(t, 50), TIndex(t, 3))),
    "sort-compare": (OBJ, "permutation", lambda L, t, d, p: L.sort(reverse=p[0] % 2 == 0)),
    "contains": (OBJ, "same", lambda L, t, d, p: TObj(t, p[3]) in L),
    "index": (OBJ, "same", lambda L, t, d, p: L.index(TObj(t, p[3]))),
    "count": (OBJ, "same", lambda L, t, d, p: L.count(TObj(t, p[3]))),
    "remove": (OBJ, "same", lambda L, t, d, p: L.remove(TObj(t, p[3]))),
    "eq": (ANY, "same", lambda L, t, d, p: L == [TObj(t, num(x)) for x in tuple(L)]),
    "ne": (ANY, "same", lambda L, t, d, p: L != [TObj(t, num(x)) for x in tuple(L)]),
    "lt": (OBJ, "same", lambda L, t, d, p: L < [TObj(t, x.v) for x in tuple(L)[:-1]] + [TObj(t, 99)]),
    "le": (OBJ, "same", lambda L, t, d, p: L <= [TObj(t, x.v) for x in tuple(L)[:-1]] + [TObj(t, 99)]),
    "gt": (OBJ, "same", lambda L, t, d, p: L > [TObj(t, x.v) for x in tuple(L)[:-1]] + [TObj(t, -9)]),
    "ge": (OBJ, "same", lambda L, t, d, p: L >= [TObj(t, x.v) for x in tuple(L)[:-1]] + [TObj(t, -9)]),
    "eq-same": (OBJ, "same", lambda L, t, d, p: L == type(L)([TObj(t, x.v) for x in tuple(L)])),
    "lt-same": (OBJ, "same", lambda L, t, d, p: L < type(L)([TObj(t, x.v) for x in tuple(L)[:-1]] + [TObj(t, 99)])),
    "repr": (OBJ, "same", lambda L, t, d, p: repr(L)),
    "str": (OBJ, "same", lambda L, t, d, p: str(L)),
}
EXCEPTIONS = [Boom, Boom, TypeError, ValueError, OverflowError, KeyError, AttributeError, MemoryError, BaseBoom, RuntimeError,
              KeyboardInterrupt]


def run_case(ctx, shard, case):
    if shard.get("mode") == "large":
        return large.run(ctx, shard)
    kind = KINDS[shard["kind"]]
    if shard["mode"] == "unmeetable":
        return unmeetable_case(ctx, kind)
    globals()[shard["mode"] + "_case"](ctx, kind, case)


def faults_case(ctx, kind, case):
    rng = ctx.rng
    names = [n for n, f in FAULTS.items() if f[0](kind)]
    name = names[case % len(names)]
    _, effect, fn = FAULTS[name]
    n = rng.choice([0, 1, 2, 3, 5, 8, 17, 33, 66])
    m = rng.choice([0, 1, 2, 3, 6, 20])
    if rng.random() < 0.03:  # paths that only longer lists take
        n, m = rng.choice([(300, 40), (1100, 5), (2500, 600), (40, 1100)])
    truth = rng.random() < 0.2
    p = [rng.randrange(-n, n) if n else 0, rng.randrange(-n - 1, n + 2), rng.choice([1, 2, -1, 3]), rng.randrange(-1, 5)]
    numbers, extra = [rng.randrange(6) for _ in range(n)], [rng.randrange(6) for _ in range(m)]

    def make():
        t = Tracker()
        if kind.is_int:
            base, new = numbers[:], extra[:]
        else:
            base, new = [TObj(t, v, truth) for v in numbers], [TObj(t, v, truth) for v in extra]
        return t, base, new, kind.cls(base)

    what = "%s: %s, %d elements, %d new, %r" % (kind, name, n, m, p)
    ctx.mark(what)
    t, base, new, L = make()
    L0 = L.to_list()
    try:
        fn(L, t, new, p)
    except SystemError as e:
        raise Violation("systemerror-" + name, "%s: %r" % (what, e))
    except Exception as e:
        # fails without any fault: nothing may change then
        if not same_items(kind, L.to_list(), L0) and effect == "same":
            raise Violation("changed-" + name, "%s raised %r: %s" % (what, e, diff(L.to_list(), L0)))
        ctx.count("operations that fail by themselves")
    total = t.n
    points = list(range(1, total + 1))
    if total > 40:
        points = points[:12] + rng.sample(points[12:-6], 18) + points[-6:]
    for at in points:
        exc = rng.choice(EXCEPTIONS)("injected")
        t, base, new, L = make()
        t.at, t.exc = at, exc
        ctx.mark("%s, fault %d %s" % (what, at, type(exc).__name__))
        raised = None
        try:
            fn(L, t, new, p)
        except BaseException as e:
            raised = e
            e.__traceback__ = None
        label = t.label
        at_text = "%s, %s raised at callback %d (%s)" % (what, type(exc).__name__, at, label)
        if label is None:  # randomness of the host (never expected)
            continue
        if isinstance(raised, SystemError):
            raise Violation("systemerror-" + name, "%s: %r" % (at_text, raised))
        if label in EXACT and raised is not exc:
            # list itself words a TypeError of __iter__ anew
            if not (label == "iter" and isinstance(exc, TypeError) and isinstance(raised, TypeError)):
                raise Violation("exception-" + name, "%s: the caller got %r" % (at_text, raised))
        if raised is None and label not in ("hint", "len", "index"):
            raise Violation("swallowed-" + name, at_text)
        if raised is None and label == "index" and name not in ("eq", "ne"):
            raise Violation("swallowed-" + name, at_text)
        if raised is not None and not isinstance(raised, Exception) and raised is not exc:
            raise Violation("exception-" + name, "%s: %r" % (at_text, raised))
        t.at = 0
        after = L.to_list()
        check_after(kind, effect, name, at_text, base, new, after, t.delivered, raised)
        if len(L) != len(after) or not same_items(kind, list(reversed(L))[::-1], after):
            raise Violation("inconsistent-" + name, at_text)
        L.append(base[0] if base else (1 if kind.is_int else None))
        L.pop()
        if not same_items(kind, list(L), after):
            raise Violation("unusable-" + name, at_text)
        # nothing of the failure is left behind: the same call now does what it does to a new list
        twin = kind.cls(after)
        if rng.random() < 0.5:
            got, want = again(fn, L, t, new, p), again(fn, twin, t, new, p)
            if got != want or not same_items(kind, L.to_list(), twin.to_list()):
                raise Violation("afterwards-" + name, "%s; the same call then gave %.200r instead of %.200r: %s" % (
                    at_text, got, want, diff(L.to_list(), twin.to_list())))
        elif not kind.is_int and again(lambda a, *_: repr(a), L, t, new, p) != again(lambda a, *_: repr(a), twin, t, new, p):
            raise Violation("afterwards-repr-" + name, at_text)
        ctx.count("faults injected")
        ctx.count("faults at " + label)
        ctx.distinct(kind.name, name, n, m, at, label, type(raised).__name__)
    ctx.sample("%s: %d callbacks" % (what, total))


def again(fn, L, t, new, p):
    try:
        r = fn(L, t, new, p)
    except Exception as e:
        return type(e).__name__
    return r if type(r) in (str, int, bool) else [num(x) for x in r] if type(r) is list else type(r).__name__


def check_after(kind, effect, name, text, base, new, after, delivered, raised):
    if raised is None:
        return
    ok = True
    want = base
    if effect == "same":
        ok = same_items(kind, after, base)
    elif effect == "grow":
        # the elements taken before the failure stay, as for list
        k = len(after) - len(base)
        ok = 0 <= k <= len(new) and same_items(kind, after, base + new[:k]) and k == delivered
        want = base + new[:delivered]
    elif effect == "permutation":
        if kind.is_int:
            ok = sorted(after) == sorted(base)
        else:
            ok = sorted(map(id, after)) == sorted(map(id, base))
        want = sorted(base, key=num)
    elif effect == "init":
        ok = same_items(kind, after, base) or same_items(kind, after, new[:len(after)])
    if not ok:
        raise Violation("changed-" + name, "%s: the list then held %s" % (
            text, diff([num(x) for x in after], [num(x) for x in want])))


# -- wrong arguments ------------------------------------------------------------------------------
COUNTS = {"append": (1, 1), "extend": (1, 1), "insert": (2, 2), "pop": (0, 1), "remove": (1, 1), "index": (1, 3),
          "count": (1, 1), "clear": (0, 0), "copy": (0, 0), "to_list": (0, 0), "reverse": (0, 0), "resize": (1, 1),
          "sort": (0, 2), "__init__": (0, 2), "__contains__": (1, 1), "__getitem__": (1, 1), "__setitem__": (2, 2),
          "__delitem__": (1, 1), "__mul__": (1, 1), "__add__": (1, 1), "__iadd__": (1, 1), "__imul__": (1, 1),
          "from_range": (1, 3), "__len__": (0, 0), "__iter__": (0, 0), "__reversed__": (0, 0), "__rmul__": (1, 1),
          "__eq__": (1, 1), "__lt__": (1, 1), "__ge__": (1, 1), "__repr__": (0, 0), "__hash__": (0, 0)}
NOT_INT = [None, "a", "", b"x", 1.0, 1.5, 1j, [], [1], (), {}, object(), float("nan"), type, Ellipsis]
NOT_ITER = [None, 5, -1, 1.5, object(), 1j, len, NotImplemented]
HUGE = [2 ** 63, -2 ** 63 - 1, 2 ** 64, 2 ** 100, -2 ** 100]


def arguments_case(ctx, kind, case):
    rng = ctx.rng
    n = rng.choice([0, 1, 2, 5, 17])
    values = lists.Values(rng, kind)
    base = values.many(n)
    L = kind.cls(base)
    mode = rng.choice(["count", "keyword", "type", "type", "type"])
    names = [m for m in COUNTS if hasattr(L, m)]
    must = True
    kw = {}
    effect = "same"
    name = rng.choice(names)
    if mode == "count":
        lo, hi = COUNTS[name]
        count = rng.choice([c for c in (0, 1, 2, 3, 4, 5, 9) if not lo <= c <= hi])
        args = tuple(rng.choice([0, 1, base, None, "x", values.one()]) for _ in range(count))
        if name == "sort" and all(a is None or a in (0, 1) for a in args if not isinstance(a, (list, str))):
            pass
    elif mode == "keyword":
        name = rng.choice([m for m in names if not m.startswith("__") and m not in ("sort",)])
        lo, hi = COUNTS[name]
        args = tuple(values.one() for _ in range(max(0, lo - rng.randrange(2))))
        kw = {rng.choice(["value", "index", "iterable", "x", "stop", "obj", "nothing"]): rng.choice([0, base, 1])}
        effect = "same"
    else:
        bad_index = rng.choice(NOT_INT + [None])
        if isinstance(bad_index, bool):
            bad_index = "x"
        bad_iter = rng.choice(NOT_ITER)
        table = [
            ("pop", (bad_index,)), ("insert", (bad_index, values.one())), ("__getitem__", (bad_index,)),
            ("__setitem__", (bad_index, values.one())), ("__delitem__", (bad_index,)), ("extend", (bad_iter,)),
            ("index", (values.one(), bad_index)), ("index", (values.one(), 0, bad_index)), ("sort", ()),
            ("__getitem__", (slice(0, rng.choice(["a", 1.5, []])),)), ("__getitem__", (slice(None, None, 0),)),
            ("__setitem__", (slice(0, 1), bad_iter)), ("pop", (n + rng.randrange(3),)), ("pop", (-n - 1,)),
            ("__getitem__", (n,)), ("__setitem__", (n, values.one())), ("__delitem__", (-n - 1,)),
            ("__getitem__", (rng.choice(HUGE),)), ("__setitem__", (rng.choice(HUGE), values.one())), ("__delitem__", (rng.choice(HUGE),)),
            ("pop", (rng.choice(HUGE),)), ("remove", (rng.choice(["absent", 12345678]) if not kind.is_int else 12345678,)),
            ("index", (12345678,)), ("__hash__", ()),
        ]
        if kind.resize:
            table += [("resize", (bad_index,)), ("resize", (-1 - rng.randrange(5),)), ("resize", (rng.choice(HUGE),)),
                      ("__init__", ([], rng.choice(["x", 1.5, []])))]
        if kind.is_int:
            v = rng.choice([x for x in NOT_INT] + [kind.bounds[1] + 1, kind.bounds[0] - 1, 2 ** 64, -2 ** 70])
            k = rng.randrange(-n, n) if n else 0
            good = values.many(rng.randrange(4))
            table += [("append", (v,)), ("insert", (0, v)), ("extend", ([v],)), ("__setitem__", (slice(0, 2), good + [v])),
                      ("__setitem__", (k, v)), ("remove", (v,)), ("index", (v,)), ("extend", ((x for x in good + [v]),)),
                      ("__iadd__", ([v],)), ("__init__", ([v],)), ("extend", ((v,),)), ("from_range", (v,)),
                      ("from_range", (0, v)), ("from_range", (0, 5, rng.choice([0, "x", 1.5, None]))),
                      ("extend", (good + [v],)), ("extend", (tuple(good) + (v,),))]
        name, args = rng.choice(table)
        if name == "sort":
            kw = rng.choice([{"key": 5}, {"key": "x"}, {"nokey": 1}, {"reverse": 0, "x": 1}]) if n else {"nokey": 1}
        if name == "from_range" and isinstance(args[-1], int) and not isinstance(args[-1], bool) and len(args) < 3 \
                and args[-1] <= 0:
            must = False  # an empty range
    if name in ("extend", "__iadd__"):
        effect = "grow"
    if name == "sort":
        effect = "permutation"
    if name == "__init__":
        effect = "init"
    what = "%s of %d: %s%.200r %r (%s)" % (kind, n, name, args, kw, mode)
    ctx.mark(what)
    raised = None
    try:
        if name in ("__eq__", "__lt__", "__ge__", "__iadd__", "__imul__", "__mul__", "__add__", "__init__") and mode == "count":
            r = getattr(L, name)(*args, **kw)
        else:
            r = getattr(L, name)(*args, **kw)
        if r is NotImplemented:
            must = False
    except SystemError as e:
        raise Violation("systemerror-" + name, "%s: %r" % (what, e))
    except Exception as e:
        raised = e
    if raised is None and must:
        raise Violation("accepted-" + name, "%s: no exception" % what)
    if raised is not None and mode in ("count", "keyword") and not isinstance(raised, TypeError):
        raise Violation("exception-" + name, "%s: %r instead of a TypeError" % (what, raised))
    if raised is not None and mode == "type" and isinstance(raised, (MemoryError,)):
        pass
    after = L.to_list()
    if raised is not None:
        if effect == "same":
            ok = same_items(kind, after, base)
        elif effect == "grow":
            ok = same_items(kind, after[:n], base) and len(after) <= n + 4
        elif effect == "permutation":
            ok = sorted(map(id, after)) == sorted(map(id, base)) if not kind.is_int else sorted(after) == sorted(base)
        else:
            ok = True
        if not ok:
            raise Violation("changed-" + name, "%s raised %r: %s" % (what, raised, diff(after, base)))
    if not same_items(kind, list(reversed(L))[::-1], after) or len(L) != len(after):
        raise Violation("inconsistent-" + name, what)
    ctx.count("bad calls made")
    ctx.distinct("bad", kind.name, mode, name, tuple(type(a).__name__ for a in args), sorted(kw), type(raised).__name__)


# -- allocations ----------------------------------------------------------------------------------
def _method(name, *make):
    """The bound method and its arguments, prepared outside the armed window."""
    def build(kind, L, v):
        return getattr(L, name), [m(kind, L, v) if callable(m) else m for m in make], {}
    return build


def _new(kind, L, v):
    return [x for x in v[:9]]


ALLOC = {
    "append": ("same", _method("append", lambda k, L, v: v[0])),
    "append*": ("grow", lambda k, L, v: (collections.deque, [map(L.append, v[:40]), 0], {})),
    "extend-list": ("grow", _method("extend", _new)), "extend-tuple": ("grow", _method("extend", lambda k, L, v: tuple(v[:9]))),
    "extend-same": ("grow", _method("extend", lambda k, L, v: k.cls(v[:9]))), "extend-iter": ("grow", _method("extend", lambda k, L, v: iter(v[:9]))),
    "extend-self": ("grow", lambda k, L, v: (L.extend, [L], {})), "iadd": ("grow", _method("__iadd__", _new)),
    "insert": ("same", _method("insert", 0, lambda k, L, v: v[0])), "pop": ("same", _method("pop")), "pop0": ("same", _method("pop", 0)),
    "remove": ("same", _method("remove", lambda k, L, v: L[len(L) // 2] if len(L) else v[0])), "index": ("same", _method("index", lambda k, L, v: v[0])),
    "count": ("same", _method("count", lambda k, L, v: v[0])), "contains": ("same", _method("__contains__", lambda k, L, v: v[0])),
    "getitem": ("same", _method("__getitem__", -1)), "getslice": ("same", _method("__getitem__", slice(1, 90))),
    "getslice-step": ("same", _method("__getitem__", slice(None, None, -2))), "setitem": ("same", _method("__setitem__", 0, lambda k, L, v: v[0])),
    "delitem": ("same", _method("__delitem__", 0)), "setslice": ("same", _method("__setitem__", slice(1, 3), _new)),
    "setslice-same": ("same", _method("__setitem__", slice(1, 3), lambda k, L, v: k.cls(v[:9]))),
    "setslice-self": ("same", lambda k, L, v: (L.__setitem__, [slice(1, 3), L], {})),
    "setslice-iter": ("same", _method("__setitem__", slice(0, 4), lambda k, L, v: iter(v[:9]))),
    "setslice-all": ("same", _method("__setitem__", slice(None), lambda k, L, v: v[:40])),
    "setslice-all-tuple": ("same", _method("__setitem__", slice(None), lambda k, L, v: tuple(v[:20]))),
    "setslice-all-self": ("same", lambda k, L, v: (L.__setitem__, [slice(None), L], {})),
    "setslice-tail": ("same", _method("__setitem__", slice(-1, None), lambda k, L, v: v[:50])),
    "setslice-head": ("same", _method("__setitem__", slice(0, 0), lambda k, L, v: v[:50])),
    "delslice-all": ("same", _method("__delitem__", slice(None))), "delslice-half": ("same", _method("__delitem__", slice(None, None, 2))),
    "delslice": ("same", _method("__delitem__", slice(1, 5))), "add-same": ("same", _method("__add__", lambda k, L, v: k.cls(v[:9]))),
    "add-list": ("same", _method("__add__", _new)), "mul": ("same", _method("__mul__", 3)), "imul": ("same", _method("__imul__", 3)),
    "imul0": ("same", _method("__imul__", 0)), "reverse": ("same", _method("reverse")), "clear": ("same", _method("clear")),
    "copy": ("same", _method("copy")), "to_list": ("same", _method("to_list")), "repr": ("same", _method("__repr__")),
    "sort": ("permutation", _method("sort")), "sort-key": ("permutation", lambda k, L, v: (functools.partial(L.sort, key=str), [], {})),
    "eq": ("same", lambda k, L, v: (L.__eq__, [L.to_list()], {})), "lt": ("same", lambda k, L, v: (L.__lt__, [L.to_list()], {})),
    "iter": ("same", _method("__iter__")), "reversed": ("same", lambda k, L, v: (reversed, [L], {})),
    "list": ("same", lambda k, L, v: (list, [L], {})), "tuple": ("same", lambda k, L, v: (tuple, [L], {})),
    "construct": ("same", lambda k, L, v: (k.cls, [v], {})), "construct-same": ("same", lambda k, L, v: (k.cls, [L], {})),
    "construct-iter": ("same", lambda k, L, v: (k.cls, [iter(v)], {})), "construct-tuple": ("same", lambda k, L, v: (k.cls, [tuple(v)], {})),
    "construct-hint": ("same", lambda k, L, v: (k.cls, [v, 100] if k.resize else [v], {})), "construct-none": ("same", lambda k, L, v: (k.cls, [], {})),
    "reinit": ("init", lambda k, L, v: (L.__init__, [v[:9]], {})), "from_range": ("same", lambda k, L, v: (getattr(k.cls, "from_range", list), [range(9)] if not k.is_int else [0, 50, 3], {})),
    "resize": ("same", lambda k, L, v: (getattr(L, "resize", L.copy), [300] if k.resize else [], {})),
    "view": ("same", lambda k, L, v: (memoryview, [L], {}) if k.is_int and k.resize else (len, [L], {})),
}


def alloc_case(ctx, kind, case):
    rng = ctx.rng
    fm = failing.module() if not hasattr(alloc_case, "fm") else alloc_case.fm
    alloc_case.fm = fm
    name = list(ALLOC)[case % len(ALLOC)]
    effect, build = ALLOC[name]
    n = rng.choice([0, 1, 2, 8, 16, 33, 64])
    if rng.random() < 0.06:
        n = rng.choice([300, 1100, 2500])
    if kind.is_int:
        pool = [rng.randint(*kind.bounds) for _ in range(60)]
    else:
        pool = ["E%d" % i for i in range(60)]  # no Python code runs while allocations fail
    base = [rng.choice(pool) for _ in range(n)]
    new = [rng.choice(pool) for _ in range(60)]
    what = "%s of %d: %s" % (kind, n, name)
    model = None
    ident = (lambda x: x) if kind.is_int else id

    def once(at, mode):
        nonlocal model
        L = kind.cls(base)
        fn, args, kw = build(kind, L, new)
        before = [sys.getrefcount(o) for o in pool] if not kind.is_int else None
        gc.disable()
        seen, failures, raised, value = fm.call(at, mode, fn, *args)
        gc.enable()
        text = "%s, allocation %d of the call failing (mode %d)" % (what, at, mode)
        if raised == 2:
            raise Violation("both-" + name, "%s: a result together with an error" % text)
        if raised == 3:
            raise Violation("neither-" + name, "%s: no result and no error" % text)
        if raised and failures == 0 and name in ALWAYS:
            raise Violation("failed-" + name, "%s: %r without any failing allocation" % (what, value))
        if raised and isinstance(value, SystemError):
            raise Violation("systemerror-" + name, "%s: %r" % (text, value))
        if raised and failures and not isinstance(value, (MemoryError, RuntimeError, ValueError, IndexError)):
            raise Violation("exception-" + name, "%s: %r" % (text, value))
        after = L.to_list()
        if raised:
            if isinstance(value, BaseException):
                value.__traceback__ = None
            ok = same_items(kind, after, base)
            if effect == "grow":
                k = len(after) - n
                ok = k >= 0 and same_items(kind, after[:n], base)
                if name not in ("extend-self",):
                    ok = ok and same_items(kind, after[n:], new[:k])
            elif effect == "permutation":
                ok = sorted(after, key=str) == sorted(base, key=str)
            elif effect == "init":
                ok = ok or same_items(kind, after, new[:len(after)])
            if not ok:
                raise Violation("changed-" + name, "%s raised %r: %s" % (text, value, diff(after, base)))
        elif mode == 0:
            model = [ident(x) for x in after]
        elif [ident(x) for x in after] != model:
            raise Violation("wrong-" + name, "%s returned, but left something else than without the failure: %d elements "
                            "instead of %d, or others" % (text, len(after), len(model)))
        shape = type(value).__name__
        if name != "construct" and raised == 0 and value is L:
            shape = "self"
        value = None
        if len(L) != len(after) or not same_items(kind, list(reversed(L))[::-1], after):
            raise Violation("inconsistent-" + name, text)
        if before is not None:
            held = {}
            for o in base:
                held[id(o)] = held.get(id(o), 0) - 1
            for o in after:
                held[id(o)] = held.get(id(o), 0) + 1
            del after
            o = None
            for o, b in zip(pool, before):
                c = sys.getrefcount(o) - 1  # the loop variable
                if c != b + held.get(id(o), 0):
                    # iterators given as arguments let go of what they held
                    if name.endswith("iter") or name == "append*":
                        continue
                    raise Violation("references-" + name, "%s: reference count of an element changed by %d, its positions "
                                    "by %d" % (text, c - b, held.get(id(o), 0)))
        L.extend(base[:3])
        L.reverse()
        L.clear()
        ctx.count("allocations made to fail", failures)
        ctx.distinct("alloc", kind.name, name, n, at if at < 20 else at // 10, mode, raised, shape)
        return seen, failures

    ctx.mark(what)
    seen, _ = once(0, 0)
    points = list(range(1, seen + 1))
    if len(points) > 30:
        points = points[:10] + rng.sample(points[10:-4], 12) + points[-4:]
    for mode in (1, 2):
        for at in points:
            ctx.mark("%s, allocation %d mode %d" % (what, at, mode))
            once(at, mode)
    ctx.count("operations run with failing allocations")
    ctx.sample("%s: %d allocations" % (what, seen))


class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


mallinfo2 = getattr(ctypes.CDLL(None), "mallinfo2", None)
if mallinfo2 is not None:
    mallinfo2.restype = Mallinfo


def in_use():
    """Bytes handed out by malloc."""
    if mallinfo2 is None:
        return 0
    m = mallinfo2()
    return m.uordblks + m.hblkhd


def unmeetable_case(ctx, kind):
    """Sizes no machine can hold; the lists that grow element by element meet a failing allocation early."""
    rng = ctx.rng
    fm = failing.module() if not hasattr(alloc_case, "fm") else alloc_case.fm
    alloc_case.fm = fm
    n = rng.choice([1, 2, 3, 5, 8, 16, 33, 64])
    base = [rng.randint(*kind.bounds) if kind.is_int else "E%d" % rng.randrange(40) for _ in range(n)]
    subject = kind.cls(base)
    name = rng.choice(["mul", "mul", "imul", "imul", "rmul"] + ["resize", "hint"] * kind.resize)
    p = 2 ** rng.choice([31, 32, 32, 33, 34, 40, 48, 61, 62, 63])
    k = rng.choice([p, p + rng.randrange(1, 9), p - rng.randrange(1, 9), p // n + rng.randrange(1, 3), p // n * rng.randrange(1, n + 1)])
    k = min(k, 2 ** 63 - 1)
    total = n * k if name in ("mul", "imul", "rmul") else k
    if total < 2 ** 31 - 10:
        return
    fn, args, kw = {"mul": (kind.cls.__mul__, [subject, k], {}), "imul": (kind.cls.__imul__, [subject, k], {}),
                    "rmul": (kind.cls.__rmul__, [subject, k], {}), "resize": (subject.__class__.__dict__.get("resize"), [subject, k], {}),
                    "hint": (kind.cls, [base, k], {})}[name]
    at = rng.randrange(1, 300) if kind.linked else rng.randrange(1, 6)
    mode = 2 if kind.linked or rng.random() < 0.5 else 0
    what = "%s of %d: %s to %d elements, allocations failing from number %d on" % (kind, n, name, total, at)
    ctx.mark(what)
    counts = [sys.getrefcount(o) for o in base]
    gc.disable()
    seen, failures, raised, value = fm.call(at, mode, fn, *args)
    gc.enable()
    if raised != 1:
        have = len(value) if value is not None and hasattr(value, "__len__") else len(subject)
        value = None
        if name == "hint" and have == n:  # a hint needn't be followed
            ctx.count("hints not followed")
            return
        raise Violation("met-" + name, "%s: %d elements and no exception" % (what, have))
    if not isinstance(value, (MemoryError, OverflowError, RuntimeError)):
        raise Violation("unmeetable-" + name, "%s: %r" % (what, value))
    error = type(value).__name__
    value = None
    after = subject.to_list()
    if not same_items(kind, after, base) or len(subject) != n:
        raise Violation("unmeetable-changed-" + name, "%s: %s" % (what, diff(after, base)))
    after = None
    now = [sys.getrefcount(o) for o in base]
    if not kind.is_int and now != counts:
        raise Violation("unmeetable-references-" + name, "%s: reference counts moved from %r to %r" % (what, counts, now))
    if rng.random() < 0.3:  # again and again, which must leave nothing behind
        gc.disable()
        blocks = []
        for again in range(3):
            blocks.append(in_use())
            for _ in range(40):
                fm.call(at, mode, fn, *args)
        blocks.append(in_use())
        gc.enable()
        if min(b - a for a, b in zip(blocks, blocks[1:])) >= 40 * 32:
            raise Violation("unmeetable-leak-" + name, "%s: 40 times more leave %r bytes behind" % (
                what, [b - a for a, b in zip(blocks, blocks[1:])]))
        ctx.count("refused sizes repeated", 120)
    ctx.count("unmeetable sizes refused with " + error)
    ctx.distinct("unmeetable", kind.name, name, n, k, at if kind.linked else mode)


# these succeed whatever the list holds
ALWAYS = {"append", "append*", "extend-list", "extend-tuple", "extend-same", "extend-iter", "extend-self", "iadd", "insert",
          "getslice", "getslice-step", "setslice", "setslice-same", "setslice-self", "setslice-iter", "delslice", "add-same",
          "add-list", "mul", "imul", "imul0", "reverse", "clear", "copy", "to_list", "repr", "sort", "sort-key", "eq", "lt",
          "iter", "reversed", "list", "tuple", "construct", "construct-same", "construct-iter", "construct-tuple",
          "construct-hint", "construct-none", "reinit", "from_range", "resize", "view", "count", "contains"}
