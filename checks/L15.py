"""L15: construction from every kind of iterable, size hints, repeated initialisation, subclasses, no initialisation."""
import array
import collections
import copy
import gc
import itertools
import pickle
import sys
import weakref

from lib import large, lists
from lib.lists import BIG_SIZES, BOUNDARY_SIZES, KINDS, diff, same_items
from lib.monitor import Violation

RULE = ("Build cases construct one list from one of about 40 kinds of iterable with one of the size hint forms, compare it with "
        "list() of the same iterable, check that no reference was kept or lost, and go on with random operations. Reinit "
        "cases call the initializer again and again, also with failing iterables and while callbacks look at the list. "
        "New cases use instances whose initializer never ran, subclasses of many shapes and odd arguments to __new__. "
        "distinct_nontrivial counts distinct (type, iterable, size, hint, way) constructions.")
ASSUMPTIONS = ["linked lists take no size hint (their interface documents none)",
               "a raising or absurd length hint may be reported or ignored",
               "an unmeetable size hint may raise MemoryError, OverflowError or RuntimeError, or be ignored"]


def shards(tier, seed):
    n = {"quick": 8000, "thorough": 200000}[tier]
    r = []
    for k in KINDS:
        r.append(dict(name="build-" + k, kind=k, lo=0, hi=2 * n, split=3, mode="build"))
        r.append(dict(name="asan-build-" + k, kind=k, lo=0, hi=n // 4, split=1, mode="build", variant="asan"))
        r.append(dict(name="reinit-" + k, kind=k, lo=0, hi=n, split=2, mode="reinit"))
        r.append(dict(name="asan-reinit-" + k, kind=k, lo=0, hi=n // 6, split=1, mode="reinit", variant="asan"))
        r.append(dict(name="new-" + k, kind=k, lo=0, hi=n // 2, split=1, mode="new"))
        r.append(dict(name="asan-new-" + k, kind=k, lo=0, hi=n // 8, split=1, mode="new", variant="asan"))
    r += large.shards("build", KINDS, tier)
    return r


def run_case(ctx, shard, case):
    if shard.get("mode") == "large":
        return large.run(ctx, shard)
    kind = KINDS[shard["kind"]]
    {"build": build_case, "reinit": reinit_case, "new": new_case}[shard["mode"]](ctx, kind)


class Boom(Exception):
    pass


class Hinted:
    """An iterator with a programmed length hint."""

    def __init__(self, data, hint):
        self.it, self.hint = iter(data), hint

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __length_hint__(self):
        if isinstance(self.hint, BaseException):
            raise self.hint
        return self.hint


class Sized:
    """An iterable whose __len__ lies."""

    def __init__(self, data, n):
        self.data, self.n = data, n

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        if isinstance(self.n, BaseException):
            raise self.n
        return self.n


class OldStyle:
    def __init__(self, data):
        self.data = data

    def __getitem__(self, i):
        return self.data[i]


class IterSub(list):
    def __iter__(self):
        return iter(self[::-1])


class TupleIter(tuple):
    def __iter__(self):
        return iter(list(tuple.__iter__(self))[::2])


class LenList(list):
    def __len__(self):
        return 3


def shapes(rng, kind, data):
    """name -> (makes the iterable, may the hint be refused)"""
    def gen():
        yield from data
    hint = rng.choice([0, 1, len(data), len(data) + 1, len(data) // 2, 3 * len(data) + 5, -1, 2 ** 40, 2 ** 63 - 1, 2 ** 70,
                       Boom("hint"), TypeError("hint"), "x", None, 1.5, NotImplemented, True])
    r = {
        "list": lambda: list(data), "tuple": lambda: tuple(data), "generator": gen, "iterator": lambda: iter(list(data)),
        "set": lambda: set(data), "frozenset": lambda: frozenset(data), "dict": lambda: dict.fromkeys(data),
        "keys": lambda: dict.fromkeys(data).keys(), "values": lambda: dict(enumerate(data)).values(),
        "deque": lambda: collections.deque(data), "map": lambda: map(lambda v: v, data), "zip": lambda: (v for v, in zip(data)),
        "chain": lambda: itertools.chain(data[:len(data) // 2], data[len(data) // 2:]),
        "islice": lambda: itertools.islice(data, 0, None, 2), "reversed": lambda: reversed(data),
        "filter": lambda: filter(lambda v: True, data), "hinted": lambda: Hinted(data, hint),
        "sized": lambda: Sized(data, hint), "oldstyle": lambda: OldStyle(data), "itersub": lambda: IterSub(data),
        "tupleiter": lambda: TupleIter(data), "listsub": lambda: lists.ListSub(data), "lenlist": lambda: LenList(data),
        "namedtuple": lambda: collections.namedtuple("T", ["f%d" % i for i in range(min(50, len(data)))])(*data[:50]),
        "userlist": lambda: collections.UserList(data), "repeat": lambda: itertools.repeat(data[0], len(data)) if data else (),
        "accumulate": lambda: itertools.accumulate(data, lambda a, b: b), "cycle": lambda: itertools.islice(
            itertools.cycle(data), 2 * len(data)),
    }
    if kind.is_int:
        r["range"] = lambda: range(0, 3 * len(data), 3)
        r["array"] = lambda: array.array("q", data)
        r["memoryview"] = lambda: memoryview(array.array("q", data))
        r["bytes"] = lambda: bytes(abs(v) % 256 for v in data)
        r["bytearray"] = lambda: bytearray(abs(v) % 256 for v in data)
        r["bools"] = lambda: [v % 2 == 0 for v in data]
    else:
        r["str"] = lambda: "".join(chr(65 + i % 26) for i in range(len(data)))
        r["items"] = lambda: dict(enumerate(data)).items()
        r["enumerate"] = lambda: enumerate(data)
    for other in KINDS.values():
        if other.is_int and not (kind.is_int and (other.bounds == kind.bounds or kind.bounds == lists.I64)):
            continue
        if kind.is_int and other.bounds == lists.I32 and any(not -2 ** 31 <= v < 2 ** 31 for v in data):
            continue
        r["other-" + other.name] = lambda other=other: other.cls(data)
        r["iter-" + other.name] = lambda other=other: iter(other.cls(data))
        r["own-" + other.name] = lambda other=other: type("Own", (other.cls,), {
            "__iter__": lambda self: iter(self.to_list()[::-1])})(data)
        r["sub-" + other.name] = lambda other=other: type("Sub", (other.cls,), {})(data)
    return r, hint


HASHED = ("set", "frozenset", "dict", "keys")


def hint_forms(rng, kind, n):
    """(name, positional arguments after the iterable, keywords, may it be refused)"""
    if kind.linked:
        return rng.choice([("none", (), {}, False), ("none", (), {}, False), ("keyword-iterable", None, {}, False)])
    h = rng.choice([0, 1, n, n + 1, max(0, n - 1), 2 * n + 3, n // 2, 1000, -1, -5, -2 ** 63, True, lists.Index(7)])
    refuse = False
    if rng.random() < 0.08:
        h = rng.choice([2 ** 50, 2 ** 62, 2 ** 63 - 1, 2 ** 60 + 1, 2 ** 63, 2 ** 64, 2 ** 70, -2 ** 63 - 1, -2 ** 64, -2 ** 70])
        refuse = True
    return rng.choice([("none", (), {}, False), ("positional %r" % h, (h,), {}, refuse),
                       ("keyword %r" % h, (), {"exceptSize": h}, refuse),
                       ("all keywords %r" % h, None, {"exceptSize": h}, refuse), ("keyword-iterable", None, {}, False)])


REFUSALS = (MemoryError, OverflowError, RuntimeError)


def build_case(ctx, kind):
    rng = ctx.rng
    values = lists.Values(rng, kind)
    n = rng.choice(BOUNDARY_SIZES) if rng.random() < 0.94 else rng.choice(BIG_SIZES)
    data = values.many(n)
    shp, hint = shapes(rng, kind, data)
    name = rng.choice(sorted(shp))
    if name in HASHED and not kind.is_int:
        data = [v for v in data if _hashable(v)]
        shp, hint = shapes(rng, kind, data)
    form, positional, keywords, refuse = hint_forms(rng, kind, n)
    what = "%s(%s of %.200r%s, hint form %s)" % (kind, name, data, " hint %r" % (hint,) if name in ("hinted", "sized") else
                                                 "", form)
    ctx.mark(what)
    held = counts(data)
    want = list_of(shp[name]()) if name not in ("hinted", "sized") else list(data)
    source = shp[name]()
    before = sys.getrefcount(source)
    try:
        if positional is None:
            got = kind.cls(iterable=source, **keywords)
        else:
            got = kind.cls(source, *positional, **keywords)
    except REFUSALS as e:
        if not refuse and not (name in ("hinted", "sized") and not isinstance(hint, int)) and not (
                name in ("hinted", "sized") and abs(hint) > 2 ** 30):
            raise Violation("%s-build-%s" % (kind, name), "raised %r\n%s" % (e, what))
        ctx.count("size hints refused")
        return
    except (Boom, TypeError, ValueError) as e:
        if name in ("hinted", "sized") and (e is hint or isinstance(e, (TypeError, ValueError))) and not (
                type(hint) is int and 0 <= hint < 2 ** 30):
            ctx.count("raising hints reported")
            return
        raise Violation("%s-build-%s" % (kind, name), "raised %r\n%s" % (e, what))
    e = None
    if type(got) is not kind.cls or len(got) != len(want):
        raise Violation("%s-build-%s" % (kind, name), "%d elements instead of %d\n%s" % (len(got), len(want), what))
    have = got.to_list()
    fresh = name in ("items", "enumerate", "str", "bytes", "bytearray", "range", "array", "memoryview", "bools")
    if kind.is_int and (have != [int(v) for v in want] or any(type(v) is not int for v in have)) or \
            not kind.is_int and (have != want if fresh else not same_items(kind, have, want)):
        raise Violation("%s-build-%s" % (kind, name), "%s\n%s" % (diff(have, want), what))
    ctx.count("lists built and compared")
    ctx.count("elements compared", len(want))
    ctx.distinct(kind.name, name, len(want), form)
    ctx.sample(what)
    del have, want
    now = sys.getrefcount(source)
    if now != before and name not in ("iterator",):
        raise Violation("%s-source-references" % kind, "the source has %d references instead of %d\n%s" % (now, before, what))
    # an ordinary list from now on
    if not fresh:
        model = got.to_list()
        log = [what]
        for _ in range(3):
            op = lists.gen_op(rng, kind, values, model, 200)
            log.append("%s(%.100s)" % (op.name, op.desc))
            lists.step(ctx, kind, got, model, op, lambda: "\n".join(log))
            lists.check_state(ctx, kind, got, model, lambda: "\n".join(log))
        del model, op
        log = None
    del source, got, shp
    if not kind.is_int:
        again = counts(data)
        if again != held and not fresh:
            gc.collect()
            again = counts(data)
        # immortal and interned objects are counted by others too, and operations drop what they made
        for v, a, b in zip(data, held, again):
            if a != b and type(v) in (lists.Eq, list, object, frozenset) and v:
                raise Violation("%s-element-references" % kind, "%r has %d references instead of %d\n%s" % (v, b, a, what))
            ctx.count("element reference counts compared")


def _hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def list_of(x):
    return list(x)


def counts(d):
    return [sys.getrefcount(v) for v in d]


def more(now, before):
    return any(a > b for a, b in zip(now, before))


def failing(rng, data, exc, at):
    """Iterables that raise exc at step at (0: while the iterator is made)."""
    def gen():
        for i, v in enumerate(data):
            if i + 1 == at:
                raise exc
            yield v
        raise exc

    class It:
        def __iter__(self):
            if at == 0:
                raise exc
            return gen()

    class Old:
        def __getitem__(self, i):
            if i + 1 >= at or i >= len(data):
                raise exc
            return data[i]
    return rng.choice([It(), Old() if at else It(), map(lambda v: v, gen()) if at else It()])


def reinit_case(ctx, kind):
    rng = ctx.rng
    values = lists.Values(rng, kind)
    if not kind.is_int:
        values.pool = [lists.Eq(i) for i in range(rng.choice([1, 4, 20]))] + [(i, rng.random()) for i in range(3)]
    cls = kind.cls if rng.random() < 0.7 else type("Sub", (kind.cls,), {})
    base = {id(v): sys.getrefcount(v) for v in values.pool} if not kind.is_int else {}
    data = values.many(rng.choice(BOUNDARY_SIZES[:22]))
    L = cls(data)
    model = list(data)
    log = ["%s(%.200r)" % (cls.__name__, data)]
    del data

    def trace():
        return "\n".join("    " + t for t in log)

    for _ in range(rng.choice([1, 2, 4])):
        what = rng.choice(["again", "again", "empty", "hint", "fail", "fail-element", "bad-hint", "self", "mid", "wrong", "history",
                           "iterator"])
        n = rng.choice(BOUNDARY_SIZES[:20])
        log.append(what)
        ctx.mark(trace())
        it = iter(L) if what == "iterator" else None
        if what in ("again", "iterator"):
            d = values.many(n)
            s = rng.choice([list, tuple, iter, lambda v: (x for x in v), collections.deque, kind.cls])(d)
            if not kind.linked and rng.random() < 0.3:
                r = L.__init__(s, rng.choice([0, 1, n, 500]))
            else:
                r = L.__init__(s)
            if r is not None:
                raise Violation("%s-init-result" % kind, repr(r))
            model = d
            if it is not None:  # goes on over the new contents, as a list iterator
                ref = iter(list(model))
                if not same_items(kind, list(it), list(ref)):
                    raise Violation("%s-init-iterator" % kind, trace())
            del s, d
        elif what == "empty":
            L.__init__()
            model = []
        elif what == "hint":
            if not kind.linked:
                L.__init__(rng.choice([0, 1, 10, 1000]))
                model = []
        elif what in ("fail", "fail-element"):
            d = values.many(n)
            exc = Boom("iterable")
            if what == "fail" or not kind.is_int:
                at = rng.randrange(n + 2)
                s = failing(rng, d, exc, at)
            else:
                bad = rng.choice(["x", None, 1.5, 2 ** 70, -2 ** 64, b"", [1]])
                k = rng.randrange(n + 1)
                e2 = d[:k] + [bad] + d[k:]
                s = rng.choice([list, tuple, iter, collections.deque])(e2)
            try:
                L.__init__(s)
            except Boom as e:
                if e is not exc:
                    raise Violation("%s-init-exception" % kind, trace())
            except (RuntimeError, TypeError, OverflowError, ValueError) as e:
                if what == "fail":
                    raise Violation("%s-init-exception" % kind, "%r\n%s" % (e, trace()))
            else:
                raise Violation("%s-init-silent" % kind, "a failing iterable gave %.200r\n%s" % (L.to_list(), trace()))
            e = exc = None
            now = L.to_list()
            if not (same_items(kind, now, d[:len(now)]) or same_items(kind, now, model)):
                raise Violation("%s-init-contents" % kind, "after the failure the list holds %.300r\n%s" % (now, trace()))
            ctx.count("failing initialisations seen")
            model = now
            del now, d, s
            if rng.random() < 0.3:
                # the same failure while constructing
                d = values.many(n)
                w = counts(d)
                try:
                    cls(failing(rng, d, Boom("construct"), rng.randrange(n + 2)))
                except Boom:
                    pass
                else:
                    raise Violation("%s-construct-silent" % kind, trace())
                gc.collect(0)
                # (lower counts can come from garbage that was still around before; the end of the case checks those)
                if not kind.is_int and more(counts(d), w) and (gc.collect() or True) and more(counts(d), w):
                    raise Violation("%s-construct-leak" % kind, "%r, were %r\n%s" % (counts(d), w, trace()))
                del d
        elif what == "bad-hint":
            h = rng.choice([2 ** 50, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 2 ** 70, -2 ** 63 - 1, -2 ** 70, 1.5, {}.get, "x"])
            old = rng.random() < 0.5
            name, args = rng.choice([("size", (h,)), ("hint", ([], h)), ("hint", ((values.one(),), h))])
            if name == "size" and h == "x":
                args = ({}.get,)
            log.append("%s of %r" % (args, "the list" if old else cls))
            ctx.mark(trace())
            try:
                made = L.__init__(*args) if old else cls(*args)
            except (MemoryError, OverflowError, RuntimeError, TypeError) as e:
                if isinstance(e, TypeError) and type(h) is int and not kind.linked:
                    raise Violation("%s-hint-exception" % kind, "%r\n%s" % (e, trace()))
            else:
                raise Violation("%s-hint-accepted" % kind, "%.200r\n%s" % (made, trace()))
            e = None
            now = L.to_list()
            if not (same_items(kind, now, model) or old and not now):
                raise Violation("%s-init-contents" % kind, "after the failure the list holds %.300r\n%s" % (now, trace()))
            ctx.count("refused size hints seen")
            model = now
            del now, args
        elif what == "self":
            L.__init__(L)
            model = []
        elif what == "mid":
            d = values.many(n)
            seen = []
            plan = rng.choice(["look", "append", "clear", "init", "pop"])

            def gen():
                for i, v in enumerate(d):
                    if i % 5 == 3:
                        seen.append(len(L))
                        if plan == "append":
                            L.append(v)
                        elif plan == "clear":
                            L.clear()
                        elif plan == "init":
                            L.__init__()
                        elif plan == "pop" and len(L):
                            L.pop()
                    yield v

            ref = list(model)

            def gen2():
                for i, v in enumerate(d):
                    if i % 5 == 3:
                        if plan == "append":
                            ref.append(v)
                        elif plan == "clear":
                            ref.clear()
                        elif plan == "init":
                            ref.__init__()
                        elif plan == "pop" and len(ref):
                            ref.pop()
                    yield v
            log.append("the iterable uses the list: " + plan)
            L.__init__(gen())
            ref.__init__(gen2())
            model = ref
            del d, seen
        elif what == "wrong":
            before = L.to_list()
            try:
                rng.choice([lambda: L.__init__([], 1, 2), lambda: L.__init__(nothing=1), lambda: L.__init__(iterable=[], x=3),
                            lambda: L.__init__([], "x"), lambda: L.__init__([], None)])()
            except TypeError:
                pass
            else:
                raise Violation("%s-init-wrong" % kind, trace())
            if not same_items(kind, L.to_list(), before):
                raise Violation("%s-init-wrong" % kind, "changed\n" + trace())
            del before
        else:
            op = lists.gen_op(rng, kind, values, model, 200)
            log.append("%s(%.100s)" % (op.name, op.desc))
            if op.name not in ("construct", "copy", "add_same", "mul", "rmul", "add_self", "imul") or cls is kind.cls:
                if not (cls is not kind.cls and op.expect == "same"):
                    lists.step(ctx, kind, L, model, op, trace)
            del op
        lists.check_state(ctx, kind, L, model, trace)
        ctx.count("initialiser histories stepped")
        ctx.distinct(kind.name, what, n, len(model), log[-1])
    if not kind.is_int:
        del L, it
        model = ref = None
        gc.collect(0)
        for v in values.pool:
            now = sys.getrefcount(v)
            if now != base[id(v)]:
                gc.collect()
                now = sys.getrefcount(v)
                if now != base[id(v)]:
                    raise Violation("%s-init-references" % kind, "%r has %d references instead of %d\n%s" % (
                        v, now, base[id(v)], trace()))
            ctx.count("element reference counts compared")
    ctx.sample(trace())


def new_case(ctx, kind):
    rng = ctx.rng
    values = lists.Values(rng, kind)
    what = rng.choice(["no-init", "no-init", "sub-no-init", "slots", "override", "attributes", "new-arguments", "multiple",
                       "class-getitem", "copying", "super", "property", "deep"])
    ctx.mark(what)
    log = [kind.name + " " + what]
    model = []
    C = kind.cls
    if what == "no-init":
        args = rng.choice([(), ([1],), (1, 2, 3), ("x",), (None,)])
        L = C.__new__(C, *args)
        if L.to_list() != []:
            raise Violation("%s-new-contents" % kind, "%r" % L.to_list())
    elif what == "sub-no-init":
        class S(C):
            def __init__(self, *args, **kw):
                pass
        L = S([1, 2, 3], nothing=rng.random())
    elif what == "slots":
        class S(C):
            __slots__ = ("extra", "__weakref__") if rng.random() < 0.5 else ("extra",)
        model = values.many(rng.choice(BOUNDARY_SIZES[:15]))
        L = S(model)
        L.extra = [model]
        if L.extra[0] is not model or hasattr(L, "__dict__"):
            raise Violation("%s-slots" % kind, "")
    elif what == "override":
        calls = []

        class S(C):
            def append(self, v):
                calls.append(v)
                C.append(self, v)

            def __len__(self):
                return 5
        model = values.many(rng.choice(BOUNDARY_SIZES[:15]))
        L = S(model)
        if calls or len(L) != 5 or C.__len__(L) != len(model):
            raise Violation("%s-override" % kind, "%r %d" % (calls, len(L)))
        v = values.one()
        L.append(v)
        if len(calls) != 1 or not same_items(kind, L.to_list(), model + [v]):
            raise Violation("%s-override" % kind, "%r" % L.to_list())
        ctx.distinct(kind.name, what, len(model))
        ctx.count("instances checked")
        return
    elif what == "attributes":
        class S(C):
            tag = 5

            def __init__(self, *a):
                super().__init__(*a)
                self.name = "n"

            def double(self):
                return self.to_list() * 2
        model = values.many(rng.choice(BOUNDARY_SIZES[:15]))
        L = S(tuple(model))
        L.more = weakref.ref(L)
        if L.name != "n" or L.more() is not L or not same_items(kind, L.double(), model * 2) or not isinstance(L, C) \
                or not issubclass(S, C) or S.__mro__[1] is not C:
            raise Violation("%s-attributes" % kind, "")
    elif what == "new-arguments":
        for bad in ((), (int,), (5,), (list,), (object,)):
            try:
                C.__new__(*bad)
            except TypeError:
                continue
            raise Violation("%s-new" % kind, "__new__%r" % (bad,))
        try:
            object.__new__(C)
        except TypeError:
            pass
        else:
            raise Violation("%s-new" % kind, "object.__new__ makes one without its storage")
        L = C()
    elif what == "multiple":
        class Mixin:
            def first(self):
                return self[0] if len(self) else None

        class S(Mixin, C):
            pass
        model = values.many(rng.choice(BOUNDARY_SIZES[:15]))
        L = S(model)
        if L.first() is not (model[0] if model else None) and L.first() != (model[0] if model else None):
            raise Violation("%s-mixin" % kind, "")
    elif what == "class-getitem":
        try:
            alias = C[int]
        except TypeError:
            return
        model = values.many(3)
        L = alias(model)
        if type(L) is not C:
            raise Violation("%s-alias" % kind, repr(type(L)))
    elif what == "copying":
        model = values.many(rng.choice([0, 1, 5, 40]))
        if not kind.is_int:
            model = [v for v in model if type(v) in (int, str, float, bytes) and v == v]
        L = C(model) if rng.random() < 0.6 else type("Sub", (C,), {})(model)
        for name, f in (("copy", copy.copy), ("deepcopy", copy.deepcopy), ("pickle0", lambda v: pickle.loads(pickle.dumps(v, 0))),
                        ("pickle", lambda v: pickle.loads(pickle.dumps(v)))):
            try:
                got = f(L)
            except (TypeError, pickle.PicklingError, AttributeError):
                ctx.count("copying not supported")
                continue
            if got.to_list() != model:
                raise Violation("%s-%s" % (kind, name), "%s gives %.200r instead of %.200r" % (name, got.to_list(), model))
    elif what == "super":
        class S(C):
            def __init__(self, d):
                super().__init__(d)
                super().append(self[0] if len(self) else model_fill)
                super().__init__(d)

            def __getitem__(self, i):
                return super().__getitem__(i)
        model_fill = values.one()
        model = values.many(rng.choice(BOUNDARY_SIZES[:15]))
        L = S(model)
    elif what == "property":
        class S(C):
            @property
            def size(self):
                return len(self)

            def __contains__(self, v):
                return "yes"
        model = values.many(rng.choice(BOUNDARY_SIZES[:15]))
        L = S(iter(model))
        if L.size != len(model) or ((5 in L) is not True):
            raise Violation("%s-property" % kind, "")
    else:
        S = C
        for i in range(rng.choice([1, 3, 8])):
            S = type("S%d" % i, (S,), {"__slots__": ("a%d" % i,)} if rng.random() < 0.4 else {})
        model = values.many(rng.choice(BOUNDARY_SIZES[:15]))
        L = S(model)
    model = list(model)
    lists.check_state(ctx, kind, L, model, lambda: "\n".join(log))
    for _ in range(12):
        op = lists.gen_op(rng, kind, values, model, 200)
        if type(L) is not C and op.expect == "same" or what == "property" and op.name == "contains" \
                or op.name == "reinit" and type(L).__init__ is not kind.cls.__init__:
            continue
        log.append("%s(%.100s)" % (op.name, op.desc))
        lists.step(ctx, kind, L, model, op, lambda: "\n".join(log))
        lists.check_state(ctx, kind, L, model, lambda: "\n".join(log))
    w = None
    if hasattr(type(L), "__weakref__"):
        w = weakref.ref(L)
    del L, op
    gc.collect(0)
    if w is not None and w() is not None:
        gc.collect()
        if w() is not None:
            raise Violation("%s-instance-leak" % kind, what)
    ctx.count("instances checked")
    ctx.distinct(kind.name, what, tuple(log[1:]))
    ctx.sample("\n".join(log))
