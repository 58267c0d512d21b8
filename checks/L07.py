"""L07: reference conservation, measured on every object after every operation."""
import ctypes
import array
import gc
import operator
import sys
import weakref

from checks import L10
from lib import failing, large, lists, reentrant
from lib.lists import KINDS, diff
from lib.monitor import Violation

RULE = ("Object histories: a random history of list operations (failing ones, raising iterators, keys, comparisons and "
        "iterators included) on an object list and on a built-in list side by side; after every operation the "
        "reference count of every pool object, of the list and of the arguments must be the base count plus the "
        "positions that hold it, garbage collections run in between, and at the end every object must die. Cycle "
        "cases build reference cycles through lists and iterators and collect them. Leak cases repeat one call 200 "
        "times and compare allocated blocks, allocated C memory and reference counts. distinct_nontrivial counts "
        "distinct (type, operation, arguments, length) steps after which all counts were checked, cycle shapes and "
        "leak-tested calls.")
ASSUMPTIONS = ["None, booleans and small integers are immortal in CPython 3.12, so they carry no countable references"]
OBJECTS = ("ObjectArrayList", "ObjectLinkedList")


def shards(tier, seed):
    n = {"quick": 8000, "thorough": 100000}[tier]
    r = []
    for k in OBJECTS:
        r.append(dict(name="counts-" + k, kind=k, lo=0, hi=n, split=5, mode="history"))
        r.append(dict(name="asan-counts-" + k, kind=k, variant="asan", lo=0, hi=n // 8, split=2, mode="history"))
        r.append(dict(name="cycles-" + k, kind=k, lo=0, hi=n // 4, split=1, mode="cycle"))
        r.append(dict(name="asan-cycles-" + k, kind=k, variant="asan", lo=0, hi=n // 16, split=1, mode="cycle"))
    for k in KINDS:
        r.append(dict(name="arguments-" + k, kind=k, lo=0, hi=n * 3, split=2, mode="arguments"))
        r.append(dict(name="immortal-" + k, kind=k, lo=0, hi=n // 8, split=1, mode="immortal"))
        r.append(dict(name="failing-" + k, kind=k, lo=0, hi=len(L10.ALLOC) * (2 if tier == "quick" else 30), split=2,
                      mode="failing", env=failing.shard_env()))
        r.append(dict(name="leaks-" + k, kind=k, lo=0, hi=len(LEAKS) * (4 if tier == "quick" else 12), split=3,
                      mode="leak"))
    r += large.shards("refs", OBJECTS, tier)
    return r


class Obj:
    __slots__ = ("n", "__weakref__")

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "Obj%d" % self.n


class EqObj(Obj):
    """Equal to others with the same number modulo 3; raises when armed."""
    __slots__ = ()
    armed = None

    def __eq__(self, other):
        if EqObj.armed is not None:
            EqObj.armed -= 1
            if EqObj.armed <= 0:
                EqObj.armed = None
                raise Boom("eq")
        return self.n % 3 == other.n % 3 if isinstance(other, EqObj) else NotImplemented

    def __lt__(self, other):
        if EqObj.armed is not None:
            EqObj.armed -= 1
            if EqObj.armed <= 0:
                EqObj.armed = None
                raise Boom("lt")
        return self.n < other.n if isinstance(other, Obj) else NotImplemented

    def __hash__(self):
        return self.n % 3


class Boom(Exception):
    pass


def builtin_values(rng, n):
    """Freshly made instances of built-in types, none of them shared with anything else."""
    def number(k):
        bits = rng.choice([9, 10, 11, 12, 16, 29, 30, 31, 32, 33, 60, 61, 64, 65, 200])
        return int(str(rng.choice([1, -1]) * (rng.getrandbits(bits) + 300)))

    make = [number, number, number, lambda k: int(str(rng.randrange(257, 2000))), lambda k: int(str(-rng.randrange(6, 300))),
            lambda k: float(str(k) + ".5"), lambda k: "".join(["s", str(k), "x" * rng.randrange(40)]),
            lambda k: "".join(["\u4e00", chr(0x4e01 + k)]), lambda k: b"".join([b"ab", bytes([k])]), lambda k: (k, "t"),
            lambda k: [k], lambda k: {k: 1}, lambda k: {k}, lambda k: frozenset([k, "f"]), lambda k: complex(k, 1),
            lambda k: bytearray(b"z" * k), lambda k: range(k, k + 300), lambda k: slice(k, k), lambda k: memoryview(b"mv"),
            lambda k: (lambda: k), lambda k: iter([k]), lambda k: ValueError(k),
            lambda k: Obj(k)]
    return [rng.choice(make)(k) for k in range(n)]


class PoolValues:
    def __init__(self, rng, kind, pool):
        self.rng, self.kind, self.pool, self.mode = rng, kind, pool, "pool"

    def one(self):
        return self.rng.choice(self.pool)

    def many(self, n):
        return [self.rng.choice(self.pool) for _ in range(n)]

    def fresh(self, v):
        return v


def raising_iter(data, k):
    for i, x in enumerate(data):
        if i == k:
            raise Boom("iter")
        yield x
    raise Boom("iter")


class BadHint:
    def __init__(self, data, hint):
        self.data, self.hint = data, hint

    def __iter__(self):
        return iter(self.data)

    def __length_hint__(self):
        if self.hint is Boom:
            raise self.hint
        return self.hint


def failing_op(rng, kind, values, L):
    """A call that fails part-way, with the model kept in step from the list itself."""
    n = len(L)
    data = values.many(rng.choice([1, 2, 5, 30]))
    k = rng.randrange(len(data) + 1)
    how = rng.choice(["extend", "iadd", "setslice", "construct", "sortkey", "sortcmp", "eqcontains", "eqindex",
                      "eqcount", "eqremove", "eqcompare", "lessthan", "type", "index", "reinit", "setitem", "insert",
                      "hint", "mul", "add"])

    def call():
        if how == "extend":
            L.extend(raising_iter(data, k))
        elif how == "iadd":
            x = L
            x += raising_iter(data, k)
        elif how == "setslice":
            i = rng.randrange(n + 1)
            L[i:i + rng.randrange(4)] = raising_iter(data, k)
        elif how == "construct":
            kind.cls(raising_iter(data, k))
        elif how == "sortkey":
            c = [rng.randrange(1, n + 2)]

            def key(x):
                c[0] -= 1
                if not c[0]:
                    raise Boom("key")
                return [Obj(1)] and c[0]
            L.sort(key=key, reverse=rng.random() < 0.5)
        elif how == "sortcmp":
            L.sort(key=lambda x: EqObj(x.n if isinstance(x, Obj) else 0), reverse=rng.random() < 0.5)
        elif how == "eqcontains":
            EqObj(rng.randrange(5)) in L
        elif how == "eqindex":
            L.index(EqObj(77))
        elif how == "eqcount":
            L.count(EqObj(1))
        elif how == "eqremove":
            L.remove(EqObj(77))
        elif how == "eqcompare":
            L == [EqObj(i) for i in range(n)]
        elif how == "lessthan":
            L < [EqObj(i) for i in range(n)]
        elif how == "type":
            rng.choice([lambda: L.extend(5), lambda: L.pop("a"), lambda: L.insert("a", data[0]), lambda: L["a"],
                        lambda: L.append(), lambda: L.append(1, 2), lambda: L.sort(5), lambda: L.index(),
                        lambda: L.extend(), lambda: L.__setitem__("a", data[0]), lambda: L.count(), lambda: L.sort(key=3),
                        lambda: L * data[0], lambda: kind.cls(5), lambda: kind.cls(data, "x"), lambda: L < data[0],
                        lambda: hash(L), lambda: L.__setitem__(slice(0, 1), data[0]), lambda: L.insert(0),
                        lambda: L.index(data[0], "a"), lambda: L[slice("a", "b")], lambda: L + data[0]])()
        elif how == "index":
            rng.choice([lambda: L.pop(n + 5), lambda: L[n + 5], lambda: L.__setitem__(n, data[0]),
                        lambda: L.__delitem__(-n - 1), lambda: L.index(object()), lambda: L.remove(object())])()
        elif how == "reinit":
            kind.cls(data).__init__(raising_iter(data, k))
        elif how == "setitem":
            L[BadIndex()] = data[0]
        elif how == "insert":
            L.insert(BadIndex(), data[0])
        elif how == "hint":
            L.extend(BadHint(data, rng.choice([Boom, -5, 2 ** 70, "x", 10 ** 6, 0])))
        elif how == "mul":
            L * BadIndex()
        elif how == "add":
            L + rng.choice([data[0], 7, None, iter(data)])

    return how, call


class Touching:
    """What an operation calls back: it changes the list."""
    __slots__ = ("v", "touch", "rng")

    def __init__(self, v, touch, rng):
        self.v, self.touch, self.rng = v, touch, rng

    def __index__(self):
        self.touch()
        return self.v

    def __eq__(self, other):
        self.touch()
        return self.rng.random() < 0.1

    def __lt__(self, other):
        self.touch()
        return self.v < other.v

    __hash__ = None


def touching_op(rng, kind, values, L, pool):
    """An operation whose callbacks change the list it works on."""
    n = len(L)
    budget = [rng.choice([1, 1, 2, 4])]
    skip = [rng.choice([0, 0, 1, 2, n // 2])]

    def touch():
        if skip[0] > 0:
            skip[0] -= 1
        elif budget[0] > 0:
            budget[0] -= 1
            for _ in range(rng.choice([1, 1, 2])):
                reentrant.act(L, rng.choice(reentrant.ACTIONS + ["set", "set"]), rng.randrange(n + 1), rng.choice(pool))

    def feed():
        for v in new:
            touch()
            yield v
        touch()

    def key(x):
        touch()
        return id(x) // 64 % 7

    def walk():
        for x in iter(L) if rng.random() < 0.5 else reversed(L):
            touch()
            if budget[0] <= 0:
                break
    new = [rng.choice(pool) for _ in range(rng.randrange(8))]
    i, j = rng.randrange(-n - 1, n + 2), rng.randrange(-n - 1, n + 2)
    table = {
        "sort-key": lambda: L.sort(key=key, reverse=rng.random() < 0.5),
        "sort-key-lt": lambda: L.sort(key=lambda x: Touching(id(x) // 64 % 7, touch, rng)),
        "extend": lambda: L.extend(feed()), "iadd": lambda: operator.iadd(L, feed()),
        "setslice": lambda: L.__setitem__(slice(i, j), feed()),
        "setslice-bounds": lambda: L.__setitem__(slice(Touching(i, touch, rng), Touching(j, touch, rng)), new),
        "setslice-step": lambda: L.__setitem__(slice(None, None, 2), (touch(), [rng.choice(pool) for _ in range((len(L) + 1) // 2)])[1]),
        "delslice": lambda: L.__delitem__(slice(Touching(i, touch, rng), Touching(j, touch, rng))), "getslice": lambda: L[Touching(i, touch, rng):Touching(j, touch, rng)],
        "insert": lambda: L.insert(Touching(i, touch, rng), rng.choice(pool)), "pop": lambda: L.pop(Touching(i, touch, rng)), "getitem": lambda: L[Touching(i, touch, rng)],
        "setitem": lambda: L.__setitem__(Touching(i, touch, rng), rng.choice(pool)), "delitem": lambda: L.__delitem__(Touching(i, touch, rng)),
        "contains": lambda: Touching(0, touch, rng) in L, "index": lambda: L.index(Touching(0, touch, rng)), "index-bounds": lambda: L.index(rng.choice(pool), Touching(i, touch, rng), Touching(j, touch, rng)),
        "count": lambda: L.count(Touching(0, touch, rng)), "remove": lambda: L.remove(Touching(0, touch, rng)), "eq": lambda: L == [Touching(0, touch, rng) for _ in range(n)],
        "ne-same": lambda: L != type(L)([Touching(0, touch, rng) for _ in range(n)]), "mul": lambda: L * Touching(3, touch, rng), "imul": lambda: operator.imul(L, Touching(rng.randrange(3), touch, rng)),
        "walk": walk, "construct": lambda: type(L)(feed()), "reinit": lambda: L.__init__(feed()),
    }
    how = rng.choice(sorted(table))
    return "touching " + how, table[how]


def immortal_case(ctx, kind, case):
    """A history over immortal objects only."""
    rng = ctx.rng
    small = [o for o in IMMORTAL if type(o) is int and 0 <= o < 100]
    pool = rng.sample(IMMORTAL if kind.name in OBJECTS else small, 8)
    values = PoolValues(rng, kind, pool)
    model = [rng.choice(pool) for _ in range(rng.choice([0, 1, 5, 40]))]
    subject = kind.cls(model)
    log = []

    def trace():
        return "history: %s of immortal objects%s" % (kind, "".join("\n    .%s(%.200s)" % t for t in log[-25:]))

    for step in range(30):
        op = lists.gen_op(rng, kind, values, model, 200)
        log.append((op.name, op.desc))
        ctx.mark(op.name)
        lists.step(ctx, kind, subject, model, op, trace)
        for it in (iter(subject), reversed(subject)):
            next(it, None)
        ctx.distinct("immortal", kind.name, op.name, len(model))
    lists.check_state(ctx, kind, subject, model, trace)


class BadIndex:
    def __index__(self):
        raise Boom("index")


def live(kind, L, cycles):
    """Reads through iterators, leaving some half-used."""
    for it in (iter(L), reversed(L)):
        for _ in range(cycles):
            if next(it, None) is None:
                break


IMMORTAL = [o for o in (None, True, False, (), "", b"", Ellipsis, NotImplemented, int, list, "a", b"q", *range(-5, 257))
            if sys.getrefcount(o) > 1 << 31]


def immortals(ctx, kind, counts):
    """Objects the interpreter never counts are not counted by the library either, or they become mortal."""
    now = list(map(sys.getrefcount, IMMORTAL))
    if now != counts:
        i = [a == b for a, b in zip(now, counts)].index(False)
        raise Violation("refs-immortal", "%s: the count of the immortal %r drifts from %d to %d" % (
            kind, IMMORTAL[i], counts[i], now[i]))
    ctx.count("counts of immortal objects checked", len(now))


def run_case(ctx, shard, case):
    if shard.get("mode") == "large":
        return large.run(ctx, shard)
    mode = shard["mode"]
    kind = KINDS[shard["kind"]]
    counts = list(map(sys.getrefcount, IMMORTAL))
    if mode == "leak":
        leak_case(ctx, kind, case)
        return immortals(ctx, kind, counts)
    if mode == "failing":
        failing_case(ctx, kind, case)
        return immortals(ctx, kind, counts)
    if mode == "arguments":
        gc.disable()
        try:
            arguments_case(ctx, kind, case)
        finally:
            gc.enable()
        return immortals(ctx, kind, counts)
    if mode == "immortal":
        immortal_case(ctx, kind, case)
        return immortals(ctx, kind, counts)
    gc.disable()
    try:
        (history_case if mode == "history" else cycle_case)(ctx, kind, case)
        immortals(ctx, kind, counts)
    finally:
        EqObj.armed = None
        gc.enable()


def history_case(ctx, kind, case):
    rng = ctx.rng
    cls = rng.choice([Obj, EqObj])
    builtin = rng.random() < 0.4
    pool = [cls(i) for i in range(rng.choice([2, 5, 12]))] if not builtin else builtin_values(rng, rng.choice([3, 6, 14]))
    values = PoolValues(rng, kind, pool)
    n = rng.choice([0, 1, 2, 3, 8, 16, 33, 70, 140])
    positions = [rng.randrange(len(pool)) for _ in range(n)]
    log = []

    def trace():
        return "history: %s of %d objects%s" % (kind, n, "".join("\n    .%s(%.200s)" % t for t in log[-25:]))

    base = [sys.getrefcount(o) for o in pool]
    subject = kind.cls([pool[i] for i in positions])
    model = [pool[i] for i in positions]
    own = sys.getrefcount(subject)
    for step in range(30):
        r = rng.random()
        if r < 0.25:
            EqObj.armed = rng.randrange(1, 12) if rng.random() < 0.7 else None
            if rng.random() < 0.3 and len(model) < 300:
                EqObj.armed = None
                how, call = touching_op(rng, kind, values, subject, pool)
                ctx.count("operations whose callbacks changed the list")
            else:
                how, call = failing_op(rng, kind, values, subject)
            log.append((how, ""))
            ctx.mark(how)
            try:
                call()
                outcome = "ended"
            except (Exception) as e:
                outcome = type(e).__name__
                if isinstance(e, SystemError):
                    raise Violation("refs-systemerror", "%s: %r\n%s" % (how, e, trace()))
                del e
            finally:
                EqObj.armed = None
                del call
            model[:] = subject.to_list()  # contents after a failure are L10's matter
            key = "%s %s" % (how, outcome)
        elif r < 0.33:
            k = rng.randrange(1, 6)
            log.append(("iterators", k))
            live(kind, subject, k)
            key = "iterators"
        elif r < 0.36:
            log.append(("gc", ""))
            ctx.mark("gc")
            gc.collect()
            key = "gc"
        else:
            op = lists.gen_op(rng, kind, values, model, 200)
            log.append((op.name, op.desc))
            key = op.name + op.desc
            ctx.mark(op.name)
            lists.step(ctx, kind, subject, model, op, trace)
            del op
        lists.check_state(ctx, kind, subject, model, trace)
        held = {}
        for o in model:
            held[id(o)] = held.get(id(o), 0) + 1
        o = None
        for i, o in enumerate(pool):
            # model and subject each hold one per position; one more for the loop variable
            want = base[i] + 2 * held.get(id(o), 0) + 1
            have = sys.getrefcount(o)
            if have != want + extra():
                raise Violation("refs-" + (log[-1][0] if log else "construct"),
                                "%s held %d times by the list: reference count %d instead of %d after\n%s" % (
                                    o, held.get(id(o), 0), have, want, trace()))
        o = None
        if sys.getrefcount(subject) != own:
            raise Violation("refs-self-" + log[-1][0], "the list's own reference count went from %d to %d\n%s" % (
                own, sys.getrefcount(subject), trace()))
        # the collector is told of exactly what the list holds
        seen = [x for x in gc.get_referents(subject) if x is not type(subject)]
        if len(seen) != len(model) or sorted(map(id, seen)) != sorted(map(id, model)):
            raise Violation("gc-referents-" + log[-1][0] if log else "gc-referents", "the collector is told of %d objects, the list holds %d\n%s" % (
                len(seen), len(model), trace()))
        seen = None
        ctx.count("referents compared with the contents")
        ctx.count("reference counts checked", len(pool) + 1)
        ctx.distinct(kind.name, key, len(model))
    # everything dies, without the collector
    dead = []
    for o in pool:
        try:
            dead.append(weakref.ref(o))
        except TypeError:
            pass
    if builtin and rng.random() < 0.5:  # those without weak references: their counts come back
        dead = []
        o = subject = model = None
        for i, o in enumerate(pool):
            have = sys.getrefcount(o)
            if have != base[i] + 1:
                raise Violation("refs-end", "reference count of %.100r is %d instead of %d once the list is gone\n%s" % (
                    o, have, base[i] + 1, trace()))
        ctx.count("reference counts checked at the end", len(pool))
    o = None
    how = rng.randrange(3)
    if subject is None:
        pass
    elif how == 0:
        subject.clear()
        keep = subject
    elif how == 1:
        it = iter(subject)
        next(it, None)
        subject = None
        it = None
    else:
        subject = None
    model = values = pool = None
    alive = [w for w in dead if w() is not None]
    if alive:
        raise Violation("refs-alive", "%d of %d objects outlive the list\n%s" % (len(alive), len(dead), trace()))
    ctx.count("objects seen dying", len(dead))
    ctx.sample(trace())


def extra():
    return 0


def cycle_case(ctx, kind, case):
    rng = ctx.rng
    gc.collect()
    shape = case % 10

    class Sub(kind.cls):
        pass

    class Node:
        pass

    cls = rng.choice([kind.cls, Sub])
    L = cls()
    w = []
    node = Node()
    w.append(weakref.ref(node))
    fill = [Node() for _ in range(rng.choice([0, 1, 5, 40, 40, 1500]))]
    w += [weakref.ref(x) for x in fill]
    L.extend(fill)
    del fill
    where = rng.choice(["append", "insert", "setslice", "iadd"])

    def put(target, x):
        if where == "append":
            target.append(x)
        elif where == "insert":
            target.insert(rng.randrange(len(target) + 1), x)
        elif where == "setslice":
            target[len(target):] = [x]
        else:
            target += [x]

    put(L, node)
    if shape == 0:
        put(L, L)
    elif shape == 1:
        node.owner = L
    elif shape == 2:
        M = kind.cls([L])
        put(L, M)
        del M
    elif shape == 3:
        it = iter(L)
        next(it)
        put(L, it)
        del it
    elif shape == 4:
        it = reversed(L)
        node.it = it
        del it
    elif shape == 5:
        node.owner = {"a": [L, L.copy()]}
    elif shape == 6:
        other = KINDS[rng.choice(OBJECTS)].cls([L, L, node])
        node.other = other
        del other
    elif shape == 7:
        put(L, lambda: L)
        f = L.append
        node.f = f
        del f
    elif shape == 8:
        node.m = L * 3
        put(node.m, L)
        put(L, node.m)
    else:
        node.result = L[:]
        node.result.append(L)
        node.owner = L
    ctx.mark("cycle shape %d %s" % (shape, cls.__name__))
    what = "%s (%s), cycle of shape %d through %s" % (kind, cls.__name__, shape, where)
    # alive while used
    contents = L.to_list()
    gc.collect()
    if any(x() is None for x in w) or len(L) != len(contents) or any(a is not b for a, b in zip(L.to_list(), contents)):
        raise Violation("gc-early", what + ": a live object was collected")
    del contents
    if not gc.is_tracked(L):
        raise Violation("gc-untracked", what)
    del node, L, put
    gc.collect()
    gc.collect()
    alive = [x for x in w if x() is not None]
    if alive:
        raise Violation("gc-leak", "%s: %d of %d objects were not reclaimed" % (what, len(alive), len(w)))
    ctx.count("cycles reclaimed")
    ctx.distinct("cycle", kind.name, shape, where, cls.__name__, len(w))
    ctx.sample(what)


# -- leaks --------------------------------------------------------------------------------------
def _fails(fn):
    try:
        fn()
    except Exception:
        pass  # whether it has to fail is another property's matter


def big(i):
    return 10 ** 6 + i


# -- arguments: every object that takes part in one call, and what callbacks hand over, comes back with one reference ----
class Tracker:
    def __init__(self, rng, kind):
        self.rng, self.kind, self.objects, self.fuse = rng, kind, [], None

    def __call__(self, o):
        self.objects.append(o)
        return o

    def fire(self, what):
        """A callback: may raise a tracked exception."""
        if self.fuse is not None:
            self.fuse -= 1
            if self.fuse < 0:
                self.fuse = None
                raise self(Boom(what))


class TIndex:
    def __init__(self, t, v):
        self.t, self.v = t, v

    def __index__(self):
        self.t.fire("index")
        return self.t(int(str(self.v)))


class TEq:
    """An element of object lists whose comparisons return tracked objects."""

    def __init__(self, t, n):
        self.t, self.n = t, n

    def __eq__(self, other):
        self.t.fire("eq")
        return self.t(TBool(self.t, isinstance(other, TEq) and self.n == other.n))

    def __lt__(self, other):
        self.t.fire("lt")
        return self.t(TBool(self.t, self.n < other.n)) if isinstance(other, TEq) else NotImplemented

    __hash__ = object.__hash__

    def __repr__(self):
        self.t.fire("repr")
        return self.t("".join(["TEq", str(self.n + 1000)]))


class TBool:
    def __init__(self, t, v):
        self.t, self.v = t, v

    def __bool__(self):
        self.t.fire("bool")
        return self.v


class TIter:
    def __init__(self, t, data, hint):
        self.t, self.data, self.hint = t, data, hint

    def __iter__(self):
        self.t.fire("iter")
        return self.t(TNext(self.t, self.data))

    def __length_hint__(self):
        self.t.fire("hint")
        return self.hint if self.hint is NotImplemented else self.t(int(str(self.hint)))


class TNext:
    def __init__(self, t, data):
        self.t, self.data, self.i = t, data, 0

    def __iter__(self):
        return self

    def __next__(self):
        self.t.fire("next")
        self.i += 1
        if self.i > len(self.data):
            raise StopIteration
        return self.data[self.i - 1]


class TSeq:
    def __init__(self, t, data):
        self.t, self.data = t, data

    def __len__(self):
        self.t.fire("len")
        return self.t(int(str(len(self.data))))

    def __getitem__(self, i):
        self.t.fire("getitem")
        return self.data[i]


def t_value(t):
    rng = t.rng
    if t.kind.is_int:
        return t(int(str(rng.choice([300, -300, 1, -1]) * rng.randrange(1, 1000))))
    r = rng.random()
    if r < 0.5:
        return t(TEq(t, rng.randrange(4)))
    return t(float("%d.5" % rng.randrange(4))) if r < 0.7 else t(Obj(rng.randrange(4))) if r < 0.9 else None


def t_bad(t):
    rng = t.rng
    return t(rng.choice([lambda: "".join(["x", "y"]), lambda: 2 ** 70 + rng.randrange(9), lambda: Obj(1), lambda: [1],
                         lambda: 1.5 * rng.randrange(3, 9)])())


def t_values(t):
    n = t.rng.choice([0, 1, 2, 3, 5, 9, 20])
    data = [t_value(t) for _ in range(n)]
    if n and t.rng.random() < 0.2:
        data[t.rng.randrange(n)] = t_bad(t)
    return data


def t_container(t, data=None):
    rng, kind = t.rng, t.kind
    data = t_values(t) if data is None else data
    hint = rng.choice([NotImplemented, len(data), 0, 1, 1000, -3])
    try:
        return t(rng.choice([
            lambda: list(data), lambda: list(data), lambda: tuple(data) if len(data) > 1 else list(data), lambda: iter(list(data)),
            lambda: (x for x in data), lambda: dict.fromkeys(data), lambda: {i: x for i, x in enumerate(data)}.values(),
            lambda: kind.cls(data), lambda: KINDS[rng.choice(list(KINDS))].cls(data), lambda: TIter(t, data, hint),
            lambda: TIter(t, data, hint), lambda: TSeq(t, data), lambda: map(lambda x: x, data), lambda: iter(kind.cls(data)),
            lambda: range(rng.randrange(1000, 1005), 1007), lambda: array.array("l", [400, 500]), lambda: bytes([1, 2, 3]),
            lambda: Obj(1), lambda: 1000 + rng.randrange(99), lambda: type("SubList", (list,), {})(data),
            lambda: reversed(data), lambda: memoryview(bytearray(b"abc"))])())
    except Exception:
        return t(list(data))


def t_number(t, n):
    rng = t.rng
    v = rng.choice([0, 1, -1, n // 2, n - 1, n, -n, -n - 1, n + 5, 3])
    r = rng.random()
    return v if r < 0.3 else t(TIndex(t, v)) if r < 0.7 else t(TIndex(t, v + 2 ** 70)) if r < 0.75 else t_bad(t) if r < 0.85 \
        else t(int(str(v * 1000 + 300)))


def t_slice(t, n):
    rng = t.rng
    part = lambda: None if rng.random() < 0.3 else t_number(t, n)
    return t(slice(part(), part(), rng.choice([None, None, 1, 2, -1, 0])))


def t_key(t):
    def key(x):
        if t.kind.is_int:
            t(x)  # made by the list for this call
        t.fire("key")
        return t(TEq(t, 3 if not isinstance(x, (int, TEq, Obj)) else getattr(x, "n", x) % 3))
    return t(key)


def t_existing(t, L):
    if len(L) and t.rng.random() < 0.6:
        v = L[t.rng.randrange(len(L))]
        if t.kind.is_int and v is not None:
            return t(int(str(v)))
        return v
    return t_bad(t) if t.rng.random() < 0.2 else t_value(t)


def t_keywords(t, **kw):
    """A keyword dictionary with names that are not interned."""
    return t({t("".join([k[:1], k[1:]])): v for k, v in kw.items()})


CALLS = {
    "append": lambda t, L: (lambda v: lambda: L.append(v))(t_value(t) if t.rng.random() < 0.7 else t_bad(t)),
    "extend": lambda t, L: (lambda c: lambda: L.extend(c))(t_container(t)),
    "iadd": lambda t, L: (lambda c: lambda: operator.iadd(L, c))(t_container(t)),
    "add": lambda t, L: (lambda c: lambda: L + c)(t_container(t)),
    "setslice": lambda t, L: (lambda i, c: lambda: operator.setitem(L, i, c))(t_slice(t, len(L)), t_container(t)),
    "setslice-plain": lambda t, L: (lambda i, c: lambda: operator.setitem(L, i, c))(t(slice(1, 3)), t_container(t)),
    "delslice": lambda t, L: (lambda i: lambda: operator.delitem(L, i))(t_slice(t, len(L))),
    "getslice": lambda t, L: (lambda i: lambda: L[i])(t_slice(t, len(L))),
    "getitem": lambda t, L: (lambda i: lambda: L[i])(t_number(t, len(L))),
    "setitem": lambda t, L: (lambda i, v: lambda: operator.setitem(L, i, v))(t_number(t, len(L)), t_value(t)),
    "setitem-bad": lambda t, L: (lambda i, v: lambda: operator.setitem(L, i, v))(t_number(t, len(L)), t_bad(t)),
    "delitem": lambda t, L: (lambda i: lambda: operator.delitem(L, i))(t_number(t, len(L))),
    "insert": lambda t, L: (lambda i, v: lambda: L.insert(i, v))(t_number(t, len(L)), t_value(t)),
    "insert-bad": lambda t, L: (lambda i, v: lambda: L.insert(i, v))(t_number(t, len(L)), t_bad(t)),
    "pop": lambda t, L: (lambda i: lambda: L.pop(i))(t_number(t, len(L))),
    "pop-last": lambda t, L: lambda: L.pop(),
    "remove": lambda t, L: (lambda v: lambda: L.remove(v))(t_existing(t, L)),
    "index": lambda t, L: (lambda v, a: lambda: L.index(v, *a))(t_existing(t, L), t_numbers(t, L)),
    "count": lambda t, L: (lambda v: lambda: L.count(v))(t_existing(t, L)),
    "in": lambda t, L: (lambda v: lambda: v in L)(t_existing(t, L)),
    "mul": lambda t, L: (lambda i: lambda: L * i)(t_number(t, 3)),
    "rmul": lambda t, L: (lambda i: lambda: i * L)(t_number(t, 3)),
    "imul": lambda t, L: (lambda i: lambda: operator.imul(L, i))(t_number(t, 3)),
    "compare": lambda t, L: (lambda f, c: lambda: f(L, c))(t.rng.choice([operator.eq, operator.ne, operator.lt, operator.le,
                                                                       operator.gt, operator.ge]), t_container(t)),
    "compare-near": lambda t, L: (lambda f, c: lambda: f(L, c))(t.rng.choice([operator.eq, operator.ne, operator.lt, operator.ge]),
                                                               t_container(t, L.to_list())),
    "sort": lambda t, L: (lambda kw: lambda: L.sort(**kw))(t_keywords(t, **t.rng.choice([
        {}, {"key": t_key(t)}, {"key": t_key(t), "reverse": t(TBool(t, True))}, {"reverse": t(TBool(t, True))},
        {"reverse": t(TIndex(t, 1))}, {"key": t_bad(t)}, {"key": None}, {"wrong": t_value(t)}]))),
    "construct": lambda t, L: (lambda c: lambda: t.kind.cls(c))(t_container(t)),
    "construct-hint": lambda t, L: (lambda c, i: lambda: t.kind.cls(c, i))(t_container(t), t_number(t, 5)),
    "construct-keywords": lambda t, L: (lambda kw: lambda: t.kind.cls(**kw))(t_keywords(t, **t.rng.choice([
        {"iterable": t_container(t)}, {"exceptSize": t_number(t, 9)}, {"iterable": t_container(t), "exceptSize": t_number(t, 9)},
        {"wrong": t_container(t)}]))),
    "reinit": lambda t, L: (lambda c: lambda: L.__init__(c))(t_container(t)),
    "repr": lambda t, L: lambda: repr(L),
    "iterate": lambda t, L: lambda: [x for x in L] + list(reversed(L)),
    "copies": lambda t, L: lambda: [L.copy(), L.to_list(), L[:], L + L, L * 2],
    "resize": lambda t, L: (lambda i: lambda: L.resize(i))(t_number(t, len(L))),
    "from_range": lambda t, L: (lambda a: lambda: L.from_range(*a))(t_numbers(t, L) or (t_number(t, 9),)),
    "clear": lambda t, L: lambda: L.clear(),
    "reverse": lambda t, L: lambda: L.reverse(),
    "wrong-count": lambda t, L: (lambda m, a: lambda: getattr(L, m)(*a))(
        t.rng.choice(["append", "extend", "insert", "pop", "index", "remove", "count", "sort", "clear", "reverse", "copy"]),
        t(tuple(t_value(t) for _ in range(t.rng.choice([0, 4, 5]))) or [])),
}


def t_numbers(t, L):
    return t([t_number(t, len(L)) for _ in range(t.rng.randrange(4))])


def arguments_case(ctx, kind, case):
    rng = ctx.rng
    name = list(CALLS)[case % len(CALLS)]
    t = Tracker(rng, kind)
    data = []
    for _ in range(rng.choice([0, 1, 3, 6, 17])):
        data.append(t_value(t))
    L = kind.cls(data)
    at = len(t.objects)
    t(L)
    call = CALLS[name](t, L)
    note = "%s of %d elements: %s" % (kind, len(data), name)
    ctx.mark(note)
    if rng.random() < 0.4:
        t.fuse = rng.choice([0, 0, 1, 2, 3, 6, 10])
    result = None
    try:
        result = call()
        outcome = "result"
        if name in ("getslice", "add", "mul", "rmul", "construct", "construct-hint", "construct-keywords", "from_range") and \
                type(result) in (list, kind.cls) and result is not L and sys.getrefcount(result) != 2:
            raise Violation("refs-result", "%s: the new list is held %d times" % (note, sys.getrefcount(result) - 1))
    except SystemError:
        raise
    except (Exception) as e:
        outcome = type(e).__name__
        if isinstance(e, Violation):
            raise
        e.__traceback__ = e.__context__ = e.__cause__ = None
        del e
    t.fuse = None
    if outcome != "result":  # an exception may have been replaced, its traceback goes too
        for o in t.objects:
            if isinstance(o, Boom):
                o.__traceback__ = o.__context__ = o.__cause__ = None
    o = result = call = data = L = None
    objects = t.objects
    total = len(objects)
    if sys.getrefcount(objects[at]) != 2:
        raise Violation("refs-argument", "%s (%s): the list itself is still held %d times" % (
            note, outcome, sys.getrefcount(objects[at]) - 1))
    del objects[at]  # it may hold what came later
    while objects:
        # the newest first: whatever it holds is older
        count = sys.getrefcount(objects[-1])
        if count != 2 and count < 1 << 31:
            o = objects[-1]
            raise Violation("refs-argument", "%s (%s): a %s that took part (%.80s) is still held %d times instead of once" % (
                note, outcome, type(o).__name__, type(o) is Boom and o.args or o, count - 1))
        objects.pop()
    ctx.count("objects taking part whose counts were compared", total)
    ctx.distinct("arguments", kind.name, name, outcome, total)


LEAKS = [
    ("construct-list", lambda c, v: c(v)), ("construct-tuple", lambda c, v: c(tuple(v))),
    ("construct-generator", lambda c, v: c(x for x in v)), ("construct-same", lambda c, v: c(c(v))),
    ("construct-range", lambda c, v: c(range(1000000, 1000020))), ("reinit", lambda c, v: c(v).__init__(v)),
    ("reinit-empty", lambda c, v: c(v).__init__()), ("new-only", lambda c, v: c.__new__(c)),
    ("construct-bad", lambda c, v: _fails(lambda: c(object()))), ("construct-raising", lambda c, v: _fails(lambda: c(raising_iter(v, 3)))),
    ("append", lambda c, v: [c().append(x) for x in v]), ("extend", lambda c, v: c(v).extend(v)),
    ("extend-self", lambda c, v: (lambda L: L.extend(L))(c(v))), ("extend-generator", lambda c, v: c().extend(iter(v))),
    ("extend-raising", lambda c, v: _fails(lambda: c(v).extend(raising_iter(v, 4)))),
    ("extend-bad", lambda c, v: _fails(lambda: c(v).extend(7))),
    ("insert", lambda c, v: c(v).insert(3, v[0])), ("pop", lambda c, v: c(v).pop()), ("pop0", lambda c, v: c(v).pop(0)),
    ("pop-bad", lambda c, v: _fails(lambda: c(v).pop(1000))), ("remove", lambda c, v: c(v).remove(v[3])),
    ("remove-missing", lambda c, v: _fails(lambda: c(v).remove(-1))), ("index", lambda c, v: c(v).index(v[-1])),
    ("index-missing", lambda c, v: _fails(lambda: c(v).index(-5))), ("count", lambda c, v: c(v).count(v[0])),
    ("contains", lambda c, v: (v[0] in c(v), 12345 in c(v))), ("getitem", lambda c, v: [c(v)[i] for i in range(5)]),
    ("getitem-bad", lambda c, v: _fails(lambda: c(v)[999])), ("getitem-type", lambda c, v: _fails(lambda: c(v)["x"])),
    ("slice", lambda c, v: c(v)[2:9]), ("slice-step", lambda c, v: c(v)[::-2]),
    ("setitem", lambda c, v: c(v).__setitem__(2, v[0])), ("setitem-bad", lambda c, v: _fails(lambda: c(v).__setitem__(99, v[0]))),
    ("delitem", lambda c, v: c(v).__delitem__(2)), ("setslice", lambda c, v: c(v).__setitem__(slice(2, 5), v)),
    ("setslice-shrink", lambda c, v: c(v).__setitem__(slice(2, 9), v[:2])),
    ("setslice-same", lambda c, v: c(v).__setitem__(slice(2, 9), c(v))),
    ("setslice-self", lambda c, v: (lambda L: L.__setitem__(slice(1, 3), L))(c(v))),
    ("setslice-raising", lambda c, v: _fails(lambda: c(v).__setitem__(slice(2, 3), raising_iter(v, 2)))),
    ("setslice-bad", lambda c, v: _fails(lambda: c(v).__setitem__(slice(2, 3), 7))),
    ("delslice", lambda c, v: c(v).__delitem__(slice(2, 9))), ("add", lambda c, v: c(v) + c(v)),
    ("add-list", lambda c, v: c(v) + v), ("add-bad", lambda c, v: _fails(lambda: c(v) + 7)),
    ("iadd", lambda c, v: c(v).__iadd__(v)), ("mul", lambda c, v: c(v) * 3), ("rmul", lambda c, v: 3 * c(v)),
    ("imul", lambda c, v: c(v).__imul__(3)), ("imul0", lambda c, v: c(v).__imul__(0)),
    ("mul-bad", lambda c, v: _fails(lambda: c(v) * "a")), ("reverse", lambda c, v: c(v).reverse()),
    ("sort", lambda c, v: c(v).sort()), ("sort-key", lambda c, v: c(v).sort(key=lambda x: -big(x if isinstance(x, int) else 0))),
    ("sort-key-raising", lambda c, v: _fails(lambda: c(v).sort(key=lambda x: 1 // 0))),
    ("sort-key-late", lambda c, v: _fails(lambda: c(v).sort(key=Late(len(v) - 1)))),
    ("sort-incomparable", lambda c, v: _fails(lambda: c(v).sort(key=Late(len(v) - 3, "a").key))),
    ("sort-lt-late", lambda c, v: _fails(lambda: c(v).sort(key=Late(len(v) * 3).compared))),
    ("sort-meddled", lambda c, v: (lambda L: _fails(lambda: L.sort(key=lambda x: L.append(x))))(c(v))),
    ("sort-list-meddled", lambda c, v: (lambda L: _fails(lambda: L.sort(key=lambda x: L.clear())))(c(v))),
    ("eq-late", lambda c, v: _fails(lambda: c(v) == v[:-1] + [Late(0).compared(0)])),
    ("construct-raising-late", lambda c, v: _fails(lambda: c(raising_iter(v * 2, len(v) * 2 - 1)))),
    ("extend-raising-late", lambda c, v: _fails(lambda: c(v).extend(raising_iter(v * 2, len(v) * 2 - 1)))),
    ("setslice-raising-late", lambda c, v: _fails(lambda: c(v).__setitem__(slice(2, 3), raising_iter(v * 2, len(v) * 2 - 1)))),
    ("sort-bad", lambda c, v: _fails(lambda: c(v).sort(key=7))), ("clear", lambda c, v: c(v).clear()),
    ("copy", lambda c, v: c(v).copy()), ("to_list", lambda c, v: c(v).to_list()), ("iter", lambda c, v: [x for x in c(v)]),
    ("iter-half", lambda c, v: next(iter(c(v)))), ("reversed", lambda c, v: list(reversed(c(v)))),
    ("reversed-half", lambda c, v: next(reversed(c(v)))), ("repr", lambda c, v: (repr(c(v)), str(c(v)))),
    ("compare", lambda c, v: (c(v) == v, c(v) != v, c(v) < c(v), c(v) <= v[:3], c(v) == 7)),
    ("compare-bad", lambda c, v: _fails(lambda: c(v) < 7)), ("hash", lambda c, v: _fails(lambda: hash(c(v)))),
    ("from_range", lambda c, v: c.from_range(1000000, 1000100, 3) if hasattr(c, "from_range") else None),
    ("from_range-bad", lambda c, v: _fails(lambda: c.from_range(1, 2, 0))),
    ("resize", lambda c, v: c(v).resize(300) if hasattr(c, "resize") else None),
    ("resize-shrink", lambda c, v: c(v).resize(2) if hasattr(c, "resize") else None),
    ("resize-bad", lambda c, v: _fails(lambda: c(v).resize(-1))),
    ("buffer", lambda c, v: memoryview(c(v)).tolist() if c.__name__.endswith("IntArrayList") else None),
    ("subclass", lambda c, v: SUBS[c](v)), ("cycle", lambda c, v: (lambda L: L.append(L))(c(v)) if "Obj" in c.__name__ else None),
    ("class-getitem", lambda c, v: c[int]), ("exceptsize", lambda c, v: c(exceptSize=100)),
    ("exceptsize-bad", lambda c, v: _fails(lambda: c(exceptSize="x"))),
]
SUBS = {}


class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks",
                                               "uordblks", "fordblks", "keepcost")]


def c_memory():
    f = ctypes.CDLL(None).mallinfo2
    f.restype = MallInfo
    m = f()
    return m.uordblks + m.hblkhd


class Late:
    """A key that fails late, or whose answers can't be compared any more then."""

    def __init__(self, left, other=None):
        self.left, self.other = left, other

    def __call__(self, x):
        self.left -= 1
        if self.left < 0:
            raise ValueError("late")
        return -self.left % 7

    def key(self, x):
        self.left -= 1
        return self.other if self.left < 0 else self.left % 7 + 1000

    def compared(self, x):
        return Compared(self, x)


class Compared:
    def __init__(self, late, x):
        self.late, self.x = late, x

    def __lt__(self, other):
        self.late(0)
        return self.x < other.x

    def __eq__(self, other):
        self.late(0)
        return self is other
    __hash__ = None


def leak_case(ctx, kind, case):
    name, call = LEAKS[case % len(LEAKS)]
    rng = ctx.rng
    n = [20, 300, 64, 10][case // len(LEAKS)] if case < 4 * len(LEAKS) else rng.choice([10, 64, 128, 256, 300, 700])
    cls = kind.cls
    SUBS.setdefault(cls, type("Sub", (cls,), {}))
    if kind.is_int:
        values = [big(i * 7 % 13) for i in range(n)]
    else:
        values = [1000.5 + i * 7 % 13 for i in range(n)]
    ctx.mark("%s %s" % (kind, name))

    def run(times):
        for _ in range(times):
            try:
                call(cls, values)
            except (TypeError, AttributeError, NotImplementedError):
                if name in ("exceptsize", "class-getitem"):
                    return False
                raise
            except Violation:
                if name in ("from_range-bad", "resize-bad"):
                    return False
                raise
        if name == "cycle":
            gc.collect()
        return True

    if not run(20):
        return
    counts = lambda: ([sys.getrefcount(values)] + [sys.getrefcount(v) for v in values], sys.getrefcount(cls), sys.getrefcount(SUBS[cls]))
    for attempt in range(3):
        gc.collect()
        before = (sys.getallocatedblocks(), c_memory(), counts())
        run(200)
        gc.collect()
        after = (sys.getallocatedblocks(), c_memory(), counts())
        blocks, memory = after[0] - before[0], after[1] - before[1]
        same = [a - b for a, b in zip(after[2][0], before[2][0])]
        types = (after[2][1] - before[2][1], after[2][2] - before[2][2])
        if blocks < 100 and memory < 200 * (16 if n <= 20 else 2 * n) and not any(abs(d) >= 100 for d in same) \
                and all(abs(t) < 100 for t in types):
            break
    else:
        raise Violation("leak-" + name, "%s: 200 calls of %s with %d elements left %d blocks, %d bytes of C memory, "
                        "reference counts moved by %r, types by %r (three times in a row)" % (
                            kind, name, n, blocks, memory, same[:13], types))
    ctx.count("calls repeated for leaks", 200)
    ctx.distinct("leak", kind.name, name, n)


# -- calls whose allocations fail leave nothing behind --------------------------------------------
def failing_case(ctx, kind, case):
    rng = ctx.rng
    fm = failing_case.fm = getattr(failing_case, "fm", None) or failing.module()
    name = list(L10.ALLOC)[case % len(L10.ALLOC)]
    build = L10.ALLOC[name][1]
    n = rng.choice([0, 1, 2, 8, 16, 33])
    pool = [int(str(rng.randint(*kind.bounds))) for _ in range(60)] if kind.is_int else ["E%d" % i for i in range(60)]
    base = [rng.choice(pool) for _ in range(n)]
    new = [rng.choice(pool) for _ in range(60)]
    what = "%s of %d: %s" % (kind, n, name)
    ctx.mark(what)

    def make():
        fn, args, kw = build(kind, kind.cls(base), new)
        return fn, args

    def check(at, mode):
        ctx.mark("%s, allocation %d mode %d" % (what, at, mode))
        left, seen, failures, raised = failing.kept(fm, at, mode, make)
        if left:
            raise Violation("leak-failing-" + name, "%s, allocation %d failing (mode %d): %d block%s stay "
                            "in use every time" % (what, at, mode, left, "s" * (left > 1)))
        ctx.count("calls with failing allocations that left nothing", 1)
        ctx.distinct("failing", kind.name, name, n, at, mode, raised)
        return seen
    seen = check(0, 0)
    points = list(range(1, seen + 1))
    if len(points) > 24:
        points = points[:8] + rng.sample(points[8:-4], 10) + points[-4:]
    for mode in (1, 2):
        for at in points:
            check(at, mode)
