"""The five list types, a generator of list operations and the step-by-step comparison with a built-in list."""
import math

from lib.monitor import Violation
from pyfastutil.ints import BigIntArrayList, IntArrayList, IntLinkedList
from pyfastutil.objects import ObjectArrayList, ObjectLinkedList

I32 = (-2 ** 31, 2 ** 31 - 1)
I64 = (-2 ** 63, 2 ** 63 - 1)


class Kind:
    def __init__(self, cls, bounds, linked, resize):
        self.cls, self.bounds, self.linked, self.resize = cls, bounds, linked, resize
        self.name = cls.__name__
        self.is_int = bounds is not None
        self.fill = 0 if self.is_int else None

    def __repr__(self):
        return self.name


KINDS = {k.name: k for k in (
    Kind(IntArrayList, I32, False, True),
    Kind(BigIntArrayList, I64, False, True),
    Kind(IntLinkedList, I32, True, False),
    Kind(ObjectArrayList, None, False, True),
    Kind(ObjectLinkedList, None, True, False),
)}

BOUNDARY_SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 47, 48, 63, 64, 65, 100, 127, 128, 129]
BIG_SIZES = [255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]


class Eq:
    """Equal to every other Eq with the same number, but never the same object."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return self.n == other.n if isinstance(other, Eq) else NotImplemented

    def __hash__(self):
        return hash(self.n)

    def __lt__(self, other):
        return self.n < other.n if isinstance(other, Eq) else NotImplemented

    def __repr__(self):
        return "Eq(%d)" % self.n


class Index:
    def __init__(self, n):
        self.n = n

    def __index__(self):
        return self.n

    def __repr__(self):
        return "Index(%d)" % self.n


class Values:
    """Source of the elements of one case."""

    def __init__(self, rng, kind):
        self.rng, self.kind = rng, kind
        if kind.is_int:
            lo, hi = kind.bounds
            edge = [lo, lo + 1, -2, -1, 0, 1, 2, hi - 1, hi]
            for p in (7, 8, 15, 16, 29, 30, 31, 32, 33, 59, 60, 61, 62):
                for d in (-1, 0, 1):
                    for s in (-1, 1):
                        v = s * 2 ** p + d
                        if lo <= v <= hi:
                            edge.append(v)
            self.edge = edge
            self.mode = rng.choice(["few", "small", "edge", "wide", "mixed"])
        else:
            nan = float("nan")
            pool = [0, 1, True, 1.0, -5, 2 ** 40, 2 ** 40 + 0, 10 ** 30, "a", "".join(["b", "c"]), "bc", b"x", None, nan,
                    float("nan"), (1, 2), (1, 2.0), [1], [1], {}, Eq(1), Eq(1), Eq(2), object(), object(), Ellipsis,
                    3 + 0j, frozenset([1]), int]
            pool += [int(str(1000 + rng.randrange(3))) for _ in range(4)]
            rng.shuffle(pool)
            self.pool = pool[:rng.choice([3, 6, 12, 40])]

    def one(self):
        rng = self.rng
        if not self.kind.is_int:
            return rng.choice(self.pool)
        mode = self.mode if self.mode != "mixed" else rng.choice(["few", "small", "edge", "wide"])
        if mode == "few":
            return rng.randrange(4)
        if mode == "small":
            return rng.randrange(-300, 300)
        if mode == "edge":
            return rng.choice(self.edge)
        return rng.randint(*self.kind.bounds)

    def many(self, n):
        return [self.one() for _ in range(n)]

    def fresh(self, v):
        """An equal value that is another object where that is possible."""
        if type(v) is int:
            return int(str(v))
        if type(v) is tuple:
            return tuple(list(v))
        if type(v) is Eq:
            return Eq(v.n)
        return v


def some_index(rng, n):
    r = rng.random()
    if r < 0.55 and n:
        i = rng.randrange(-n, n)
    elif r < 0.9:
        i = rng.choice([0, -1, n - 1, n, n + 1, -n, -n - 1, 1, -2, n // 2])
    else:
        i = rng.choice([10 ** 6, -10 ** 6, 2 ** 31, -2 ** 31, 2 ** 62, -2 ** 62])
    if rng.random() < 0.05:
        return Index(i)
    return i


def some_slice(rng, n, steps):
    def bound():
        r = rng.random()
        if r < 0.25:
            return None
        if r < 0.9:
            return rng.randrange(-n - 2, n + 3)
        return rng.choice([10 ** 9, -10 ** 9, 2 ** 70, -2 ** 70])
    step = rng.choice(steps)
    if len(steps) > 3 and rng.random() < 0.08:  # lists of steps other than 1
        step = rng.choice([2, 4, 8, 16, 32, 64, 128]) * rng.choice([1, -1]) + rng.choice([0, 0, 1])
        if step in (0, 1):
            step = 2
    return slice(bound(), bound(), step)


def some_iterable(rng, kind, values, sizes=(0, 1, 2, 3, 5, 8, 20, 33), hashable=False):
    """Returns (description, builder); builder(side) makes a fresh argument for the subject or the model."""
    data = values.many(rng.choice(sizes))
    shape = rng.choice(["list", "tuple", "generator", "same", "iter", "map", "deque", "other", "listsub", "tuplesub", "own"]
                       + (["range"] if kind.is_int else ["str", "dict"]))
    if shape == "range":
        data = list(range(rng.randrange(-5, 5), rng.randrange(-5, 40), rng.choice([1, 2, 3])))
        r = data[:]
        lo, hi, st = (data[0], data[-1] + 1, (data[1] - data[0])) if len(data) > 1 else (0, len(data), 1)
        rr = range(lo, hi, st)
        return "range%r" % ((lo, hi, st),), lambda side: rr, list(rr)
    if shape == "str":
        text = "".join(rng.choice("abcd") for _ in data)
        return repr(text), lambda side: text, list(text)
    if shape == "dict":
        d = {i: None for i in range(len(data))}
        return repr(d), lambda side: dict(d), list(d)
    if shape == "other":
        other = rng.choice([k for k in KINDS.values() if k.is_int == kind.is_int or not k.is_int])
        if other.bounds == I32 and kind.bounds == I64:
            other = KINDS["ObjectLinkedList"]
        return "%s(%r)" % (other, data), (lambda side: other.cls(data) if side == "S" else list(data)), data
    if shape == "own":  # what counts is what the subclass's __iter__ gives
        base = rng.choice([kind.cls, kind.cls, list, tuple, KINDS["ObjectArrayList"].cls, KINDS["ObjectLinkedList"].cls])
        told = rng.choice([lambda v: v[::-1], lambda v: v[::2], lambda v: v[1:] + v[:1], lambda v: v + v, lambda v: []])

        def build(side):
            L = own_iter(base)(data)
            L.give = told(data)
            return L
        return "%s with its own __iter__ (%r)%r" % (base.__name__, told(data), data), build, told(data)
    import collections
    make = {
        "list": lambda side: list(data),
        "tuple": lambda side: tuple(data),
        "generator": lambda side: (x for x in data),
        "iter": lambda side: iter(data),
        "map": lambda side: map(lambda x: x, data),
        "deque": lambda side: collections.deque(data),
        "same": lambda side: kind.cls(data) if side == "S" else list(data),
        "listsub": lambda side: ListSub(data),
        "tuplesub": lambda side: TupleSub(data),
    }[shape]
    return "%s:%r" % (shape, data), make, data


OWN = {}


def own_iter(base):
    """A subclass with its own __iter__, made once (a class is a reference cycle that would keep what it refers to)."""
    if base not in OWN:
        OWN[base] = type("Own", (base,), {"__iter__": lambda self: iter(self.give)})
    return OWN[base]


class ListSub(list):
    pass


class TupleSub(tuple):
    pass


class Op:
    __slots__ = ("name", "desc", "fn", "expect", "allow", "grow", "key")

    def __init__(self, name, desc, fn, expect="value", allow=(), grow=0, key=None):
        self.name, self.desc, self.fn, self.expect, self.allow, self.grow = name, desc, fn, expect, allow, grow
        self.key = key or name


STEP_ALLOW = (NotImplementedError,)


def gen_op(rng, kind, values, model, limit=300):
    n = len(model)
    big = n > limit
    while True:
        name = rng.choices(OP_NAMES, OP_WEIGHTS)[0]
        if big and name in ("extend", "iadd", "imul", "insert", "append", "add", "mul"):
            name = rng.choice(["delslice", "clear", "resize", "delslice", "imul0"])
        if name == "resize" and not kind.resize:
            continue
        return OPS[name](rng, kind, values, n, model)


def _existing(rng, values, model):
    if model and rng.random() < 0.7:
        v = model[rng.randrange(len(model))]
        return values.fresh(v) if rng.random() < 0.5 else v
    return values.one()


def op_append(rng, kind, values, n, model):
    v = values.one()
    return Op("append", repr(v), lambda L, s: L.append(v), grow=1)


def op_extend(rng, kind, values, n, model):
    d, mk, data = some_iterable(rng, kind, values)
    return Op("extend", d, lambda L, s: L.extend(mk(s)), grow=len(data), key="extend-" + d.split(":")[0].split("(")[0][:12])


def op_reinit(rng, kind, values, n, model):
    """The initializer called again replaces the contents."""
    hint = rng.choice([0, 1, n, 2 * n, 100]) if kind.resize and rng.random() < 0.3 else None
    if rng.random() < 0.2:
        return Op("reinit", "" if hint is None else "%d" % hint,
                  lambda L, s: L.__init__() if s == "M" or hint is None else L.__init__(hint))
    if rng.random() < 0.4:
        data = values.many(rng.choice([0, 1, 2, n, rng.randrange(70)]) % 3000)
        d, mk = "%s(%r)" % (kind.name, data), lambda s: kind.cls(data) if s == "S" else data
    else:
        d, mk, data = some_iterable(rng, kind, values)
    return Op("reinit", d, lambda L, s: L.__init__(mk(s)) if s == "M" or hint is None else L.__init__(mk(s), hint),
              key="reinit-" + d.split(":")[0].split("(")[0][:12])


def op_extend_self(rng, kind, values, n, model):
    return Op("extend_self", "", lambda L, s: L.extend(L), grow=n)


def op_insert(rng, kind, values, n, model):
    i, v = some_index(rng, n), values.one()
    return Op("insert", "%r, %r" % (i, v), lambda L, s: L.insert(i, v), grow=1)


def op_pop(rng, kind, values, n, model):
    return Op("pop", "", lambda L, s: L.pop())


def op_pop_i(rng, kind, values, n, model):
    i = some_index(rng, n)
    return Op("pop_i", repr(i), lambda L, s: L.pop(i))


def op_remove(rng, kind, values, n, model):
    v = _existing(rng, values, model)
    return Op("remove", repr(v), lambda L, s: L.remove(v))


def op_index(rng, kind, values, n, model):
    v = _existing(rng, values, model)
    args = (v,)
    if rng.random() < 0.6:
        args += (rng.randrange(-n - 2, n + 3),)
        if rng.random() < 0.6:
            args += (rng.randrange(-n - 2, n + 3),)
    return Op("index", repr(args), lambda L, s: L.index(*args))


def op_count(rng, kind, values, n, model):
    v = _existing(rng, values, model)
    return Op("count", repr(v), lambda L, s: L.count(v))


def op_contains(rng, kind, values, n, model):
    v = _existing(rng, values, model)
    if kind.is_int and rng.random() < 0.2:
        v = rng.choice([kind.bounds[1] + 1, kind.bounds[0] - 1, 2 ** 80, -2 ** 80, 2 ** 32, -2 ** 32, 2 ** 64])
    return Op("contains", repr(v), lambda L, s: v in L)


def op_len(rng, kind, values, n, model):
    return Op("len", "", lambda L, s: (len(L), bool(L)))


def op_getitem(rng, kind, values, n, model):
    i = some_index(rng, n)
    return Op("getitem", repr(i), lambda L, s: L[i])


def op_getslice(rng, kind, values, n, model):
    sl = some_slice(rng, n, [None, 1, 1, 2, 3, 7, -1, -1, -2, -3, 100, -100, n or 1])
    return Op("getslice", repr(sl), lambda L, s: L[sl], "list")


def op_setitem(rng, kind, values, n, model):
    i, v = some_index(rng, n), values.one()

    def fn(L, s):
        L[i] = v
    return Op("setitem", "%r = %r" % (i, v), fn)


def op_delitem(rng, kind, values, n, model):
    i = some_index(rng, n)

    def fn(L, s):
        del L[i]
    return Op("delitem", repr(i), fn)


def op_setslice(rng, kind, values, n, model):
    sl = some_slice(rng, n, [None, 1])
    d, mk, data = some_iterable(rng, kind, values)

    def fn(L, s):
        L[sl] = mk(s)
    return Op("setslice", "%r = %s" % (sl, d), fn, grow=len(data))


def op_setslice_self(rng, kind, values, n, model):
    sl = some_slice(rng, n, [None, 1])

    def fn(L, s):
        L[sl] = L
    return Op("setslice_self", repr(sl), fn, grow=n)


def op_setslice_step(rng, kind, values, n, model):
    sl = some_slice(rng, n, [2, 3, -1, -2, -3, 5])
    k = len(range(*sl.indices(n)))
    data = values.many(k if rng.random() < 0.8 else rng.randrange(k + 3))

    def fn(L, s):
        L[sl] = data
    return Op("setslice_step", "%r = %r" % (sl, data), fn, allow=STEP_ALLOW)


def op_delslice(rng, kind, values, n, model):
    sl = some_slice(rng, n, [None, 1])

    def fn(L, s):
        del L[sl]
    return Op("delslice", repr(sl), fn)


def op_delslice_step(rng, kind, values, n, model):
    sl = some_slice(rng, n, [2, 3, -1, -2, -3])

    def fn(L, s):
        del L[sl]
    return Op("delslice_step", repr(sl), fn, allow=STEP_ALLOW)


def op_add(rng, kind, values, n, model):
    data = values.many(rng.choice([0, 1, 2, 9, 33]))
    if rng.random() < 0.5:
        return Op("add_list", repr(data), lambda L, s: L + list(data), "list")
    return Op("add_same", repr(data), lambda L, s: L + (kind.cls(data) if s == "S" else list(data)), "same")


def op_add_self(rng, kind, values, n, model):
    return Op("add_self", "", lambda L, s: L + L, "same")


def op_add_bad(rng, kind, values, n, model):
    bad = rng.choice([5, None, "ab", (1, 2), 1.5, {1: 2}])
    return Op("add_bad", repr(bad), lambda L, s: L + bad, "list")


def op_iadd(rng, kind, values, n, model):
    d, mk, data = some_iterable(rng, kind, values)

    def fn(L, s):
        L += mk(s)
        return L
    return Op("iadd", d, fn, "self", grow=len(data))


def op_iadd_self(rng, kind, values, n, model):
    def fn(L, s):
        L += L
        return L
    return Op("iadd_self", "", fn, "self", grow=n)


def op_mul(rng, kind, values, n, model):
    k = rng.choice([-1, 0, 1, 2, 3, 5, 17]) if n < 60 else rng.choice([-3, 0, 1, 2])
    if rng.random() < 0.5:
        return Op("mul", repr(k), lambda L, s: L * k, "same")
    return Op("rmul", repr(k), lambda L, s: k * L, "same")


def op_imul(rng, kind, values, n, model):
    k = rng.choice([1, 2, 3, 5, 8]) if n < 60 else rng.choice([1, 2])
    if rng.random() < 0.15:
        k = rng.choice([0, -1])

    def fn(L, s):
        L *= k
        return L
    return Op("imul", repr(k), fn, "self", grow=n * max(0, k - 1))


def op_imul0(rng, kind, values, n, model):
    k = rng.choice([0, -1, -2 ** 40])

    def fn(L, s):
        L *= k
        return L
    return Op("imul0", repr(k), fn, "self")


def op_mul_bad(rng, kind, values, n, model):
    bad = rng.choice(["a", 1.5, None, [1]])
    return Op("mul_bad", repr(bad), lambda L, s: L * bad, "same")


def op_reverse(rng, kind, values, n, model):
    return Op("reverse", "", lambda L, s: L.reverse())


def op_clear(rng, kind, values, n, model):
    return Op("clear", "", lambda L, s: L.clear())


def op_copy(rng, kind, values, n, model):
    return Op("copy", "", lambda L, s: L.copy(), "same")


def op_to_list(rng, kind, values, n, model):
    return Op("to_list", "", lambda L, s: L.to_list() if s == "S" else list(L), "list")


def op_iter(rng, kind, values, n, model):
    return Op("iter", "", lambda L, s: [x for x in L], "list")


def op_reversed(rng, kind, values, n, model):
    return Op("reversed", "", lambda L, s: list(reversed(L)), "list")


def op_repr(rng, kind, values, n, model):
    return Op("repr", "", lambda L, s: (repr(L), str(L)))


def op_construct(rng, kind, values, n, model):
    return Op("construct", "", lambda L, s: (kind.cls(L) if s == "S" else list(L)), "same")


def op_list(rng, kind, values, n, model):
    return Op("list", "", lambda L, s: list(L), "list")


def op_tuple(rng, kind, values, n, model):
    return Op("tuple", "", lambda L, s: list(tuple(L)), "list")


def op_eq(rng, kind, values, n, model):
    data = list(model)
    if rng.random() < 0.5 and data:
        data[rng.randrange(n)] = values.one()
    return Op("eq", "", lambda L, s: (L == data, L != data))


def op_hash(rng, kind, values, n, model):
    return Op("hash", "", lambda L, s: hash(L))


def op_resize(rng, kind, values, n, model):
    k = rng.choice([0, 1, n, n + 1, max(0, n - 1), n + 17, n // 2, 64, 65])
    if rng.random() < 0.1:
        k = -1

    def fn(L, s):
        if s == "S":
            return L.resize(k)
        if k < 0:
            raise ValueError
        L[k:] = []
        L.extend([kind.fill] * (k - len(L)))
    return Op("resize", repr(k), fn, grow=max(0, k - n))


def op_sort(rng, kind, values, n, model):
    rev = rng.random() < 0.5
    if kind.is_int:
        return Op("sort", repr(rev), lambda L, s: L.sort(reverse=rev))
    return Op("sort", repr(rev), lambda L, s: L.sort(key=repr_key, reverse=rev))


def repr_key(x):
    return str(type(x))


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}
WEIGHTS = {"append": 5, "extend": 4, "insert": 6, "pop": 3, "pop_i": 5, "remove": 4, "setitem": 5, "setslice": 6,
           "delslice": 3, "getslice": 4, "getitem": 3, "imul": 2, "resize": 2, "clear": 0.5, "reinit": 0.7, "imul0": 0.3, "hash": 0.2,
           "add_bad": 0.5, "mul_bad": 0.5, "extend_self": 0.7, "iadd_self": 0.7, "setslice_self": 0.7}
OP_NAMES = sorted(OPS)
OP_WEIGHTS = [WEIGHTS.get(n, 1.5) for n in OP_NAMES]


def same_item(kind, a, b):
    if kind.is_int:
        return type(a) is int and a == b
    return a is b


def same_items(kind, a, b):
    if len(a) != len(b):
        return False
    if kind.is_int:
        return a == b and all(type(x) is int for x in a)
    return all(x is y for x, y in zip(a, b))


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x is not y and x != y:
            return "first difference at %d: %r instead of %r (lengths %d, %d)" % (i, x, y, len(a), len(b))
    return "lengths %d instead of %d, or equal elements that are not the same objects" % (len(a), len(b))


def read(rng, kind, subject, ways=(0, 1, 2, 3, 4)):
    """The contents, through one of the ways to read them."""
    how = rng.choice(ways)
    if how == 0:
        return subject.to_list(), "to_list"
    if how == 1:
        return list(subject), "iteration"
    if how == 2:
        return [subject[i] for i in range(len(subject))], "indexing"
    if how == 3:
        return subject[:], "slice"
    r = list(reversed(subject))
    r.reverse()
    return r, "reversed"


def outcome(fn, container, side):
    try:
        return "ok", fn(container, side)
    except Exception as e:
        return "raise", e.with_traceback(None)


def acceptable(es, em, op):
    """Is the subject's exception es fine where the built-in list raised em?"""
    if isinstance(es, type(em)):
        return True
    if isinstance(em, (MemoryError, OverflowError)) and isinstance(es, (MemoryError, OverflowError, RuntimeError)) \
            and not isinstance(es, (RecursionError, NotImplementedError)):
        return True
    return isinstance(es, op.allow) if op.allow else False


def step(ctx, kind, subject, model, op, trace):
    """Runs one operation on both and compares results; returns (subject, model)."""
    ss, rs = outcome(op.fn, subject, "S")
    # an operation that declares itself unsupported has to change nothing
    if ss == "raise" and op.allow and isinstance(rs, op.allow):
        ctx.count("op unsupported step")
        return subject, model
    sm, rm = outcome(op.fn, model, "M")
    if ss != sm:
        raise Violation("%s-%s" % (kind, op.name), "%s(%s): the list %s, a built-in list %s\n%s" % (
            op.name, op.desc, show(ss, rs), show(sm, rm), trace()))
    if ss == "raise":
        ctx.count("op raised " + type(rs).__name__)
        if not acceptable(rs, rm, op):
            raise Violation("%s-%s" % (kind, op.name), "%s(%s) raised %r, a built-in list raises %r\n%s" % (
                op.name, op.desc, rs, rm, trace()))
        return subject, model
    ok = True
    if op.expect == "self":
        ok = rs is subject
    elif op.expect == "list":
        ok = type(rs) is list and same_items(kind, rs, rm)
    elif op.expect == "same":
        ok = type(rs) is kind.cls and rs is not subject and same_items(kind, rs.to_list(), rm) and len(rs) == len(rm)
    elif type(rm) is bool or type(rm) is tuple or rm is None or type(rm) is str:
        ok = type(rs) is type(rm) and rs == rm or rs is rm
    elif op.name in ("index", "count"):
        ok = type(rs) is int and rs == rm
    else:
        ok = same_item(kind, rs, rm)
    if not ok:
        raise Violation("%s-%s" % (kind, op.name), "%s(%s) returned %.300r (%s) instead of %.300r%s\n%s" % (
            op.name, op.desc, rs, type(rs).__name__, rm,
            "\n" + diff(list(rs), rm) if op.expect in ("list", "same") else "", trace()))
    return subject, model


def show(status, r):
    return "raised %r" % r if status == "raise" else "returned %.200r" % (r,)


def check_state(ctx, kind, subject, model, trace, what="after", ways=(0, 1, 2, 3, 4)):
    if len(subject) != len(model):
        raise Violation("%s-length" % kind, "length %d instead of %d\n%s" % (len(subject), len(model), trace()))
    got, how = read(ctx.rng, kind, subject, ways)
    ctx.count("contents compared")
    if not same_items(kind, got, model):
        raise Violation("%s-contents" % kind, "contents %s (%s): %s\n%s" % (what, how, diff(got, model), trace()))


HUGE_SIZES = [32767, 32768, 32769, 40000, 65535, 65536, 65537, 66000, 70000, 100003, 131072, 131073, 200001, 262145,
              270000]


def notable(rng, n):
    """An index of a list of n elements, a power of two away from either end or from the middle."""
    d = rng.choice([0] + [1 << b for b in range(15, max(18, n.bit_length()))]) + rng.randrange(-3, 4)
    i = rng.choice([d, n - d, n // 2 + d, n // 2 - d, rng.randrange(n)])
    i = max(0, min(n - 1, i))
    return i - n if rng.random() < 0.3 else i


def notable_op(rng, kind, values, n, model):
    i, v = notable(rng, n), values.one()
    what = rng.choice(["getitem", "setitem", "delitem", "pop_i", "insert", "getslice", "count"])
    if what == "count":
        v = values.fresh(model[i])
        return Op(what, repr(v), lambda L, s: L.count(v))
    if what == "getitem":
        return Op(what, repr(i), lambda L, s: L[i])
    if what == "pop_i":
        return Op(what, repr(i), lambda L, s: L.pop(i))
    if what == "insert":
        return Op(what, "%r, %r" % (i, v), lambda L, s: L.insert(i, v), grow=1)
    if what == "getslice":
        sl = slice(i, rng.choice([None, notable(rng, n)]), rng.choice([None, 1, -1, 3]))
        return Op(what, repr(sl), lambda L, s: L[sl], "list")

    def fn(L, s):
        if what == "setitem":
            L[i] = v
        else:
            del L[i]
    return Op(what, repr(i), fn)


def gen_large_op(rng, kind, values, model):
    """Operations on lists of tens and hundreds of thousands of elements."""
    n = len(model)
    limit = 600000
    if n > 900000:  # a vast history: lists of millions may double
        limit = 4 * n if n < 5000000 else 0
    if n and rng.random() < 0.4:
        return notable_op(rng, kind, values, n, model)
    while True:
        name = rng.choices(OP_NAMES, OP_WEIGHTS)[0]
        if name in ("imul", "extend_self", "iadd_self", "setslice_self", "mul", "add_self") and n * 3 > limit or \
                n > limit and name in ("extend", "iadd", "resize"):
            name = "delslice"
        if name == "resize" and not kind.resize or name in ("clear", "reinit", "imul0", "setslice_step", "delslice_step", "repr") \
                and rng.random() < 0.8:
            continue
        if name == "delslice" and rng.random() < 0.8:
            start = rng.randrange(n + 1)
            sl = slice(start, start + rng.randrange(n // 3 + 1))

            def fn(L, s):
                del L[sl]
            return Op("delslice", repr(sl), fn)
        if name in ("index", "count", "contains", "remove") and model and rng.random() < 0.5:
            v = values.fresh(model[rng.randrange(n)])
            return {"index": Op("index", repr(v), lambda L, s: L.index(v)),
                    "count": Op("count", repr(v), lambda L, s: L.count(v)),
                    "contains": Op("contains", repr(v), lambda L, s: v in L),
                    "remove": Op("remove", repr(v), lambda L, s: L.remove(v))}[name]
        op = OPS[name](rng, kind, values, n, model)
        return op


def run_history(ctx, kind, length, large=False):
    """One random history."""
    rng = ctx.rng
    values = Values(rng, kind)
    ways = (0, 1, 3, 4) if large and kind.linked else (0, 1, 2, 3, 4)
    if large:
        n = rng.choice(HUGE_SIZES) + rng.choice([0, 0, rng.randrange(1000)])
        if large == "vast":
            ways = (0, 3)
            n = (1 << rng.choice([20, 20, 21, 22])) + rng.choice([0, 1, -1, rng.randrange(1000), rng.randrange(1 << 20)])
        values.mode = rng.choice(["small", "edge", "wide", "wide"])
        data = values.many(n)
        if rng.random() < 0.2:  # one value fills most of it
            v = values.one()
            data = [v if x % 10 else data[x] for x in range(n)]
        elif kind.is_int and rng.random() < 0.5:
            lo = rng.choice([0, -n // 2, kind.bounds[0], kind.bounds[1] - 2 * n])
            data = list(range(lo, lo + n))
    else:
        n = rng.choice(BOUNDARY_SIZES) if rng.random() < 0.9 else rng.choice(BIG_SIZES)
        data = values.many(n)
    log = []

    def trace():
        shown = repr(data[:100])[:400]
        return "history: %s(%s: %d elements)%s" % (kind, shown, n, "".join("\n    .%s(%.300s)" % t for t in log))

    how = rng.randrange(5)
    if how == 0:
        subject = kind.cls(data)
    elif how == 1:
        subject = kind.cls()
        subject.extend(data)
    elif how == 2:
        subject = kind.cls(x for x in data)
    elif how == 3 and kind.resize:
        subject = kind.cls(exceptSize=rng.choice([0, 1, n, n + 1, 3 * n]))
        for x in data:
            subject.append(x)
    else:
        subject = kind.cls(tuple(data))
    model = list(data)
    check_state(ctx, kind, subject, model, trace, "after construction", ways)
    for i in range(length):
        op = gen_large_op(rng, kind, values, model) if large else gen_op(rng, kind, values, model)
        log.append((op.name, op.desc))
        del log[:-40]
        ctx.mark(op.name)
        subject, model = step(ctx, kind, subject, model, op, trace)
        ctx.count("op " + op.name)
        check_state(ctx, kind, subject, model, trace, "after", ways)
        ctx.maximum("length", len(model))
        ctx.distinct(op.name, op.desc, len(model), tuple(map(repr, model[:6])), len(model) and repr(model[-1]))
    ctx.sample(trace())
