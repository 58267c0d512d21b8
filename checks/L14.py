"""L14: from_range against the built-in range."""
from lib import lists
from lib.lists import KINDS, diff
from lib.monitor import Violation

RULE = ("Grid cases evaluate every (start, stop, step) with start and stop in a small window (shifted per case, also to the "
        "limits of the element and argument types) and every step in a window; random cases use large and extreme triples, "
        "up to 60000 elements; wrong cases use zero steps, wrong types and counts, elements outside the element range and "
        "unmeetable sizes. Oracle: list(range(...)), and a raised exception where an element does not fit. "
        "distinct_nontrivial counts distinct (type, arguments) results compared.")
ASSUMPTIONS = ["arguments beyond 64 bits may be refused even if all elements fit"]
NAMES = ["IntArrayList", "BigIntArrayList", "IntLinkedList"]


def shards(tier, seed):
    n = {"quick": 12000, "thorough": 300000}[tier]
    r = []
    for k in NAMES:
        r.append(dict(name="grid-" + k, kind=k, lo=0, hi=len(bases(k)) * 19, split=4, mode="grid"))
        r.append(dict(name="random-" + k, kind=k, lo=0, hi=n, split=4, mode="random"))
        r.append(dict(name="wrong-" + k, kind=k, lo=0, hi=n // 2, split=1, mode="wrong"))
        r.append(dict(name="asan-random-" + k, kind=k, lo=0, hi=n // 12, split=2, mode="random", variant="asan"))
        r.append(dict(name="asan-wrong-" + k, kind=k, lo=0, hi=n // 8, split=1, mode="wrong", variant="asan"))
    r.append(dict(name="other-types", lo=0, hi=1, mode="others"))
    return r


def bases(name):
    lo, hi = lists.I64 if name.startswith("Big") else lists.I32
    return [0, lo + 12, hi - 12, 2 ** 16, -2 ** 15, 2 ** 30, -2 ** 30, hi - 100, lo + 1000] + (
        [2 ** 31, -2 ** 31, 2 ** 32, 2 ** 40] if name.startswith("Big") else [])


def run_case(ctx, shard, case):
    if shard["mode"] == "others":
        for k in KINDS.values():
            if hasattr(k.cls, "from_range") and k.name not in NAMES:
                got = k.cls.from_range(1, 10, 3)
                if list(got) != [1, 4, 7]:
                    raise Violation("other-type", k.name)
            ctx.count("types looked at")
            ctx.distinct(k.name)
        return
    kind = KINDS[shard["kind"]]
    {"grid": grid_case, "random": random_case, "wrong": wrong_case}[shard["mode"]](ctx, kind, case)


def compare(ctx, kind, args, cls=None):
    """One call; returns True if it gave a list."""
    elements = range(*args)
    lo, hi = kind.bounds
    fits = not elements or (lo <= elements[0] <= hi and lo <= elements[-1] <= hi)
    narrow = all(lists.I64[0] <= a <= lists.I64[1] for a in args)
    try:
        got = (cls or kind.cls).from_range(*args)
    except (OverflowError, ValueError, TypeError, RuntimeError, MemoryError) as e:
        if fits and narrow:
            raise Violation("%s-refused" % kind, "from_range%r raised %r, range has %d elements" % (args, e, len(elements)))
        if fits and not isinstance(e, (OverflowError, MemoryError)):
            raise Violation("%s-refused" % kind, "from_range%r raised %r" % (args, e))
        ctx.count("refused ranges")
        return None
    if not fits:
        raise Violation("%s-wrapped" % kind, "from_range%r gave %.300r although elements are outside the element range" % (
            args, got.to_list()[:20]))
    if type(got) is not kind.cls and type(got) is not cls:
        raise Violation("%s-type" % kind, "%s.from_range gave a %s" % (cls or kind, type(got).__name__))
    want = list(elements)
    have = got.to_list()
    if have != want or len(got) != len(want) or any(type(v) is not int for v in have):
        raise Violation("%s-elements" % kind, "from_range%r: %s" % (args, diff(have, want)))
    ctx.count("ranges compared")
    ctx.count("elements compared", len(want))
    ctx.maximum("elements", len(want))
    return got


def grid_case(ctx, kind, case):
    b = bases(kind.name)
    base = b[case % len(b)]
    lo, hi = lists.I64
    offset = case // len(b) - 9
    start = base + offset
    ctx.mark("grid %d" % start)
    if not lo <= start <= hi:
        return
    for stop in range(max(lo, start - 21), min(hi, start + 21) + 1):
        compare(ctx, kind, (start, stop))
        for step in list(range(-12, 0)) + list(range(1, 13)):
            compare(ctx, kind, (start, stop, step))
        ctx.distinct(kind.name, start, stop)
    if abs(start) < 70000:
        compare(ctx, kind, (start,))
    ctx.sample("from_range(%d, %d..%d, -12..12)" % (start, start - 21, start + 21))


def random_case(ctx, kind, case):
    rng = ctx.rng
    lo, hi = kind.bounds
    n = rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 16, 17, 33, 100, 1000]) if rng.random() < 0.97 else rng.choice([rng.randrange(60000), 65535, 65536, 65537, 131073, rng.randrange(300000)])
    step = rng.choice([1, -1, 2, -2, 3, 7, -10, 100, 2 ** 16, 2 ** 30, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 33 - 1, 2 ** 62,
                       -2 ** 62, 2 ** 63 - 1, -2 ** 63, rng.randrange(1, 2 ** rng.randrange(1, 63)),
                       -rng.randrange(1, 2 ** rng.randrange(1, 63))])
    start = rng.choice([0, 1, -1, lo, hi, lo + 1, hi - 1, rng.randint(lo, hi), rng.randint(-1000, 1000),
                        rng.randint(*lists.I64), lists.I64[0], lists.I64[1]])
    stop = start + n * step
    stop += rng.choice([0, 0, 1, -1, step // 2, -step // 2])
    if rng.random() < 0.1:
        stop = rng.choice([lists.I64[0], lists.I64[1], lo, hi, 0])
    args = (start, stop, step)
    if rng.random() < 0.15:
        args = (rng.choice([n, -n, 0, 5, 60000]),)
    elif rng.random() < 0.15:
        args = (start, start + rng.choice([n, -n, 0]))
    if len(range(*args)) > 300000 if abs(args[-1]) < 2 ** 70 and _small(args) else True:
        return
    ctx.mark("from_range%r" % (args,))
    cls = type("Sub", (kind.cls,), {}) if rng.random() < 0.05 else None
    got = compare(ctx, kind, args, cls)
    ctx.distinct(kind.name, args)
    if got is not None and rng.random() < 0.3:  # an ordinary list from now on
        model = got.to_list()
        for v in (1, hi, lo, -1):
            got.append(v)
            model.append(v)
        got.reverse()
        model.reverse()
        got.sort()
        model.sort()
        if got.to_list() != model or list(got) != model or got[-1] != model[-1]:
            raise Violation("%s-afterwards" % kind, "from_range%r, then append, reverse, sort: %s" % (
                args, diff(got.to_list(), model)))
    if rng.random() < 0.1:
        b = rng.choice([True, False])
        compare(ctx, kind, (b, rng.randrange(5), 1))
    ctx.sample("from_range%r" % (args,))


def _small(args):
    try:
        return len(range(*args)) <= 70000
    except OverflowError:
        return False


class Idx:
    def __init__(self, v):
        self.v = v

    def __index__(self):
        return self.v


class Boom(Exception):
    pass


class Bad:
    def __init__(self):
        self.e = Boom()

    def __index__(self):
        raise self.e


def wrong_case(ctx, kind, case):
    rng = ctx.rng
    lo, hi = kind.bounds
    f = kind.cls.from_range
    what = rng.choice(["zero", "types", "count", "outside", "huge", "index", "wide", "raising", "keyword"])
    small = lambda: rng.randrange(-20, 20)  # noqa: E731
    if what == "zero":
        args = (rng.choice([small(), lo, hi, 2 ** 63 - 1]), rng.choice([small(), lo, hi]), 0)
        expect = (ValueError,)
    elif what == "types":
        bad = rng.choice(["1", 1.5, None, [], (), 3j, object(), b"2", 2.0, float("inf"), float("nan")])
        args = [small() or 1 for _ in range(rng.choice([1, 2, 3]))]
        args[rng.randrange(len(args))] = bad
        args = tuple(args)
        expect = (TypeError, OverflowError)
    elif what == "count":
        args = rng.choice([(), (1, 2, 3, 4), (1,) * 7])
        expect = (TypeError,)
    elif what == "outside":
        lo2, hi2 = lists.I64
        if kind.bounds == lists.I64:
            args = rng.choice([(2 ** 63, 2 ** 63 + 3), (-2 ** 63 - 5, -2 ** 63), (2 ** 64, 2 ** 64 + 2), (0, 2 ** 65, 2 ** 64),
                               (-2 ** 63, -2 ** 63 - 3, -1)])
        else:
            k = rng.randrange(1, 5)
            args = rng.choice([(hi - 3, hi + 1 + k), (lo + 2, lo - 1 - k, -1), (hi + k, hi + k + 2), (lo - k, lo + 2),
                               (2 ** 32, 2 ** 32 + k), (2 ** 32 + 5, 2 ** 32, -1), (0, 2 ** 40, 2 ** 32 + k),
                               (5, -2 ** 40, -2 ** 32), (2 ** 63 - 1 - k, 2 ** 63 - 1), (lo2, lo2 + k), (hi, 2 ** 40, 2 ** 31),
                               (hi2, lo2, lo2), (lo2, hi2, hi2), (-1, lo2, -2 ** 62)])
        expect = (Exception,)
    elif what == "huge":
        if kind.linked:
            return
        if kind.bounds == lists.I64:
            args = rng.choice([(2 ** 62,), (0, 2 ** 63 - 1), (-2 ** 63, 2 ** 63 - 1), (2 ** 63 - 1, -2 ** 63, -1),
                               (0, 2 ** 50), (2 ** 60 + 1,), (-2 ** 63, 2 ** 63 - 1, 2), (0, 2 ** 61)])
        else:
            args = rng.choice([(2 ** 62,), (-2 ** 63, 2 ** 63 - 1), (0, 2 ** 45), (lo, 2 ** 40)])
        expect = (MemoryError, OverflowError, RuntimeError)
    elif what == "index":
        args = (Idx(small()), Idx(small()), Idx(rng.choice([1, 2, -3])))
        want = list(range(*args))
        try:
            got = f(*args)
        except TypeError:
            return
        if got.to_list() != want:
            raise Violation("%s-index" % kind, diff(got.to_list(), want))
        ctx.count("index arguments compared")
        return
    elif what == "wide":
        args = rng.choice([(2 ** 63,), (2 ** 64,), (2 ** 64 + 5,), (-2 ** 64,), (0, 5, 2 ** 64), (0, 2 ** 64 + 5), (2 ** 64, 3),
                           (0, 5, 2 ** 64 + 1), (10 ** 40, 0), (0, -1, 10 ** 40), (2 ** 32,), (-2 ** 32 + 5, 0, 2 ** 70)])
        if _small(args):
            ctx.mark("from_range%r" % (args,))
            compare(ctx, kind, args)
            return
        if kind.linked:
            args = (2 ** 64,)
        if args == (2 ** 32,) and kind.bounds == lists.I64:
            return
        expect = (OverflowError, MemoryError, RuntimeError)
    elif what == "raising":
        b = Bad()
        args = [small() or 1 for _ in range(rng.choice([1, 2, 3]))]
        args[rng.randrange(len(args))] = b
        args = tuple(args)
        expect = (Boom, TypeError)
    else:
        try:
            got = f(start=1, stop=5)
        except TypeError:
            ctx.count("wrong calls refused")
            return
        raise Violation("%s-keyword" % kind, "from_range(start=1, stop=5) gave %r" % got)
    ctx.mark("from_range%r" % (args,))
    try:
        got = f(*args)
    except SystemError as e:
        raise Violation("%s-%s" % (kind, what), "from_range%r raised %r" % (args, e))
    except expect:
        ctx.count("wrong calls refused")
        ctx.distinct(kind.name, what, repr(args)[:60])
        return
    except Exception as e:
        raise Violation("%s-%s" % (kind, what), "from_range%r raised %r" % (args, e))
    raise Violation("%s-%s" % (kind, what), "from_range%r gave %d elements: %.200r" % (args, len(got), got.to_list()[:10]))
