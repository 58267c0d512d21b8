"""L05: sort() against the built-in list sort, with recorded key calls and injected failures."""
import array
import fractions
import functools
import math
import operator

from lib.monitor import Violation
from lib.lists import BOUNDARY_SIZES, BIG_SIZES, KINDS, Eq, diff, same_items

RULE = ("A case is one list type, one length (every length from 0 to 300 at least once per type, then lengths around "
        "each power of two and random ones up to 20000 (200000 thorough), in the vast cases millions), one distribution of the elements, one key "
        "function and one reverse flag. The sorted list is compared element by element with what list.sort leaves, "
        "the recorded key calls with the elements; in failure cases the k-th key call or comparison raises and the "
        "exception object and the multiset of elements are checked; in meddle cases key calls or comparisons change the list, "
        "and sort must raise and leave the original elements or the changed ones. distinct_nontrivial counts distinct (type, "
        "length, distribution, key, reverse, first elements) cases with at least 2 elements.")
ASSUMPTIONS = ["keys of the success cases are totally preordered (otherwise only the multiset of elements is checked)"]



def shards(tier, seed):
    n = {"quick": 5000, "thorough": 40000}[tier]
    top = {"quick": 20000, "thorough": 200000}[tier]
    r = []
    for k in KINDS:
        r.append(dict(name="sort-" + k, kind=k, lo=0, hi=n, split=6, top=top, mode="sort"))
        r.append(dict(name="fail-" + k, kind=k, lo=0, hi=n // 3, split=2, top=300, mode="fail"))
        r.append(dict(name="asan-" + k, kind=k, variant="asan", lo=0, hi=n // 8, split=3, top=6000, mode="sort"))
        r.append(dict(name="asanfail-" + k, kind=k, variant="asan", lo=0, hi=n // 16, split=1, top=200, mode="fail"))
        r.append(dict(name="meddle-" + k, kind=k, lo=0, hi=n // 3, split=1, top=300, mode="meddle"))
        r.append(dict(name="asanmeddle-" + k, kind=k, variant="asan", lo=0, hi=n // 16, split=1, top=200, mode="meddle"))
        r.append(dict(name="vast-" + k, kind=k, lo=0, hi=5 if tier == "quick" else 60, split=1 if tier == "quick" else 3, mode="vast",
                      rlimit_mb=0, weight=40))
    from checks.S03 import LEVELS
    for level, env in LEVELS.items():
        for k in ("IntArrayList", "BigIntArrayList"):
            r.append(dict(name="level-%s-%s" % (level, k), kind=k, variant="level", env=env, lo=0, hi=n // 3, split=3,
                          top=top, mode="sort"))
    return r


class Boom(Exception):
    pass


def base_value(rng, kind):
    if kind.is_int:
        lo, hi = kind.bounds
        return lambda i: rng.randint(lo, hi)
    mode = rng.choice(["int", "float", "str", "eq", "mixnum", "bytes", "tuple", "intsub", "nul", "oddstr", "oddint", "oddfloat", "oddsub",
                       "bigtuple", "nested", "oddtuple", "truthy", "reflected", "fraction"])
    odd = rng.choice([1, 1, 0.01])
    return {
        "int": lambda i: rng.randint(-1000, 1000) * 10 ** rng.choice([0, 0, 5, 30]),
        "float": lambda i: rng.choice([rng.random(), float(rng.randrange(5)), -0.0, 0.0, 1e300]),
        "str": lambda i: "".join(rng.choice("abcé\u4e2d") for _ in range(rng.randrange(4))),
        "eq": lambda i: Eq(rng.randrange(9)),
        "mixnum": lambda i: rng.choice([True, 1, 1.0, 0, False, 0.0, 2, 10 ** 20, -3.5]),
        "bytes": lambda i: bytes([rng.randrange(256)] * rng.randrange(3)),
        "tuple": lambda i: (rng.randrange(3), float(rng.randrange(3))),
        "intsub": lambda i: IntSub(rng.randrange(50)),
        # what the sort specializes itself for, and elements that nearly are of that kind, common or once in a while
        "nul": lambda i: "".join(rng.choice("a\0\xff") for _ in range(rng.randrange(5))),
        "oddstr": lambda i: rng.choice("abc") * rng.randrange(9) + (rng.choice(["\xe9", "\u4e2d", "\U0001f600"]) if rng.random() < odd / 2 else ""),
        "oddint": lambda i: rng.randrange(-99, 99) * (rng.choice([1, 2 ** 30, 2 ** 31, 2 ** 62, 2 ** 64]) if rng.random() < odd else 1),
        "oddfloat": lambda i: rng.choice([float, int])(rng.randrange(20)) if rng.random() < odd else rng.random() * 20,
        "oddsub": lambda i: rng.choice([IntSame, bool])(rng.randrange(20)) if rng.random() < odd else rng.randrange(20),
        "bigtuple": lambda i: (rng.choice([1, -1, 2 ** 29, 2 ** 30, 2 ** 40, -2 ** 64, 2 ** 64]), rng.choice([0, 2 ** 40, 2 ** 70])),
        "nested": lambda i: ((rng.randrange(3),) * rng.randrange(3), rng.randrange(4)),
        "oddtuple": lambda i: (rng.randrange(4), rng.random()) if rng.random() > odd / 2 else (float(rng.randrange(4)),) * rng.randrange(3),
        "truthy": lambda i: Truthy(rng.randrange(30)),
        "reflected": lambda i: Reflected(rng.randrange(30)),
        "fraction": lambda i: fractions.Fraction(rng.randrange(-9, 9), rng.randrange(1, 5)),
    }[mode]


class IntSub(int):
    """Ordered the other way round than int."""

    def __lt__(self, other):
        return int(self) > int(other)


class IntSame(int):
    pass


class Truthy:
    """Its comparison answers with anything that is true or false."""

    def __init__(self, n):
        self.n = n

    def __lt__(self, other):
        return ([0], "x", 2 ** 70, -1.5, True)[self.n % 5] if self.n < other.n else ([], "", 0, 0.0, False, None)[other.n % 6]


class Reflected:
    """Only the reflected comparison knows the answer."""

    def __init__(self, n):
        self.n = n

    def __lt__(self, other):
        return NotImplemented

    def __gt__(self, other):
        return self.n > other.n


def contents(rng, kind, n, dist):
    if n == 0:
        return []
    make = base_value(rng, kind)
    if dist == "random":
        return [make(i) for i in range(n)]
    if dist == "constant":
        v = make(0)
        return [v] * n
    if dist == "few":
        pool = [make(i) for i in range(rng.choice([2, 3, 5]))]
        return [rng.choice(pool) for _ in range(n)]
    if dist == "extremes" and kind.is_int:
        lo, hi = kind.bounds
        pool = [lo, lo + 1, -1, 0, 1, hi - 1, hi]
        return [rng.choice(pool) for _ in range(n)]
    if dist in ("small", "extremes"):
        if kind.is_int:
            return [rng.randrange(-20, 20) for _ in range(n)]
        pool = [make(i) for i in range(40)]
        return [rng.choice(pool) for _ in range(n)]
    data = sorted(make(i) for i in range(n))
    if dist == "sorted":
        return data
    if dist == "reversed":
        return data[::-1]
    if dist == "organ":
        return data[::2] + data[1::2][::-1]
    if dist == "sawtooth":
        p = rng.choice([3, 8, 16, 33, 100])
        return [data[(i * max(1, n // p)) % n] for i in range(n)]
    if dist == "swapped":
        for _ in range(rng.choice([1, 2, 5])):
            i, j = rng.randrange(n), rng.randrange(n)
            data[i], data[j] = data[j], data[i]
        return data
    if dist == "tail":  # sorted with a random tail
        k = rng.randrange(1, min(n, 40) + 1)
        return data[k:] + [make(i) for i in range(k)]
    if dist == "runs":
        out = []
        while len(out) < n:
            k = rng.choice([1, 2, 7, 15, 16, 17, 31, 33, 64, 100])
            s = sorted(data[rng.randrange(n)] for _ in range(k))
            out += s if rng.random() < 0.6 else s[::-1]
        return out[:n]
    raise AssertionError(dist)


DISTS = ["random", "random", "random", "constant", "few", "extremes", "small", "sorted", "reversed", "organ", "sawtooth", "swapped",
         "tail", "runs"]


def int_keys(rng):
    m = rng.choice([1, 2, 3, 10, 1000])
    return rng.choice([
        ("identity", lambda v: v), ("neg", lambda v: -v), ("mod%d" % m, lambda v: v % m), ("zero", lambda v: 0),
        ("abs", abs), ("float", float), ("str", str), ("tuple", lambda v: (v % m, -v)), ("lastdigit", lambda v: str(v)[-1]),
        ("big", lambda v: v * 2 ** 70), ("frac", lambda v: v / 7), ("bool", lambda v: v > 0), ("eq", lambda v: Eq(v % m)),
        ("mixed", lambda v: float(v % m) if v % 2 else v % m), ("intsub", lambda v: IntSub(v % m)),
        ("bytes", lambda v: b"x" * (v % 5)), ("hash", hash), ("bitlen", int.bit_length),
        ("nul", lambda v: "a\0" * (v % 3) + chr(v % m % 256)), ("oddstr", lambda v: "b" * (v % 4) + ("\u4e2d" if v % m == 1 else "")),
        ("bigtuple", lambda v: (v % m * 2 ** 29, v % 3)), ("truthy", lambda v: Truthy(v % 30)), ("reflected", lambda v: Reflected(v % 30)),
        ("oddint", lambda v: v % m << (40 if v % 7 == 1 else 0)), ("intsame", lambda v: IntSame(v % m) if v % 5 == 1 else v % m),
    ])


def obj_keys(rng, data):
    m = rng.choice([1, 2, 3, 10])
    return rng.choice([
        ("identity", lambda v: v), ("zero", lambda v: 0), ("type", lambda v: type(v).__name__),
        ("id", lambda v: id(v) % (m * 16)), ("repr", lambda v: len(repr(v))), ("eq", lambda v: Eq(len(repr(v)))),
        ("tuple", lambda v: (len(repr(v)) % m, v)), ("cmp", functools.cmp_to_key(lambda a, b: bool(a < b) - bool(b < a)))])


def run_case(ctx, shard, case):
    rng = ctx.rng
    kind = KINDS[shard["kind"]]
    if shard["mode"] == "fail":
        return fail_case(ctx, rng, kind, shard)
    if shard["mode"] == "meddle":
        return meddle_case(ctx, rng, kind, shard)
    if shard["mode"] == "vast":
        return vast_case(ctx, rng, kind, case)
    if case < 600:
        n = case // 2
    else:
        n = rng.choice([rng.choice(BOUNDARY_SIZES + BIG_SIZES), rng.randrange(0, 300), rng.randrange(0, 3000)])
        if rng.random() < 0.05:
            n = rng.randrange(3000, shard["top"])
    dist = rng.choice(DISTS)
    data = contents(rng, kind, n, dist)
    n = len(data)
    name, key = ("none", None)
    if rng.random() < (0.45 if kind.is_int else 0.5):
        name, key = int_keys(rng) if kind.is_int else obj_keys(rng, data)
    reverse = rng.choice([False, True, 0, 1, False, True, [1], ""])
    kwargs = {}
    if key is not None:
        calls = []

        def recorded(v):
            calls.append(v)
            return key(v)
        kwargs["key"] = recorded
    elif rng.random() < 0.3:
        kwargs["key"] = None
    if reverse is not False or rng.random() < 0.3:
        kwargs["reverse"] = reverse
    ctx.mark("%s n=%d %s key=%s reverse=%r" % (kind, n, dist, name, reverse))
    subject = kind.cls(data)
    if rng.random() < 0.15:  # spare capacity, or a buffer that was larger before
        extra = [data[0]] * rng.choice([1, 7, 200]) if data else []
        subject.extend(extra)
        for _ in extra:
            subject.pop()
    got = subject.sort(**kwargs)
    model = list(data)
    model.sort(key=key, reverse=bool(reverse))
    what = "%s of length %d, %s, key=%s, reverse=%r" % (kind, n, dist, name, reverse)
    if got is not None:
        raise Violation("%s-sort-result" % kind, what)
    after = subject.to_list()
    if not same_items(kind, after, model) or len(subject) != n:
        shown = "\n%r" % (data,) if n <= 40 else "\n%r..." % (data[:40],)
        raise Violation("%s-sort" % kind, "%s: %s%s" % (what, diff(after, model), shown))
    if key is not None:
        if kind.is_int:
            same = sorted(calls) == sorted(data) and all(type(v) is int for v in calls)
        else:
            same = sorted(map(id, calls)) == sorted(map(id, data))
        if not same:
            raise Violation("%s-sort-keycalls" % kind, "%s: key called %d times for %d elements" % (
                what, len(calls), n))
        ctx.count("key calls checked", len(calls))
    ctx.count("elements sorted", n)
    ctx.count("sorted with key" if key else "sorted without key")
    ctx.maximum("length", n)
    if n > 1:
        ctx.distinct(kind.name, n, dist, name, bool(reverse), tuple(map(repr, data[:5])))
    ctx.sample(what)


def vast_case(ctx, rng, kind, case):
    """Millions of elements."""
    bits = [20, 22, 21, 23, 22][case % 5]
    if not kind.is_int or kind.linked:
        bits = min(bits, [22, 20, 21, 19, 18][case % 5])
    if kind.is_int and not kind.linked and case % 5 == 3:
        bits = rng.choice([23, 24])
    n = (1 << bits) + rng.choice([0, 1, -1, rng.randrange(1 << bits - 1), rng.randrange(5000)])
    shape = rng.choice(["random", "random", "few", "sorted", "reversed", "runs", "permutation"] if bits < 24 else ["permutation"])
    if shape == "permutation":
        step = rng.randrange(n // 3, n) | 1
        while math.gcd(step, n) != 1:
            step += 2
        data = [v - n // 2 for v in ((i * step) % n for i in range(n))]
    elif not kind.is_int and shape == "random":
        data = [float(v) for v in array.array("i", rng.randbytes(4 * n))]
    else:
        code = "i" if not kind.is_int or kind.bounds[1] < 2 ** 31 else "q"
        data = array.array(code, rng.randbytes(array.array(code).itemsize * n)).tolist()
        if shape == "few":
            data = [v & 7 for v in data]
        elif shape in ("sorted", "reversed"):
            data.sort(reverse=shape == "reversed")
            for _ in range(rng.choice([0, 1, 5])):
                i = rng.randrange(n)
                data[i] = data[rng.randrange(n)]
        elif shape == "runs":
            at = 0
            while at < n:
                k = rng.randrange(1, n // 2)
                data[at:at + k] = sorted(data[at:at + k])
                at += k
    reverse = rng.random() < 0.5
    # reversed equal elements tell a stable sort from an unstable one in lists of objects
    key = rng.choice([None, None, None, operator.neg, lambda v: v & 1023]) if kind.is_int else rng.choice([None, None, int])
    if bits > 22:
        key = None
    what = "%s of length %d, %s, %s, reverse=%s" % (kind, n, shape, "a key" if key else "no key", reverse)
    ctx.mark(what)
    subject = kind.cls(data)
    if len(subject) != n:
        raise Violation("%s-vast-built" % kind, what)
    subject.sort(key=key, reverse=reverse)
    data.sort(key=key, reverse=reverse)
    after = subject.to_list()
    if len(subject) != n or after != data or not kind.is_int and not all(map(operator.is_, after, data)):
        raise Violation("%s-sort" % kind, "%s: %s" % (what, diff(after, data)))
    ctx.count("elements sorted", n)
    ctx.maximum("length", n)
    ctx.distinct(what, data[n // 2])


class Tricky:
    """Counts comparisons, the k-th raises (k None: never, answers are inconsistent)."""
    budget = None

    def __init__(self, rng, state):
        self.rng, self.state = rng, state

    def __lt__(self, other):
        s = self.state
        s["compares"] += 1
        if s["compares"] == s["raise_at"]:
            s["error"] = Boom(s["compares"])
            raise s["error"]
        return self.rng.choice([True, False, 1, 0, "x", []])

    __gt__ = __lt__


class NoBool:
    """Its comparison gives something that refuses to be true or false."""

    def __init__(self, state):
        self.state = state

    def __lt__(self, other):
        return self

    def __bool__(self):
        self.state["error"] = Boom("bool")
        raise self.state["error"]


def fail_case(ctx, rng, kind, shard):
    n = rng.choice(BOUNDARY_SIZES[2:] + [rng.randrange(2, shard["top"])])
    reverse = rng.random() < 0.5
    state = {"compares": 0, "raise_at": None, "error": None}
    how = rng.choice(["key", "compare", "inconsistent", "badkey", "notcallable", "incomparable", "unordered", "nobool"])
    if kind.is_int:
        data = [rng.randint(*kind.bounds) for _ in range(n)]
    else:
        data = [object() for _ in range(n)]
    key = None
    expect = Boom
    if how == "key":
        at = rng.randrange(1, n + 1)
        calls = []

        def key(v):
            calls.append(v)
            if len(calls) == at:
                state["error"] = Boom(at)
                raise state["error"]
            return -len(calls)
    elif how in ("compare", "inconsistent"):
        if how == "compare":
            state["raise_at"] = rng.randrange(1, max(2, n * rng.choice([1, 1, 2, 4, 8])))
        if kind.is_int or rng.random() < 0.5:
            def key(v):
                return Tricky(rng, state)
        else:
            data = [Tricky(rng, state) for _ in range(n)]
    elif how == "badkey":
        key, expect = (lambda: 1), TypeError
    elif how == "notcallable":
        key, expect = 5, TypeError
    elif how in ("unordered", "nobool"):
        make = rng.choice([object, complex, dict, lambda: None]) if how == "unordered" \
            else lambda: NoBool(state)
        if how == "unordered":
            expect = TypeError
        if kind.is_int or rng.random() < 0.5:
            def key(v):
                return make()
        else:
            data = [make() for _ in range(n)]
    else:
        keys = iter([1, "a"] * n)
        key, expect = (lambda v: next(keys)), TypeError
    subject = kind.cls(data)
    what = "%s of length %d, %s, reverse=%r" % (kind, n, how, reverse)
    ctx.mark(what)
    error = None
    try:
        subject.sort(key=key, reverse=reverse) if key is not None else subject.sort(reverse=reverse)
    except (Boom, TypeError) as e:
        error = e
    should = how != "inconsistent" and (how != "compare" or state["error"] is not None)
    if should != (error is not None) or (error is not None and not isinstance(error, expect)) \
            or (expect is Boom and should and error is not state["error"]):
        raise Violation("%s-sort-exception" % kind, "%s: %r reached the caller instead of %r" % (
            what, error, state["error"] or expect))
    after = subject.to_list()
    if kind.is_int:
        kept = sorted(after) == sorted(data)
    else:
        kept = sorted(map(id, after)) == sorted(map(id, data))
    if not kept or len(subject) != n:
        raise Violation("%s-sort-lost" % kind, "%s: the list no longer holds its original elements (%d of them now)"
                        % (what, len(after)))
    # and it is still fully usable
    subject.append(data[0])
    if not (subject.pop() == data[0] if kind.is_int else len(subject) == n + 1 and subject.pop() is data[0]):
        raise Violation("%s-sort-after" % kind, what)
    ctx.count("failing sorts" if error is not None else "sorts with inconsistent comparisons")
    ctx.distinct(kind.name, n, how, reverse, state["compares"], state["raise_at"])


MEDDLES = {
    "set": lambda L, i, v: L.__setitem__(i, v), "del": lambda L, i, v: L.__delitem__(i), "pop": lambda L, i, v: L.pop(),
    "append": lambda L, i, v: L.append(v), "insert": lambda L, i, v: L.insert(i, v), "clear": lambda L, i, v: L.clear(),
    "reverse": lambda L, i, v: L.reverse(), "extend": lambda L, i, v: L.extend([v, v]), "remove": lambda L, i, v: L.remove(L[i]),
    "slice": lambda L, i, v: L.__setitem__(slice(i, i + 2), [v]), "rotate": lambda L, i, v: L.append(L.pop(0)),
    "swap": lambda L, i, v: swap(L, i), "imul": lambda L, i, v: L.__imul__(2), "del-slice": lambda L, i, v: L.__delitem__(slice(i, None)),
    "pop-append": lambda L, i, v: (L.pop(), L.append(v)), "clear-refill": lambda L, i, v: refill(L),
    "sort": lambda L, i, v: L.sort(),
}


def swap(L, i):
    L[i], L[0] = L[0], L[i]


def refill(L):
    kept = [L[i] for i in range(len(L))]
    L.clear()
    L.extend(kept[::-1])


def meddle_case(ctx, rng, kind, shard):
    n = rng.choice(BOUNDARY_SIZES[1:] + [rng.randrange(2, shard["top"])])
    reverse = rng.random() < 0.5
    by_key = kind.is_int or rng.random() < 0.5
    state = {"calls": 0, "at": sorted(rng.randrange(1, (n if by_key else 2 * n) + 1) for _ in range(rng.choice([1, 1, 2, 3]))),
             "error": None}
    fail_at = rng.randrange(1, 2 * n + 2) if rng.random() < 0.2 else 0
    done = []

    def step():
        state["calls"] += 1
        while state["at"] and state["at"][0] <= state["calls"]:
            state["at"].pop(0)
            how, v = rng.choice(sorted(MEDDLES) if window is None else ["set", "swap", "reverse", "window"]), spare()
            if not len(model) and how not in ("append", "extend", "clear", "reverse", "imul", "sort"):
                continue
            if how == "sort" and not kind.is_int:
                continue
            i = rng.randrange(max(1, len(model)))
            done.append("%s(%d) at call %d" % (how, i, state["calls"]))
            if how == "window":
                model[i] = window[i] = v
                continue
            MEDDLES[how](model, i, v)
            MEDDLES[how](subject, i, v)
        if state["calls"] == fail_at:
            state["error"] = Boom(fail_at)
            raise state["error"]

    class Meddler:
        def __init__(self, n):
            self.n = n

        def __lt__(self, other):
            step()
            return self.n < other.n

    if kind.is_int:
        few = rng.random() < 0.3
        lo, hi = (0, 2) if few else kind.bounds

        def spare():
            return rng.randint(lo, hi)
    else:
        def spare():
            return Meddler(rng.randrange(50)) if not by_key else rng.choice([str(rng.randrange(9)), str(rng.randrange(900))])
    data = [spare() for _ in range(n)]
    key = None
    if by_key:
        mapped = rng.choice([lambda v: v, lambda v: str(v), lambda v: 0, lambda v: Meddler(len(str(v)))])

        def key(v):
            step()
            return mapped(v)
    model = list(data)
    subject = kind.cls(data)
    window = memoryview(subject) if kind.is_int and not kind.linked and rng.random() < 0.3 else None
    what = "%s of length %d, %s changes the list, reverse=%r" % (kind, n, "key" if by_key else "a comparison", reverse)
    ctx.mark(what)
    error = None
    try:
        subject.sort(key=key, reverse=reverse) if by_key else subject.sort(reverse=reverse)
    except Exception as e:
        error = e
    what += " (" + ", ".join(done) + ")"
    after = subject.to_list()
    view = (lambda l: l) if kind.is_int else (lambda l: [id(x) for x in l])
    now, then, changed = view(after), view(data), view(model)
    if state["error"] is not None:
        if error is not state["error"]:
            raise Violation("%s-meddle-exception" % kind, "%s: %r reached the caller instead of %r" % (what, error, state["error"]))
    elif error is not None:
        if not done or not isinstance(error, ValueError):
            raise Violation("%s-meddle-exception" % kind, "%s: %r" % (what, error))
    elif changed != then:
        raise Violation("%s-meddle-silent" % kind, "%s: no exception" % what)
    elif by_key and not done:
        pass
    if now != changed and sorted(now) != sorted(then):
        raise Violation("%s-meddle-lost" % kind, "%s: the list holds neither its elements nor the changed ones (%d of them now)" % (
            what, len(after)))
    if len(subject) != len(after):
        raise Violation("%s-meddle-length" % kind, what)
    # and it is still fully usable
    v = spare()
    if window is not None:
        if window.tolist() != after:
            raise Violation("%s-meddle-view" % kind, what)
        window.release()
    subject.append(v)
    if not (subject.pop() == v if kind.is_int else subject.pop() is v) or subject.to_list() != after:
        raise Violation("%s-meddle-after" % kind, what)
    ctx.count("sorts changing their list" if done else "sorts left alone")
    ctx.distinct(kind.name, n, by_key, reverse, tuple(done))
